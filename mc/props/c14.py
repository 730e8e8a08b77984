"""C14: cgrep selects exactly the lines that satisfy the combination of its matchers, unchanged and in order."""
import itertools
from fractions import Fraction
from core import Violation, seqs
import ref

BOUNDS = {
    "quick": "every table of up to 3 rows of 3 columns over {a, b, empty} (ragged rows included), every combination of up to 3 patterns x and/or x invert, header or not, last line terminated or not; "
             "every determiner (12 kinds, counts 0..4, fractions) x every row of 1..4 columns; column-to-column comparisons (6 operators, groups); column counts; the same on lines with missing columns; expressions; "
             "1..3 files with every list of location columns; locations in up to 140,000 lines, in quoted and escaped lines, after non-ASCII headers",
    "thorough": "as quick with tables of up to 4 rows, rows of up to 6 columns",
}
RULE = "distinct (exit class, output) pairs"
ASSUMPTIONS = ["fractional thresholds are decided where they do not fall half way between two counts"]
PATS = [("1,exact,a", lambda r: r[0] == b"a"), ("2,exact,a", lambda r: r[1] == b"a"), ("3,exact,a", lambda r: r[2] == b"a"),
        ("2,not.exact,a", lambda r: r[1] != b"a"), ("3,empty", lambda r: r[2] == b""), ("1,prefix,b", lambda r: r[0].startswith(b"b"))]
OPS = {"<": lambda c: c < 0, "<=": lambda c: c <= 0, ">": lambda c: c > 0, ">=": lambda c: c >= 0, "==": lambda c: c == 0, "!=": lambda c: c != 0}
WORD = {"<": "LT", "<=": "LE", ">": "GT", ">=": "GE", "==": "EQ", "!=": "NE"}


def pad(r, n=3):
    return list(r) + [b""] * (n - len(r))


def det_ok(det, yes, no):
    name, _, t = det.partition(",")
    if not t:
        return {"all": no == 0, "some": yes > 0, "none": yes == 0, "notall": no > 0, "mixed": yes > 0 and no > 0, "uniform": yes == 0 or no == 0}[name]
    n = no if name.endswith("no") else yes
    if "." in t:
        x = Fraction(t) * (yes + no)
        k = (x + Fraction(1, 2)).__floor__()
    else:
        k = int(t)
    name = name[:-2] if name.endswith("no") else name
    return {"atmost": n <= k, "atleast": n >= k, "exactly": n == k}[name]


def half(det, tot):
    t = det.partition(",")[2]
    return "." in t and (Fraction(t) * tot * 2).denominator == 1 and (Fraction(t) * tot).denominator != 1


def grep(srv, args, inp, rows, keep, hdr=b""):
    r = srv.run(["cgrep"] + args, stdin=inp)
    exp = hdr + b"".join(b"\t".join(x) + b"\n" for x, k in zip(rows, keep) if k)
    if r.rc != 0 or r.out != exp:
        raise Violation("cgrep %r on %r: expected %r got %s" % (args, inp, exp, r.brief()))
    return (r.out,)


def run(srv, case):
    space = case[0]
    if space == "combine":
        _, rows, pats, orr, inv, hdr, nl = case
        h = b" CDX\tx\ty\tz\n" if hdr else b""
        inp = h + b"\n".join(b"\t".join(r) for r in rows) + (b"\n" if nl and rows else b"")
        args = []
        for p in pats:
            s = PATS[p][0]
            if hdr and p % 2 == 0:
                s = "xyz"[int(s[0]) - 1] + s[1:]
            args += ["-p", s]
        args += ["-o"] * orr + ["-v"] * inv
        f = any if orr else all
        keep = [f(PATS[p][1](pad(r)) for p in pats) != bool(inv) for r in rows]
        return grep(srv, args, inp, rows, keep, h)
    if space == "group":
        _, det, cols, neg, width = case
        rows = [list(x) for x in itertools.product((b"a", b"b"), repeat=width)]
        inp = b"".join(b"\t".join(r) + b"\n" for r in rows)
        lo, hi = cols
        keep = []
        for r in rows:
            y = sum(v == b"a" for v in r[lo - 1:hi])
            keep.append(det_ok(det, y, hi - lo + 1 - y) != bool(neg))
        return grep(srv, ["-p", "[%s,%d-%d],%sexact,a" % (det, lo, hi, "not." if neg else "")], inp, rows, keep)
    if space == "wide":
        _, det, width, neg = case
        ys = sorted({y for y in (0, 1, 2, 3, 4, width // 4, width // 3, width // 2, width - 4, width - 3, width - 2, width - 1, width, 255, 256, 257, 258, 259, 260) if 0 <= y <= width})
        rows = [r for y in ys for r in ([b"a"] * y + [b"b"] * (width - y), [b"b"] * (width - y) + [b"a"] * y)]
        inp = b"".join(b"\t".join(r) + b"\n" for r in rows)
        keep = [det_ok(det, r.count(b"a"), r.count(b"b")) != bool(neg) for r in rows]
        return grep(srv, ["-p", "[%s,1-%d],%sexact,a" % (det, width, "not." if neg else "")], inp, rows, keep)
    if space == "ends":
        # columns counted from the end, in files of different widths
        _, widths, k, inv = case
        names, exp = [], b""
        for i, w in enumerate(widths):
            rows = list(itertools.product((b"a", b"b"), repeat=w))
            srv.write_file("f%d" % i, b"".join(b"\t".join(r) + b"\n" for r in rows))
            exp += b"".join(b"\t".join(r) + b"\n" for r in rows if (r[-k] == b"a") != bool(inv))
            names.append("f%d" % i)
        r = srv.run(["cgrep", "-p", "+%d,exact,a" % k] + ["-v"] * inv + names)
        if r.rc != 0 or r.out != exp:
            raise Violation("cgrep -p +%d,exact,a over files of %r columns: expected %r got %s" % (k, widths, exp, r.brief()))
        return (r.out,)
    if space == "ragged":
        # missing columns are empty columns
        _, width, kind, det, neg, what = case
        rows = [[b"a"] * width] + [list(x) for n in range(1, min(width, 5) + 1) for x in itertools.product((b"a", b"b", b""), repeat=n) if n < 4 or x[0] == b"a"]
        rows += [[b"b"] * (width - 1), [b"b"] * (width - 1) + [b"a"], [b""] * width]
        inp = b"".join(b"\t".join(r) + b"\n" for r in rows)
        keep = []
        for r in rows:
            full = list(r) + [b""] * (width - len(r))
            if kind == "comp":
                ok = [OPS[what](0 if full[0] == v else (-1 if full[0] < v else 1)) for v in full[1:]]
            else:
                ok = [v == what for v in full]
            keep.append(det_ok(det, sum(ok), len(ok) - sum(ok)) != bool(neg))
        if kind == "comp":
            arg = "1,comp,%s[%s,2-%d]" % (what, det, width)
        else:
            arg = "[%s,1-%d],%sexact,%s" % (det, width, "not." if neg else "", what.decode())
        return grep(srv, ["-p", arg], inp, rows, keep)
    if space == "comp":
        _, op, word, target, cols, det, comp, vals = case
        rows = [list(x) for x in itertools.product(vals, repeat=3)]
        inp = b"".join(b"\t".join(r) + b"\n" for r in rows)
        f = ref.KEYFN[comp]
        keep = []
        for r in rows:
            y = n = 0
            for c in cols:
                a, b = f(r[target - 1]), f(r[c - 1])
                if OPS[op](0 if a == b else (-1 if a < b else 1)):
                    y += 1
                else:
                    n += 1
            keep.append(det_ok(det or "some", y, n))
        g = "%d" % cols[0] if not det and len(cols) == 1 else "[%s%d-%d]" % (det + "," if det else "", cols[0], cols[-1])
        spec = (WORD[op] + "." if word else op) + g + ("," + comp if comp != "plain" else "")
        return grep(srv, ["-p", "%d,comp,%s" % (target, spec)], inp, rows, keep)
    if space == "count":
        _, rows, n = case
        inp = b"".join(b"\t".join(r) + b"\n" for r in rows)
        return grep(srv, ["-p", ",count,%d" % n], inp, rows, [len(r) == n for r in rows])
    if space == "expr":
        _, text, pyf, vals = case
        rows = [list(x) for x in itertools.product(vals, repeat=2)]
        inp = b" CDX\tp\tq\n" + b"".join(b"\t".join(r) + b"\n" for r in rows)
        g = EXPRS[pyf]
        return grep(srv, ["-p", ",expr," + text], inp, rows, [g(float(r[0]), float(r[1])) != 0 for r in rows], b" CDX\tp\tq\n")
    if space == "far":
        # locations in long files, in files with escaped values and under wide headers
        _, fmt, h, lines, every = case
        d = b"\t" if fmt[1] == "t" else fmt[1].encode()
        pos, exp = len(h), b" CDX" + d + b"line" + d + b"bytes" + h[4:] if h else b""
        body = []
        for n in range(lines[0]):
            l = lines[1 + n % (len(lines) - 1)] + (b"\n" if every and (n + 1) % every else d + b"hit\n")
            if l.endswith(b"hit\n"):
                exp += b"%d" % (n + 1) + d + b"%d" % pos + d + l
            pos += len(l)
            body.append(l)
        r = srv.run(["cgrep", "--text-in", fmt, "-p", ",infix,hit", "-l", "line,bytes", "f"], files={"f": h + b"".join(body)})
        if r.rc != 0 or r.out != exp:
            k = next((i for i, (a, b) in enumerate(zip(r.out, exp)) if a != b), min(len(r.out), len(exp)))
            raise Violation("cgrep --text-in %s -p ,infix,hit -l line,bytes on %d lines like %r after %r: expected ...%r got rc=%r ...%r" % (fmt, lines[0], lines[1:3], h, exp[max(0, k - 40):k + 40], r.rc, r.out[max(0, k - 40):k + 40]))
        return (len(r.out), r.out[:200])
    if space == "paths":
        _, names, num, hdr = case
        args, exp = ["-l", "name.%d,line" % num if num else "name,line"], b" CDX\tfilename\tline\tx\n" if hdr else b""
        for nm in names:
            srv.write_file(nm, (b" CDX\tx\n" if hdr else b"") + b"v\nw\n")
            parts = nm.split("/")
            shown = "/".join(parts[-num:]) if num else nm
            exp += b"%s\t1\tv\n" % shown.encode()
        r = srv.run(["cgrep", "-p", "1,prefix,v"] + args + list(names))
        if r.rc != 0 or r.out != exp:
            raise Violation("cgrep -p 1,prefix,v %r over files %r: expected %r got %s" % (args, names, exp, r.brief()))
        return (r.out,)
    _, files, locs, pat, delim, inv = case
    names, out, head = [], b"", None
    d = delim
    for i, (hdr, lines, nl) in enumerate(files):
        nm = "d/e%d/f%d" % (i, i)
        names.append(nm)
        h = b" CDX" + d + b"x" + d + b"y\n" if hdr else b""
        body = b"\n".join(lines) + (b"\n" if nl and lines else b"")
        srv.write_file(nm, h + body)
        if not hdr and not lines:
            continue
        if head is None:
            head = hdr
            if hdr:
                cols = [l.split(":")[0] if ":" in l else {"line": "line", "bytes": "bytes"}.get(l, "filename") for l in locs]
                out += b" CDX" + d + d.join([c.encode() for c in cols] + [b"x", b"y"]) + b"\n"
        pos = len(h)
        for n, l in enumerate(lines):
            if (l.split(d)[0] == b"a") != bool(inv):
                for loc in locs:
                    w = loc.split(":")[-1]
                    v = {"line": b"%d" % (n + 1), "bytes": b"%d" % pos, "name": nm.encode(), "name.1": nm.split("/")[-1].encode(),
                         "name.2": "/".join(nm.split("/")[-2:]).encode(), "name.9": nm.encode()}[w]
                    out += v + d
                out += l + b"\n"
            pos += len(l) + 1
    args = ["-p", pat] + (["-l", ",".join(locs)] if locs else []) + (["-v"] if inv else [])
    if d != b"\t":
        args = ["--text-in", "m" + d.decode() + "p"] + args
    r = srv.run(["cgrep"] + args + names)
    if r.rc != 0 or r.out != out:
        raise Violation("cgrep %r over %r: expected %r got %s" % (args, files, out, r.brief()))
    return (r.out,)


EXPRS = [lambda p, q: p < q, lambda p, q: p + q > 2, lambda p, q: p - q, lambda p, q: p * q, lambda p, q: p == q, lambda p, q: p != 1]
ETEXT = ["p<q", "p+q>2", "p-q", "p*q", "p==q", "p!=1"]


def cases(tier):
    th = tier == "thorough"
    rowset = [tuple(r) for n in (1, 2, 3) for r in itertools.product((b"a", b"b", b""), repeat=n) if n == 3 or r[-1] != b"" or n == 1]
    rows3 = [r for r in rowset if len(r) == 3]
    combos = [()] + [(i,) for i in range(6)] + list(itertools.combinations(range(6), 2)) + [(0, 1, 2), (0, 3, 4), (1, 3, 5), (2, 0, 1), (0, 0)]
    for rows in seqs(rowset, 0, 1):
        for c in combos:
            for o, v, h, nl in itertools.product((0, 1), (0, 1), (0, 1), (True, False)):
                if nl or (rows and rows[-1] != (b"",)):
                    yield ("combine", rows, c, o, v, h, nl)
    for rows in seqs(rows3[:14], 2, 2):
        for c in combos[1:12]:
            for o, v in itertools.product((0, 1), (0, 1)):
                yield ("combine", rows, c, o, v, len(rows[0][0]), True)
    for rows in seqs([rows3[0], rows3[13], rowset[0], rowset[4], rows3[5]], 3, 4 if th else 3):
        for c in combos[1:10]:
            for v in (0, 1):
                yield ("combine", rows, c, 0, v, 0, True)
    dets = ["all", "some", "none", "notall", "mixed", "uniform"] + \
        ["%s%s,%s" % (a, b, t) for a in ("atmost", "atleast", "exactly") for b in ("", "no") for t in ("0", "1", "2", "3", "4", "0.0", "0.25", "0.3", "0.5", "0.6", "0.75", "1.0")]
    for det in dets:
        for width in range(1, 7 if th else 6):
            for lo in range(1, width + 1):
                for hi in range(lo, width + 1):
                    if not half(det, hi - lo + 1):
                        for neg in (0, 1):
                            yield ("group", det, (lo, hi), neg, width)
    for op in OPS:
        for word in (0, 1):
            for t in (1, 2, 3):
                for cols in ((1,), (2,), (3,), (2, 3), (1, 2), (1, 2, 3)):
                    for det in [""] + (["all", "some", "none", "mixed", "exactly,1"] if len(cols) > 1 else []):
                        for comp, vals in (("plain", (b"a", b"ab", b"b", b"B")), ("lower", (b"a", b"B", b"b")), ("float", (b"1", b"10", b"9")), ("length", (b"a", b"bb", b"c"))):
                            yield ("comp", op, word, t, cols, det, comp, vals)
    for det in dets:
        for width in (2, 3, 4, 5, 6, 9):
            if not half(det, width):
                for neg in (0, 1):
                    for what in (b"a", b""):
                        yield ("ragged", width, "exact", det, neg, what)
            if not half(det, width - 1):
                for op in OPS:
                    yield ("ragged", width, "comp", det, 0, op)
    for rows in seqs([(b"a",), (b"a", b""), (b"a", b"b", b"c"), (b"",), (b"", b"", b"")], 0, 3):
        for n in range(0, 5):
            if rows:
                yield ("count", rows, n)
    for n in (8, 9, 10, 11, 100, 254, 255, 256, 257, 258, 300, 512, 513):
        yield ("count", ((b"x",) * n, (b"x",) * (n - 1), (b"x",) * (n + 1), (b"x",) * max(1, n % 256), (b"x",) * max(1, n % 10), (b"",) * n), n)
        yield ("count", ((b"x",) * n, (b"x",) * max(1, n % 256)), n % 256)
    for widths in itertools.product((1, 2, 3, 4), repeat=3):
        for k in range(1, min(widths) + 1):
            for inv in (0, 1):
                yield ("ends", widths, k, inv)
                if widths[2] == 1:
                    yield ("ends", widths[:2], k, inv) if k <= min(widths[:2]) else ("ends", widths, k, inv)
    for width in (7, 8, 9, 10, 11, 12, 16, 40, 100, 255, 256, 257, 300, 520):
        for det in ["all", "some", "none", "mixed", "notall", "uniform"] + ["%s%s,%s" % (a, b, t) for a in ("atmost", "atleast", "exactly") for b in ("", "no") for t in (
                "0", "1", "2", "4", "%d" % (width // 2), "%d" % (width - 1), "%d" % width, "%d" % (width + 1), "256", "0.0", "0.25", "0.5", "1.0")]:
            if not half(det, width):
                yield ("wide", det, width, 0)
                yield ("wide", det, width, 1)
    for i, t in enumerate(ETEXT):
        yield ("expr", t, i, (b"0", b"1", b"2", b"-1", b"0.5", b"10"))
    odd = {"p": (b"x", b"", b"\xc3\xa9 y", b"z" * 300), "q": (b'"a b"', b'"x""y"', b'"two\nlines"', b"", b'p"q r"'), "b": (b"a\\nb", b"\\t\\\\", b"", b"e\\ e", b"x\\ny\\r")}
    for q, vals in odd.items():
        for dl in "t,|":
            d = b"\t" if dl == "t" else dl.encode()
            for hd in (b"", d.join((b" CDX", b"x", b"y")) + b"\n", d.join((b" CDX", "naïve".encode(), "größe".encode())) + b"\n"):
                for k in (1, 2, 3):
                    for vs in itertools.product(vals, repeat=k):
                        yield ("far", "m" + dl + q, hd, (2 * k + 1,) + vs, 1)
                        yield ("far", "m" + dl + q, hd, (2 * k + 1,) + vs, 2)
    for n in (300, 5000, 33000, 66000, 140000):
        yield ("far", "mtp", b"", (n, b"x", b"longer value", b""), 97)
        yield ("far", "mtp", b" CDX\tx\ty\n", (n, b"x" * 60), 1001)
        yield ("far", "mtq", b" CDX\tx\ty\n", (n, b'"x""y"', b"z"), 1001)
    paths = ["f", "./f", "./d/f", ".h", "d/.h", "d/./f", "d/e/../f", "d//f", "d/e/f.txt", "d e/f g", "d/e/g/h/i/j", "d,e/f:g", "d/%s/f" % ("n" * 200), "d/\u00e9/\u4e2d"]
    for num in (0, 1, 2, 3, 4, 6, 7, 40):
        for hdr in (0, 1):
            for i, a in enumerate(paths):
                yield ("paths", (a,), num, hdr)
                yield ("paths", (a, paths[i - 1]), num, hdr)
    lset = [(), ("line",), ("bytes",), ("name",), ("name.1", "line", "bytes"), ("foo:line",), ("f:name.2", "b:bytes"), ("name.9",), ("line", "bytes", "name")]
    fl = [(h, ls, nl) for h in (True, False) for ls in ((), (b"a\tb",), (b"b\tc", b"a\td"), (b"a\tb", b"b\tq", b"a\tlonger"), (b"b\tx",), (b"", b"a\t")) for nl in (True, False) if ls or nl]
    for n in (1, 2, 3):
        for fs in itertools.product(fl if n < 3 else fl[::3], repeat=n):
            hs = {f[0] for f in fs if f[0] or f[1]}
            if len(hs) > 1:
                continue
            for loc in lset:
                for inv in (0, 1) if n < 3 else (0,):
                    yield ("loc", fs, loc, "1,exact,a", b"\t", inv)
                    if n < 3:
                        cs = tuple((h, tuple(l.replace(b"\t", b"|") for l in ls), nl) for h, ls, nl in fs)
                        yield ("loc", cs, loc, "1,exact,a", b"|", inv)
