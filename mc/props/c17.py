"""C17: paste puts the lines of its files side by side."""
import itertools
from core import Violation

BOUNDS = {
    "quick": "every combination of 1..3 files of 0..3 rows and 1..2 columns (ragged rows included), header or not, last line terminated or not, end mode exact/early/late, default values (global, per column, several), --last; every pair of header name lists x duplicate handling x renames; three and more files with repeated names; up to 258 renames, in one option or in several; up to 300 columns; other delimiters; files of up to 70,000 lines",
    "thorough": "as quick with up to 4 files of 0..4 rows",
}
RULE = "distinct (exit status, output) pairs"
ASSUMPTIONS = ["either all files have a header or none has; how many columns a zero-byte file stands for (end mode late) is left open"]


def cn(c):
    return bytes([97 + c]) if c < 26 else b"z%d" % c


def table(i, width, rows, ragged, d):
    out = []
    for r in range(rows):
        v = [b"f%d%d%s" % (i, r, cn(c)) for c in range(width)]
        if ragged and r == 1:
            v = v[:-1] if width > 1 else v + [b"more"]
        if r == 2:
            v[0] = b""
        out.append(d.join(v))
    return out


def names(i, width):
    return [b"n%d%s" % (i, cn(c)) for c in range(width)]


def expect(files, hdr, mode, opts, d):
    """files: list of (width, lines, names)"""
    ns = [n for f in files for n in f[2]]
    dfl = [b""] * len(ns)
    for o in opts.get("d", ()):
        v, _, cs = o.partition(b",")
        for k in range(len(ns)):
            if not cs or ns[k] in cs.split(b",") or b"%d" % (k + 1) in cs.split(b","):
                dfl[k] = v
    out = [b" CDX" + d + d.join(ns)] if hdr else []
    lens = [len(f[1]) for f in files]
    n = min(lens) if mode != "late" else max(lens)
    for r in range(n):
        p, k = [], 0
        for w, ls, nm in files:
            if r < len(ls):
                p.append(ls[r])
            elif opts.get("l") and ls:
                p.append(ls[-1])
            else:
                p.append(d.join(dfl[k:k + w]))
            k += w
        out.append(d.join(p))
    return b"".join(x + b"\n" for x in out), mode == "exact" and min(lens) != max(lens)


def run(srv, case):
    space = case[0]
    if space == "dups":
        _, ns, args = case
        r = srv.run(["paste"] + list(args) + ["f%d" % i for i in range(len(ns))],
                    files={"f%d" % i: b" CDX\t" + b"\t".join(n) + b"\n" + b"\t".join(b"%d" % i for _ in n) + b"\n" for i, n in enumerate(ns)})
        ren, dup, sloppy = [], "Fail", "-R" in args
        for i, a in enumerate(args):
            if a == "-D":
                dup = args[i + 1]
            if a == "-r":
                ren += [tuple(x.encode().split(b".")) for x in args[i + 1].split(",")]
        cols, bad = [], False
        for n in sum(ns, ()):
            if n in cols:
                k = [x for x in ren if x[0] == n]
                if k:
                    ren.remove(k[0])
                    if k[0][1] in cols:
                        bad = True
                        break
                    n = k[0][1]
                elif dup == "Fail":
                    bad = True
                    break
                elif dup == "Numeric":
                    i = 1
                    while n + b"%d" % i in cols:
                        i += 1
                    n += b"%d" % i
            cols.append(n)
        if ren and not sloppy:
            bad = True
        exp = b" CDX\t" + b"\t".join(cols) + b"\n" + b"\t".join(b"%d" % i for i, n in enumerate(ns) for _ in n) + b"\n"
        if r.crashed or (r.rc != 0) != bad or r.out != (b"" if bad else exp):
            raise Violation("paste %r of headers %r: expected %r got %s" % (args, ns, "an error" if bad else exp, r.brief()))
        return (r.rc, r.out)
    if space == "long":
        _, na, nb, mode, last = case
        a = [b"%d" % i for i in range(na)]
        b = [b"x%d" % (i * i) for i in range(nb)]
        files = [(1, a, [b"c1"]), (1, b, [b"c1"])]
        data = [b"".join(x + b"\n" for x in a), b"".join(x + b"\n" for x in b)]
        d, hdr, opts = b"\t", False, {"l": last}
    else:
        _, spec, hdr, mode, opt, d = case
        files, data, opts = [], [], {}
        for o in opt:
            if o == "-l":
                opts["l"] = True
            else:
                opts.setdefault("d", []).append(o)
        for i, (w, rows, ragged, nl) in enumerate(spec):
            ls = table(i, w, rows, ragged, d)
            nm = names(i, w) if hdr else [b"c%d" % (c + 1) for c in range(w)]
            h = b" CDX" + d + d.join(nm) + b"\n" if hdr else b""
            data.append(h + b"\n".join(ls) + (b"\n" if nl and ls else b""))
            files.append((w, ls, nm))
    args = ["paste", "-e", mode] + (["-l"] if opts.get("l") else [])
    if mode == "exact" and not opts.get("l"):
        args = ["paste"]
    for o in opts.get("d", ()):
        args += ["-d", o]
    if d != b"\t":
        args = args[:1] + ["--text-in", "m" + d.decode() + "p"] + args[1:]
    fn = {"f%d" % i: x for i, x in enumerate(data)}
    r = srv.run(args + list(fn), files=fn)
    exp, bad = expect(files, hdr, mode, opts, d)
    if bad:
        if r.rc == 0 or r.crashed or not exp.startswith(r.out):
            raise Violation("paste %r of %r: files differ in length, got %s" % (args, fn, r.brief()))
    elif r.rc != 0 or r.out != exp:
        raise Violation("paste %r of %r: expected %r got %s" % (args, fn, exp, r.brief()))
    return (r.rc, r.out)


def cases(tier):
    th = tier == "thorough"
    R = 5 if th else 4
    for hdr in (True, False):
        fl = [(w, r, g, nl) for w in (1, 2) for r in range(0 if hdr else 1, R) for g in (0, 1) for nl in (True, False) if (r > 1 or not g) and (r or nl) and not (w == 1 and r == 3 and not nl)]
        some = [f for f in fl if f[3] and not f[2]]
        for n in (1, 2, 3) + ((4,) if th else ()):
            for fs in itertools.product(fl if n < 3 else some, repeat=n):
                for mode in ("exact", "early", "late"):
                    opts = [()]
                    if mode == "late":
                        opts += [("-l",), (b"D",), (b"D,1",)]
                        if n > 1:
                            opts += [(b"D,2", b"E,1"), (b"E", b"D,%s" % (b"n1a" if hdr else b"c1")), ("-l", b"D")]
                    for o in opts:
                        if n == 3 and len(o) > 1:
                            continue
                        if any(isinstance(x, bytes) and x.endswith(b",2") for x in o) and sum(f[0] for f in fs) < 2:
                            continue
                        if not hdr and o and any(b",c1" in x for x in o if isinstance(x, bytes)):
                            continue
                        yield ("files", fs, hdr, mode, o, b"\t")
                        if n == 2 and len(o) < 2:
                            yield ("files", fs, hdr, mode, o, b"|")
    # files of no bytes have no lines
    for n in (1, 2, 3):
        for fs in itertools.product([(1, 0, 0, True), (1, 1, 0, True), (2, 2, 0, True)], repeat=n):
            if any(f[1] == 0 for f in fs):
                for mode in ("exact", "early"):
                    yield ("files", fs, False, mode, (), b"\t")
    nl = [(b"a",), (b"b",), (b"a", b"b"), (b"b", b"a1"), (b"a1",), (b"a", b"c")]
    for a in nl:
        for b in nl:
            for args in ([], ["-D", "Fail"], ["-D", "Allow"], ["-D", "Numeric"], ["-r", "a.z"], ["-r", "a.b"], ["-r", "a.z,b.y"], ["-r", "a.z", "-R"], ["-r", "q.z", "-R"], ["-r", "a.z", "-R", "-D", "Numeric"]):
                yield ("dups", (a, b), tuple(args))
    for t in itertools.product([(b"a",), (b"a", b"b"), (b"a1",), (b"a2", b"b")], repeat=3):
        for args in (["-D", "Allow"], ["-D", "Numeric"], ["-r", "a.z"], ["-r", "a.z,a.y"], ["-r", "a.z", "-r", "a.y,b.x"], ["-r", "a.z", "-R", "-D", "Numeric"], ["-D", "Allow", "-r", "b.a", "-R"]):
            yield ("dups", t, tuple(args))
    # renames used one after another: every sequence of up to four, over two names that each come three times
    R = ["a.p", "a.q", "b.r", "b.s", "a.b"]
    for k in (1, 2, 3, 4):
        for rs in itertools.permutations(R, k):
            for hs in (((b"a", b"b"),) * 3, ((b"b", b"a"), (b"a",), (b"b", b"a")), ((b"a",), (b"b",), (b"b",), (b"a",), (b"a",))):
                for extra in ([], ["-R", "-D", "Numeric"], ["-D", "Allow"]):
                    yield ("dups", hs, tuple(["-r", ",".join(rs)] + extra))
                    if k == 2:
                        yield ("dups", hs, tuple(["-r", rs[0], "-r", rs[1]] + extra))
    for n in (2, 9, 10, 11, 12, 40):
        for k in (0, n // 2, n - 1):
            for hdr in (True, False):
                for mode in ("exact", "early", "late"):
                    for o in [()] + ([("-l",), (b"D",), (b"D,%d" % n, b"E,1")] if mode == "late" else []):
                        for w in (1, 2):
                            yield ("files", tuple((w, 1 if i == k else 2, 0, True) for i in range(n)), hdr, mode, o, b"\t")
    for rs in (["a.a"], ["a.a", "b.r"], ["b.b", "a.p"], ["a.b", "b.a"], ["a.p", "a.p"], ["a.p", "b.p"], ["a.a", "a.p"]):
        for hs in (((b"a", b"b"),) * 2, ((b"a",),) * 2, ((b"a", b"b"),) * 3, ((b"b",), (b"a",))):
            for extra in ([], ["-R"], ["-R", "-D", "Allow"], ["-D", "Numeric"]):
                yield ("dups", hs, tuple(["-r", ",".join(rs)] + extra))
    # many renames, of one name or of as many, in one option or in several
    for n in list(range(1, 21)) + [32, 33, 64, 65, 128, 257]:
        one = ["a.z%d" % i for i in range(n)]
        each = ["n%d.m%d" % (i, i) for i in range(n)]
        for rs, hs in ((one, tuple((b"a",) for _ in range(n + 1))), (each, (tuple(b"n%d" % i for i in range(n)),) * 2), (each[::-1], (tuple(b"n%d" % i for i in range(n)),) * 2)):
            for extra in ([], ["-R"], ["-D", "Numeric"]):
                yield ("dups", hs, tuple(["-r", ",".join(rs)] + extra))
                yield ("dups", hs, tuple([y for x in rs for y in ("-r", x)] + extra))
            yield ("dups", hs, ("-r", ",".join(rs[:-1]) or "q.q"))
            yield ("dups", hs, ("-r", ",".join(rs + ["q.r"])))
    for n in (5, 10, 11, 25, 150):
        for args in (["-D", "Allow"], ["-D", "Numeric"], ["-D", "Fail"]):
            yield ("dups", tuple((b"a",) for _ in range(n)), tuple(args))
    for w in (1, 2, 9, 10, 11, 12, 100, 300):
        for w2 in (1, 10, 300):
            for hdr in (True, False):
                for r1, r2 in ((1, 1), (1, 2), (2, 1), (3, 3)):
                    for mode in ("exact", "early", "late"):
                        for o in [()] + ([("-l",), (b"D",), (b"D,%d" % (w + w2),), (b"D,%d" % w, b"E,%d" % (w + 1)), (b"D,1,%d" % (w + w2),)] if mode == "late" else []):
                            yield ("files", ((w, r1, 0, True), (w2, r2, 0, True)), hdr, mode, o, b"\t")
    # the last line of the shorter file is empty
    for w2 in (1, 2):
        for rows in (4, 5):
            for hdr in (True, False):
                for o in ((), ("-l",), ("-l", b"D"), (b"D",)):
                    for fs in (((1, 3, 0, True), (w2, rows, 0, True)), ((w2, rows, 0, True), (1, 3, 0, True)), ((1, 3, 0, True), (w2, rows, 0, True), (1, 3, 0, True))):
                        yield ("files", fs, hdr, "late", o, b"\t")
    for na, nb in ((1, 1), (3000, 3000), (3000, 2999), (2, 5000), (40000, 40000), (70000, 70000), (70000, 2), (20000, 1)):
        for mode in ("exact", "early", "late"):
            yield ("long", na, nb, mode, False)
            if mode == "late":
                yield ("long", na, nb, mode, True)
