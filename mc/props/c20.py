"""C20: verify succeeds exactly when every line passes every check."""
import itertools
import re
from core import Violation, seqs
import ref

BOUNDS = {
    "quick": "every file of up to 4 rows over 6 rows (ragged included), every combination of up to two patterns, sorted, unique, keys, report limits 1..6, first and last line conditions (6 operators, two-sided ranges, several keys), header or not; 1..3 files, also with the columns in different orders; one bad line at every place of files of 5..40 lines and at some of files of up to 70,000; as many as 70,000 bad lines; up to 1000 columns; up to 20 patterns; long and odd values; the first bad line is named",
    "thorough": "as quick with files of up to 5 rows",
}
RULE = "distinct (exit status, diagnostics) pairs"
ROWS = [(b"a", b"1"), (b"b", b"1"), (b"b", b"2"), (b"a", b"10"), (b"c",), (b"a", b"1", b"x")]
PATS = {"1,prefix,a": lambda r: r[0].startswith(b"a"), "2,not.empty": lambda r: len(r) > 1 and r[1] != b"", "2,exact,1": lambda r: len(r) > 1 and r[1] == b"1", ",count,2": lambda r: len(r) == 2,
        "1,length,1": lambda r: len(r[0]) == 1}
KEYS = {"": [ref.Key(None, "plain")], "1": [ref.Key(0, "plain")], "2,float": [ref.Key(1, "float")], "2": [ref.Key(1, "plain")], "1+2": [ref.Key(0, "plain"), ref.Key(1, "float", True)]}
KARG = {"": [], "1": ["-k", "1"], "2,float": ["-k", "2,float"], "2": ["-k", "2"], "1+2": ["-k", "1", "-k", "2,float.rev"]}
OPS = {"LT": lambda c: c < 0, "LE": lambda c: c <= 0, "GT": lambda c: c > 0, "GE": lambda c: c >= 0, "EQ": lambda c: c == 0, "NE": lambda c: c != 0}
SYM = {"LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "EQ": "==", "NE": "!="}


def vline(key, val):
    v = val.encode().split(b",")
    if key == "":
        return v[0]
    if key in ("2", "2,float"):
        return b"\t" + v[0]
    return b"\t".join(v)


def run(srv, case):
    if case[0] == "big":
        return big(srv, case)
    if case[0] == "order":
        return order(srv, case)
    _, files, hdr, pats, key, srt, lim, first, last, nl = case
    fn, ok = {}, True
    named = None        # (number of the first line found wrong by itself, its file), if nothing else is wrong before
    for i, rows in enumerate(files):
        if rows is None:
            fn["f%d" % i] = b""
            continue
        ls = [b"\t".join(r) for r in rows]
        fn["f%d" % i] = (b" CDX\tx\ty\n" if hdr else b"") + b"\n".join(ls) + (b"\n" if nl and ls else b"")
        if not rows:
            continue
        w = 2 if hdr else len(rows[0])
        bad = [k for k, r in enumerate(rows, 1) if len(r) != w or not all(PATS[p](r) for p in pats)]
        if bad and named is None and ok and not srt:
            named = (bad[0], "f%d" % i)
        ok &= all(len(r) == w for r in rows)
        ok &= all(PATS[p](r) for p in pats for r in rows)
        if srt:
            for a, b in zip(ls, ls[1:]):
                c = ref.compare(KEYS[key], a, b)
                ok &= c < 0 or (c == 0 and "u" not in srt)
        for cond, l in ((first, ls[0]), (last, ls[-1])):
            for op, val in cond or ():
                ok &= OPS[op](ref.compare(KEYS[key], l, vline(key, val)))
    args = ["verify"] + KARG[key] + (srt.split(" ") if srt else []) + (["-r", str(lim)] if lim else [])
    for p in pats:
        args += ["-p", p]
    for o, cond in (("-f", first), ("-l", last)):
        if cond:
            args += [o, "".join(SYM[a] + b for a, b in cond) if len(cond[0][1]) % 2 or len(cond) > 1 else "%s,%s" % cond[0]]
    r = srv.run(args + sorted(fn), files=fn)
    if r.crashed or r.out or (r.rc == 0) != ok or bool(r.err) == ok:
        raise Violation("%r on %r: should %s, got %s" % (args, fn, "succeed silently" if ok else "fail with a report", r.brief()))
    if named and not (re.search(rb"\b%d\b" % named[0], r.err) and named[1].encode() in r.err):
        raise Violation("%r on %r: line %d of %s is wrong, but the report is %s" % (args, fn, *named, r.brief()))
    return (r.rc, r.err)


def order(srv, case):
    """files with the same columns in another order, each checked by its own names"""
    _, fs, args, what = case
    fn, ok = {}, True
    for i, (cols, rows) in enumerate(fs):
        fn["f%d" % i] = " CDX\t".encode() + "\t".join(cols).encode() + b"\n" + b"".join("\t".join(r[c] for c in cols).encode() + b"\n" for r in (dict(zip("abc", r)) for r in rows))
        ok &= all(NAMED[what](dict(zip("abc", r))) for r in rows) if what in NAMED else all(x[what] <= y[what] for x, y in zip(rows, rows[1:]))
    r = srv.run(["verify", *args] + sorted(fn), files=fn)
    if r.crashed or r.out or (r.rc == 0) != ok or bool(r.err) == ok:
        raise Violation("verify %r on %r: should %s, got %s" % (args, fn, "succeed silently" if ok else "fail with a report", r.brief()))
    return (args, ok)


NAMED = {"pat": lambda r: r["b"].startswith("1"), "comp": lambda r: r["a"] < r["b"], "two": lambda r: r["b"].startswith("1") and r["c"] != "x", "expr": lambda r: float(r["a"]) + 1 <= float(r["b"]), "rev": lambda r: r["a"] > r["b"]}
NARG = {"pat": ("-p", "b,prefix,1"), "comp": ("-p", "a,comp,<b"), "two": ("-p", "b,prefix,1", "-p", "c,not.exact,x"), "expr": ("-p", ",expr,a+1<=b"), "rev": ("-p", "a,comp,GT.b,plain"), 1: ("-k", "b", "-s"), 0: ("-k", "a,plain", "-s")}


def big(srv, case):
    """-> files of n lines of w columns; the lines listed in bad are wrong in the way named"""
    _, n, w, kind, bad, opts, hdr = case
    pad = b"p" * (9000 if kind == "long" else 0)
    rows = [[b"%06d" % (2 * k) + pad] + [b"%d" % (j % 7) for j in range(1, w)] for k in range(n)]
    ok, named = True, None
    for k in bad:
        if kind == "short":
            rows[k] = rows[k][:-1]
        elif kind == "wide":
            rows[k] += [b"1"] * opts[0]
        elif kind in ("order", "long"):
            rows[k][0] = b"%06d" % (2 * k - 3) + pad
        elif kind == "same":
            rows[k][0] = rows[k - 1][0]
        elif kind == "match":
            rows[k][-1] = b"x"
        elif kind == "tail":
            rows[k][0] = rows[k - 1][0] + b"\xff" if k else b""
    args = ["verify", "-k", "1"]
    named = bad[0] + 1 if bad and kind in ("short", "wide", "match") else None
    if kind == "match":
        args += ["-p", "%d,integer" % w]
    if kind == "many":
        # opts: which of the patterns does not hold
        m, i = opts
        for j in range(m):
            args += ["-p", "%d,%sprefix,%s" % (1 + j % w, "not." if j == i else "", "" if j == i else ("0" if j % w == 0 else "%d" % (j % w % 7)))]
        ok = not 0 <= i < m
    elif kind == "lim":
        args += ["-r", "%d" % opts]
        for k in bad:
            rows[k] = rows[k][:-1]
        named = bad[0] + 1 if bad else None
    elif kind in ("order", "long", "tail"):
        args += ["-s"]
    elif kind == "same":
        args += ["-u"]
    if bad:
        ok = kind == "tail"
    fn = {"f0": (b" CDX\t" + b"\t".join(b"n%d" % j for j in range(w)) + b"\n" if hdr else b"") + b"".join(b"\t".join(r) + b"\n" for r in rows)}
    r = srv.run(args + ["f0"], files=fn)
    what = "%r on %d lines of %d columns, wrong (%s, %r) in %r" % (args[:20], n, w, kind, opts, bad[:5])
    if r.crashed or r.out or (r.rc == 0) != ok or bool(r.err) == ok:
        raise Violation("%s: should %s, got %s" % (what, "succeed silently" if ok else "fail with a report", r.brief()))
    if named and not (re.search(rb"\b%d\b" % named, r.err) and b"f0" in r.err):
        raise Violation("%s: line %d is wrong, but the report is %s" % (what, named, r.brief()))
    return (kind, n, w, r.rc)


def bigs(th):
    for n in (2, 3, 9, 10, 11, 255, 256, 257, 1000, 1024, 1025, 1026, 5000, 70000):
        at = sorted({1, 2, n // 2, n - 2, n - 1} | {x for x in (8, 9, 255, 256, 1022, 1023, 1024, 4095, 32768, 65534, 65535, 65536) if x < n} - {0})
        for hdr in (True, False):
            for kind in ("order", "same", "tail", "short", "match", "wide"):
                yield ("big", n, 3, kind, (), (1,), hdr)
                for k in at:
                    if 0 < k < n:
                        yield ("big", n, 3, kind, (k,), (1,), hdr)
        for m in {1, 2, 5, 255, 256, 257, 512, n - 1, 65535, 65536}:
            if 0 < m < n:
                for lim in (0, 1, 5, 255, 256, 257, 1000, m, m + 1):
                    yield ("big", n, 2, "lim", tuple(range(1, m + 1)), lim, True)
    for w in (2, 3, 9, 10, 11, 16, 255, 256, 257, 512, 1000):
        for hdr in (True, False):
            for kind in ("short", "wide", "match"):
                for k in (1, 2, 3):
                    for extra in (1, 2, 254, 255, 256, 257, 512) if kind == "wide" else (1,):
                        yield ("big", 4, w, kind, (k,), (extra,), hdr)
    for m in (1, 2, 3, 8, 9, 10, 11, 16, 17, 20):
        for i in range(m + 1):
            for w in (1, 3, 12):
                yield ("big", 3, w, "many", (), (m, i), True)
    for n in (3, 20):
        for k in range(1, n):
            yield ("big", n, 2, "long", (k,), (1,), True)
    rr = [("1", "15", "y"), ("0", "1", "x"), ("3", "2", "y"), ("1", "1", "z")]
    for w in NARG:
        for ps in itertools.product(("abc", "bac", "cba", "acb"), repeat=2):
            for rows in itertools.product([()] + [(r,) for r in rr] + ([(a, b) for a in rr for b in rr] if w in (0, 1) else []), repeat=2):
                yield ("order", tuple(zip(ps, rows)), NARG[w], w)
        for ps in itertools.permutations(("abc", "bca", "cab"), 3):
            for k in range(4):
                yield ("order", tuple(zip(ps, ((rr[0],), (rr[0], rr[0]), (rr[k],)))), NARG[w], w)
    # every byte at the deciding place of neighbouring lines and in the middle of a value
    for x in range(256):
        if x in (9, 10):
            continue
        c = bytes([x])
        for rows in (((c, b"1"), (b"a", b"2")), ((b"a", b"1"), (c, b"2")), ((b"k" + c, b"1"), (b"k", b"1")), ((b"k", b"1"), (b"k" + c, b"1")), ((b"q" * 40 + c, b"1"), (b"q" * 40 + b"m", b"1")), ((c, b"1"), (c, b"1"))):
            for s in ("-s", "-u"):
                for key in ("", "1"):
                    yield ("bytes", (rows,), True, (), key, s, 0, None, None, True)
            yield ("bytes", (rows,), True, ("1,prefix,a", "2,not.empty"), "", None, 0, None, None, True)


def cases(tier):
    yield from bigs(tier == "thorough")
    th = tier == "thorough"
    top = 5 if th else 4
    for rows in seqs(ROWS, 0, top - 1):
        for hdr in (True, False):
            if not hdr and not rows:
                continue
            for nl in (True, False) if len(rows) < 3 else (True,):
                yield ("plain", (rows,), hdr, (), "", None, 0, None, None, nl)
                for n in (1, 2):
                    for p in itertools.combinations(PATS, n):
                        yield ("patterns", (rows,), hdr, p, "", None, 0, None, None, nl)
                if len(rows) > 1:
                    for key in KEYS:
                        for s in ("-s", "-u", "-u -s", "-s -u", "-su", "-us"):
                            yield ("sorted", (rows,), hdr, (), key, s, 0, None, None, nl)
                    yield ("sorted", (rows,), hdr, ("1,prefix,a",), "1", "-s", 1, None, None, nl)
    for rows in seqs(ROWS[:4], top, top):
        for key in KEYS:
            yield ("sorted", (rows,), True, (), key, "-s", 0, None, None, True)
            yield ("sorted", (rows,), True, (), key, "-u", 2, None, None, True)
    for rows in seqs(ROWS[:4] + ROWS[5:], 0, 5):
        for lim in (1, 2, 3, 6):
            if rows:
                yield ("limit", (rows,), True, ("1,prefix,a",), "", None, lim, None, None, True)
    good = ROWS[:4]
    for rows in seqs(good, 1, 3):
        for op in OPS:
            for key, vals in (("", ("a", "b", "b\t1", "a\t10")), ("1", ("a", "b", "aa")), ("2,float", ("1", "2", "10.0")), ("1+2", ("a,1", "b,2", "b,1.5"))):
                for v in vals:
                    for a, b in ((((op, v),), None), (None, ((op, v),))):
                        yield ("ends", (rows,), True, (), key, None, 0, a, b, True)
        for o1, o2 in itertools.product(("GT", "GE", "NE"), ("LT", "LE")):
            for a, b in ((("a", "b")), ("b", "c"), ("a", "a"), ("0", "z")):
                yield ("ends", (rows,), True, (), "1", "-s", 0, ((o1, a), (o2, b)), ((o1, a), (o2, b)), len(rows) != 2)
    # bounds on two keys, parts of them empty, one bound after the other on the same and on other lines
    two = [(b"a", b"1"), (b"b", b"-1"), (b"", b"0"), (b"b", b"")]
    tv = ("a,", "b,", ",1", "a,1", ",0", "b,-1", ",")
    for rows in [(x,) for x in two] + [(x, y) for x in two for y in two]:
        for a in tv:
            for b in tv:
                for o1, o2 in (("GE", "LE"), ("NE", "NE"), ("EQ", "EQ"), ("LT", "GT"), ("EQ", "NE")):
                    yield ("ends", (rows,), True, (), "1+2", None, 0, ((o1, a),), ((o2, b),), True)
                if th or a != b:
                    yield ("ends", (rows,), True, (), "1+2", None, 0, (("GE", a), ("LE", b)), None, True)
                    yield ("ends", (rows,), True, (), "1+2", None, 0, None, (("NE", a), ("GE", b)), True)
    # long files: one bad line anywhere
    for n in (5, 6, 7, 12, 40):
        for i in range(n):
            for kind in range(4):
                rows = [(b"a%02d" % k, b"1") for k in range(n)]
                rows[i] = ((b"x%02d" % i, b"1"), (b"a%02d" % i,), (b"a%02d" % i, b"1", b""), (b"a%02d" % max(0, i - 1), b"1"))[kind]
                for p, s, lim in (((), None, 0), (("1,prefix,a",), None, 0), ((), "-s", 1), ((), "-u", 0), (("1,prefix,a",), "-u", 3)):
                    yield ("long", (tuple(rows),), i % 2 == 0, p, "1", s, lim, None, None, i % 3 != 0)
    for n in (4, 5, 6, 7, 10):
        for lim in (0, 1, 4, 5, 6, 7):
            yield ("many", (tuple([(b"b", b"1")] * n),), True, ("1,prefix,a",), "", None, lim, None, None, True)
            yield ("many", (tuple([(b"b",)] * n),), True, (), "", None, lim, None, None, True)
    fl = [None, (), (ROWS[0],), (ROWS[0], ROWS[1]), (ROWS[1], ROWS[0]), (ROWS[0], ROWS[4]), (ROWS[2],)]
    for n in (2, 3):
        for fs in itertools.product(fl, repeat=n):
            for lim in (0, 1):
                for p, s in (((), None), (("1,prefix,a",), None), ((), "-s"), ((), "-u -s"), ((), "-s -u")):
                    yield ("several", fs, True, p, "1", s, lim, None, None, True)
                    yield ("several", fs, False, p, "1", s, lim, (("LE", "a"),), None, True)
