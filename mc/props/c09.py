"""C09: binsearch prints exactly the lines of a sorted file that match, with the requested context."""
import itertools

from core import Violation, plan
import ref
from props.c01 import K, W

RULE = "distinct outputs"
BOUNDS = {
    "quick": "every sorted file of <=5 lines over 5 line values (empty, one-byte and longer lines), every pattern below, "
             "between and on them, 15 keys, 8 contexts, header or not, final newline or not, 1-2 files with file name columns; every 2 or 3 of 6 files, empty ones among them; "
             "size ladders 1..64 lines with every pattern; one long line (up to 5000 bytes) in every place; files of up to 70,000 lines with runs of up to 66,000 equal lines and contexts of up to 66,001 lines; values of 0..8 parts for 2..6 keys",
    "thorough": "files of <=7 lines over 6 values; ladders to 256 lines, files of 200,000 lines",
}
# name: (args, keys, line values, patterns)
V = [b"", b"b", b"bb\tx", b"d\ty\tz", b"dddd"]
P = [b"", b"a", b"b", b"bb", b"c", b"d", b"dddd", b"e"]
F = [b"-2", b"0", b"1.5\tq", b"10", b"x"]
FP = [b"-3", b"-2", b"-1", b"0", b"0.0", b"1.5", b"2", b"1e1", b"11"]
SPECS = {
    "": ([], K((0, "plain", 0)), V, P),
    "1": (["-k", "1"], K((0, "plain", 0)), V, P),
    "w": (["-k", ",plain"], "whole", V, [b"", b"b", b"bb", b"bb\tx", b"d\ty\tz", b"dddd", b"z"]),
    "rev": (["-k", "1,rev"], K((0, "plain", 1)), V, P),
    "low": (["-k", "1,lower"], K((0, "lower", 0)), [b"", b"B", b"b\tx", b"Ca\ty", b"dddd"], [b"", b"A", b"B", b"b", b"cA", b"ca", b"E"]),
    "len": (["-k", "1,len"], K((0, "length", 0)), V, [b"", b"x", b"xx", b"xxx", b"xxxx", b"xxxxx"]),
    "float": (["-k", "1,float"], K((0, "float", 0)), F, FP),
    "frev": (["-k", "1,float.rev"], K((0, "float", 1)), F, FP),
    "num": (["-k", "1,num"], K((0, "numeric", 0)), [b"-2", b"0", b"1.5\tq", b"1,000", b"20000"], [b"-3", b"-2", b"0", b"1.50", b"1.6", b"1000", b"99999"]),
    "ip": (["-k", "1,ip"], K((0, "ip", 0)), [b"1.2", b"1.2.3\tq", b"1.10", b"2", b""], [b"", b"1.2", b"1.2.3", b"1.3", b"1.10", b"2", b"3"]),
    "2": (["-k", "2"], K((1, "plain", 0)), [b"z", b"y\ta", b"q\tb\tc", b"\tc", b"c\tcc"], [b"", b"a", b"b", b"bb", b"c", b"cc", b"d"]),
    "12": (["-k", "1", "-k", "2"], "two", [b"a", b"a\tb", b"a\tc", b"b\ta", b"c\tc\tc"], [b"a,", b"a,b", b"a,bb", b"a,c", b"b,a", b"c,c", b"d,"]),
    "12s": (["-k", "1", "-k", "2", "-s", ";"], "two", [b"a", b"a\tb", b"a\tc", b"b,\ta", b"c\tc\tc"], [b"a;", b"a;b", b"a;bb", b"a;c", b"b,;a", b"b;a", b"c;c", b"d;"]),
    "n2": (["-k", "v", "-k", "k"], "two3", [b"z\t1", b"y\t1", b"y\t2", b"c\t3", b"a\t3"], [b"1,z", b"1,y", b"2,y", b"3,a", b"3,b", b"0,a"]),
    "2n": (["-k", "2,float", "-k", "1,rev"], "two2", [b"z\t1", b"y\t1", b"y\t2", b"c\t10", b"a\t10"], [b"1,z", b"1,y", b"2,y", b"10,a", b"10,b", b"0,a"]),
}
CTX = {"": ((0, 0), (0, 0)), "1": ((1, 1), (1, 1)), "2": ((2, 2), (2, 2)), "1.2": ((1, 2), (1, 2)),
       "1,0": ((1, 1), (0, 0)), "0,2": ((0, 0), (2, 2)), "0.1,1.0": ((0, 1), (1, 0)), "9": ((9, 9), (9, 9))}
HDR = b" CDX\tk\tv"


def keyset(ks):
    if ks == "whole":
        return [ref.Key(None, "plain", False)]
    if ks == "two":
        return K((0, "plain", 0), (1, "plain", 0))
    if ks == "two3":
        return K((1, "plain", 0), (0, "plain", 0))
    if ks == "two2":
        return K((1, "float", 0), (0, "plain", 1))
    return ks


def cases(tier):
    th = tier == "thorough"
    n = 6 if th else 5
    for spec, (_, ks, vals, pats) in SPECS.items():
        srt = ref.stable_sort(keyset(ks), vals)
        main = spec in ("", "rev", "float")
        for m in range((n if main else (n - 1)) + 1):
            for idx in itertools.combinations_with_replacement(range(len(srt)), m):
                for pi in range(len(pats)):
                    yield ("one", spec, "", 1 if spec == "n2" else (0, 1)[len(idx) % 2], (pi + m) % 2, idx, pi)
    for spec in ("", "rev", "float", "w", "2"):
        pats = SPECS[spec][3]
        for ctx in CTX:
            for hd in (0, 1):
                for nonl in (0, 1):
                    for m in range(0, 4 if not th else 5):
                        for idx in itertools.combinations_with_replacement(range(5), m):
                            for pi in range(len(pats)):
                                if not th and spec != "" and (pi + sum(idx)) % 2:
                                    continue
                                yield ("ctx", spec, ctx, hd, nonl, idx, pi)
    for n in range(1, 9 if th else 7):
        for pos in range(n):
            for ln in (3, 10, 100, 5000):
                for dup in (1, 2, n):
                    for p in range(-1, 2 * ((n + dup - 1) // dup) + 1):
                        for ctx in ("", "1"):
                            yield ("long", n, pos, ln, dup, p, ctx)
    for fn in ("file:0", "file:1", "file:2", "name", "0", "1", "2"):
        for hd in (0, 1):
            if hd and fn.isdigit():
                continue
            for ctx in ("", "1"):
                for i1 in ((), (1,), (1, 1, 2), (0, 3)):
                    for i2 in ((), (1, 2), (4,)):
                        for pi in range(len(P)):
                            yield ("files", fn, ctx, hd, i1, i2, pi)
    for names in (("d/e/g/h/i/A", "d/B"), ("./d/A", "d/e/g/B"), ("A", "d/e/A"), ("d/e.f/A b.txt", "d/\u00e9/B")):
        for fn in ["file:%d" % k for k in range(8)] + ["n\u00e9:1", "q", "%d" % 4]:
            for hd in (0, 1):
                if not (hd and fn.isdigit()):
                    for pi in (2, 4):
                        yield ("files", fn, "", hd, (1, 1, 2), (1, 2), pi, names)
    # several files searched one after another, empty ones and ones without lines among them
    for spec, (_, ks, vals, pats) in SPECS.items():
        for hd in (1,) if spec == "n2" else (0, 1):
            bodies = [None, (), (1,), (0, 2), (1, 1, 3, 4), (4,)]
            for k in (2, 3):
                for fs in itertools.product(bodies if hd else bodies[1:], repeat=k):
                    for pi in range(len(pats)):
                        if k == 2 or th or (pi + sum(map(len, filter(None, fs)))) % 3 == 0:
                            yield ("multi", spec, ("", "1", "0.1,1.0")[pi % 3], hd, fs, pi)
    mx = 256 if th else 64
    for n in list(range(1, 17)) + list(range(17, mx + 1, 5)):
        for dup in (1, 3):
            for p in range(-1, 2 * ((n + dup - 1) // dup) + 1):
                yield ("ladder", n, dup, p)


    # larger files and contexts: every block boundary of the search and of the counts
    for n in (255, 256, 257, 1000, 5000) + ((70000, 200000) if th else (70000,)):
        for dup in (1, 7, 300, 66000):
            m = 2 * ((n + dup - 1) // dup)
            for p in sorted({-1, 0, 1, 2, m // 3, m // 3 + 1, m // 2, m // 2 + 1, m - 4, m - 3, m - 2, m - 1, m}):
                for c in (("", "3") if n >= 5000 else ("", "3", "255", "256,1", "0,257", "300.1,2.299", "65535", "65537,65536")):
                    yield ("big", n, dup, p, c)
    for p in range(0, 40003, 4001):
        for c in ("255", "256,1000", "0,65537", "66000.1,66001.2"):
            yield ("big", 70000, 2, p, c)


    # several keys want a value of as many parts
    for k in range(2, 7):
        for m in range(0, 9):
            for delim in (",", ";", "|", ":"):
                for last in ("a", "b", ""):
                    for hd in (0, 1):
                        yield ("parts", k, m, delim, last, hd)


def context(c):
    b, _, a = c.partition(",")
    f = lambda x: (int(x.split(".")[0]), int(x.split(".")[-1]))
    return (f(b), f(a or b)) if c else ((0, 0), (0, 0))


def search(keys, lines, pat, whole=False):
    """(start, stop) indexes of the matching run, or the insertion point twice"""
    lo, hi = None, None
    i = 0
    # keep a pseudo line whose keys are the pattern values
    def cmpv(line):
        for k, pv in zip(keys, pat):
            x = k.value(line)
            y = k.fn(pv + b"\n" if k.column is None else pv)
            if x != y:
                c = -1 if y < x else 1
                return -c if k.rev else c      # pattern relative to line
        return 0
    before = [x for x in lines if cmpv(x) > 0]
    same = [x for x in lines if cmpv(x) == 0]
    lo = len(before)
    hi = lo + len(same)
    assert lines[lo:hi] == same and lines[:lo] == before
    return lo, hi


def window(keys, lines, pat, ctx):
    lo, hi = search(keys, lines, pat)
    (bm, bn), (am, an) = ctx
    b, a = (bm, am) if hi > lo else (bn, an)
    return lines[max(0, lo - b):hi + a]


def run(srv, case):
    pl = plan(timeout=20)
    if case[0] == "parts":
        _, k, m, delim, last, hd = case
        head = b" CDX" + b"".join(b"\tk%d" % i for i in range(k)) + b"\n" if hd else b""
        rows = [b"\t".join([b"a"] * (k - 1) + [x]) + b"\n" for x in (b"", b"a", b"b", b"c")]
        pat = delim.join(["a"] * (m - 1) + [last]) if m else ""
        kk = [x for i in range(k) for x in ("-k", "k%d" % i if hd else str(i + 1))]
        a = ["binsearch", *kk] + ([] if delim == "," else ["-s", delim]) + ["--", pat, "A"]
        r = srv.run(a, files={"A": head + b"".join(rows)}, pl=pl)
        if r.crashed or (m != k and (r.rc == 0 or r.out not in (b"", head))):
            raise Violation("%r: %d keys, %d parts: %s" % (a, k, m, r.brief()))
        if m == k and (r.rc != 0 or r.out != head + b"\t".join([b"a"] * (k - 1) + [last.encode()]) + b"\n"):
            raise Violation("%r on %r: %s" % (a, rows, r.brief()))
        return (k, m == k, last)
    if case[0] == "files":
        _, fn, ctx, hd, i1, i2, pi = case[:7]
        keys = K((0, "plain", 0))
        pat = P[pi]
        head = HDR + b"\n" if hd else b""
        srv.run(["version"])
        import os
        os.makedirs(srv.wd + "/d/e", exist_ok=True)
        names = ["d/e/A", "B"] if len(case) < 8 else list(case[7])
        for nm in names:
            os.makedirs(os.path.dirname(srv.wd + "/" + nm), exist_ok=True)
        fs = []
        for nm, idx in zip(names, (i1, i2)):
            ls = [V[i] for i in idx]
            srv.write_file(nm, head + b"".join(x + b"\n" for x in ls))
            fs.append(ls)
        args = ["binsearch", "-H", fn] + (["-C", ctx] if ctx else []) + ["--", pat] + names
        r = srv.run(args, pl=pl)
        if not hd and (not i1 or not i2):
            # an empty file: nothing to report for it
            if r.crashed:
                raise Violation("crash: %r %s" % (args, r.brief()))
        col, _, parts = (":" + fn if fn.isdigit() else fn).partition(":")
        parts = int(parts or 0)
        want = b""
        if hd:
            want += b" CDX\t" + col.encode() + HDR[4:] + b"\n"
        for nm, ls in zip(names, fs):
            v = nm.split("/")
            shown = "/".join(v[-parts:]) if parts else nm
            for x in window(keys, ls, [pat], CTX[ctx]):
                want += shown.encode() + b"\t" + x + b"\n"
        if r.rc != 0 or r.out != want:
            raise Violation("%r on %r: expected %r got %s" % (args, fs, want, r.brief()))
        return want
    if case[0] == "multi":
        _, spec, ctxn, hd, fs, pi = case
        args, ks, vals, pats = SPECS[spec]
        keys = keyset(ks)
        srt = ref.stable_sort(keys, vals)
        pat, names, data = pats[pi], [], {}
        parts = [pat] if len(keys) == 1 else pat.split(b";" if "-s" in args else b",")
        want = HDR + b"\n" if hd and any(f is not None for f in fs) else b""
        for i, f in enumerate(fs):
            names.append("f%d" % i)
            ls = [srt[x] for x in f or ()]
            data[names[-1]] = b"" if f is None else (HDR + b"\n" if hd else b"") + b"".join(x + b"\n" for x in ls)
            if f is not None:
                want += b"".join(x + b"\n" for x in window(keys, ls, parts, CTX[ctxn]))
        a = ["binsearch"] + list(args) + (["-C", ctxn] if ctxn else []) + ["--", pat] + names
        r = srv.run(a, files=data, pl=pl)
        if r.rc != 0 or r.out != want:
            raise Violation("%r on %r: expected %r got %s" % (a, data, want, r.brief()))
        return want
    if case[0] == "big":
        _, n, dup, p, c = case
        line = lambda i: b"%06d\t%d\n" % (2 * (i // dup), i)
        data = b"".join(map(line, range(n)))
        # the lines whose key is p are those with i // dup == p / 2
        lo = min(n, max(0, (p + 1) // 2 * dup))
        hi = min(n, lo + dup) if p >= 0 and p % 2 == 0 else lo
        (bm, bn), (am, an) = context(c)
        b, a = (bm, am) if hi > lo else (bn, an)
        want = b"".join(map(line, range(max(0, lo - b), min(n, hi + a))))
        args = ["binsearch"] + (["-C", c] if c else []) + ["--", b"%06d" % p if p >= 0 else b" ", "A"]
        r = srv.run(args, files={"A": data}, pl=pl)
        if r.rc != 0 or r.out != want:
            raise Violation("%r on the %d lines 2*(i/%d)<tab>i: expected %d bytes %r.. got %s" % (args, n, dup, len(want), want[:60], r.brief()[:300]))
        return (len(want), want[:20])
    if case[0] == "ladder":
        _, n, dup, p = case
        lines = [b"%04d\t%d" % (2 * (i // dup), i) for i in range(n)]
        pat = b"%04d" % p if p >= 0 else b" "
        keys, args, ctx, head = K((0, "plain", 0)), [], CTX[""], b""
        data = b"".join(x + b"\n" for x in lines)
    elif case[0] == "long":
        _, n, pos, ln, dup, p, ctxn = case
        lines = [b"%02d\t%d" % (2 * (i // dup), i) + (b"x" * ln if i == pos else b"") for i in range(n)]
        pat = b"%02d" % p if p >= 0 else b" "
        keys, args, ctx, head = K((0, "plain", 0)), ["-C", ctxn] if ctxn else [], CTX[ctxn], b""
        data = b"".join(x + b"\n" for x in lines)
    else:
        _, spec, ctxn, hd, nonl, idx, pi = case
        args, ks, vals, pats = SPECS[spec]
        keys = keyset(ks)
        srt = ref.stable_sort(keys, vals)
        lines = [srt[i] for i in idx]
        pat = pats[pi]
        ctx = CTX[ctxn]
        args = list(args) + (["-C", ctxn] if ctxn else [])
        head = HDR + b"\n" if hd else b""
        data = head + b"".join(x + b"\n" for x in lines)
        if nonl and lines:
            data = data[:-1]
            if lines[-1] == b"":
                lines = lines[:-1]
    parts = [pat] if len(keys) == 1 else pat.split(b";" if "-s" in args else b",")
    want = head + b"".join(x + b"\n" for x in window(keys, lines, parts, ctx))
    a = ["binsearch"] + list(args) + ["--", pat, "A"]
    r = srv.run(a, files={"A": data}, pl=pl)
    if r.rc != 0 or r.out != want:
        raise Violation("%r on %r: expected %r got %s" % (a, data, want, r.brief()))
    return want
