"""C08: join of two sorted files pairs every line of the first with the line of the second that has its key."""
import itertools

from core import Violation
import ref
from props.c01 import K

RULE = "distinct contents of the joined and unmatched outputs"
BOUNDS = {
    "quick": "every pair (sorted file of <=4 lines over 5 keys, sorted file of distinct keys over 5 keys), with and without "
             "header, 9 key specifications, 6 output column lists, 4 choices of unmatched outputs, "
             "final newline missing or not; ladders up to 40 x 40 lines, some up to 20,000; tables of 1..4 columns with the keys anywhere, by number, name or from the end, one or two keys (up to 300 columns), short lines, 9 output column lists",
    "thorough": "first file up to 6 lines over 6 keys, all option pairs; ladders up to 150 lines",
}
# name: (args, keys on file 1, keys on file 2)
KS = {
    "": ([], K((0, "plain", 0)), K((0, "plain", 0))),
    "1": (["-k", "1"], K((0, "plain", 0)), K((0, "plain", 0))),
    "1.2": (["-k", "1.2"], K((0, "plain", 0)), K((1, "plain", 0))),
    "2.1": (["-k", "2.1"], K((1, "plain", 0)), K((0, "plain", 0))),
    "rev": (["-k", "1,rev"], K((0, "plain", 1)), K((0, "plain", 1))),
    "low": (["-k", "1,lower"], K((0, "lower", 0)), K((0, "lower", 0))),
    "float": (["-k", "1,float"], K((0, "float", 0)), K((0, "float", 0))),
    "12": (["-k", "1", "-k", "2"], K((0, "plain", 0), (1, "plain", 0)), K((0, "plain", 0), (1, "plain", 0))),
    "k": (["-k", "k"], K((0, "plain", 0)), K((0, "plain", 0))),
}
OUT = {
    "": ([], None),
    "1.1,2.2": (["-o", "1.1,2.2"], [(0, 0), (1, 1)]),
    "2.2,1.2,1.1": (["-o", "2.2,1.2,1.1"], [(1, 1), (0, 1), (0, 0)]),
    "1.1-2,2.2": (["-o", "1.1-2,2.2"], [(0, 0), (0, 1), (1, 1)]),
    "1.2": (["-o", "1.2"], [(0, 1)]),
    "1.1,2,2.1": (["-o", "1.1,2,2.1"], [(0, 0), (0, 1), (1, 0)]),
}
ALSO = {"": (), "1": (1,), "2": (2,), "12": (1, 2)}
H1, H2 = b" CDX\tk\tx", b" CDX\tk\ty"
KEYS = [b"", b"a", b"aa", b"b", b"c", b"d"]
FKEYS = [b"-1", b"0", b"2", b"2.5", b"10"]
LKEYS = [b"a", b"B", b"b", b"C", b"c"]


def keyval(i, spec):
    return (FKEYS if spec == "float" else KEYS)[i]


def cases(tier):
    th = tier == "thorough"
    nk, n1 = (6, 6) if th else (5, 4)
    # all sorted pairs, default key
    for hd in (0, 1):
        for n in range(n1 + 1):
            for a in itertools.combinations_with_replacement(range(nk), n):
                for m in range(nk + 1):
                    for b in itertools.combinations(range(nk), m):
                        yield ("pairs", "", "", "12", hd, 0, a, b)
    # option product on smaller files
    for spec in KS:
        for out in OUT:
            for also in ALSO:
                if not th and spec and out and also not in ("", "12"):
                    continue
                for hd in (0, 1):
                    if spec == "k" and not hd:
                        continue
                    for nonl in (0, 1):
                        for a in ((), (1,), (1, 1, 3), (0, 2, 2), (1, 2, 3, 3)):
                            for b in ((), (1,), (1, 3), (0, 2, 3), (2,)):
                                yield ("opts", spec, out, also, hd, nonl, a, b)
    # ladders: every size, several interleaving patterns
    mx = 150 if th else 40
    for n in range(1, mx + 1, 1):
        for pat in range(6):
            yield ("ladder", n, pat, n % 2)
    for n in (127, 128, 255, 256, 257, 1000, 3000, 20000):
        for pat in range(6):
            yield ("ladder", n, pat, n % 2)
    # the key columns anywhere in wider tables, by number or by name, one or two of them; short lines; output columns of all kinds
    heads = [(("k", "x", "y"), ("k", "p", "q")), (("x", "k", "y"), ("p", "q", "k")), (("j", "y", "k"), ("k", "j", "q")), (("a", "b", "c", "k"), ("k", "d")), (("k",), ("k", "v")), (("v", "k"), ("k",))]
    for n1, p1, n2, p2 in ((2, 1, 17, 16), (17, 17, 2, 2), (33, 32, 65, 64), (64, 64, 33, 33), (10, 10, 257, 256), (257, 257, 9, 1), (300, 256, 300, 300)):
        hs = (tuple("k" if i == p1 else "a%d" % i for i in range(1, n1 + 1)), tuple("k" if i == p2 else "b%d" % i for i in range(1, n2 + 1)))
        for ks, forms in ((("k",), (1,)), (((p1, p2),), (0, 10, 12, 13))):
            for form in forms:
                for o in ((), ("2.+1", "1.1"), ("2.1-", "1.+1"), ("1.%d,2.%d" % (n1, n2), "2.b%d" % min(i for i in range(1, n2 + 1) if i != p2)), ("2.~1",)):
                    for short in (0, 1, 2):
                        yield ("wide", hs, 1, ks, form, o, short, 1)
    for hs in heads:
        n1, n2 = len(hs[0]), len(hs[1])
        common = [x for x in hs[0] if x in hs[1]]
        keysets = [((c,), 1) for c in common] + [(tuple(common), 1), (tuple(common[::-1]), 1)] * (len(common) > 1)
        keysets += [(((i, j),), 0) for i in range(1, n1 + 1) for j in range(1, n2 + 1)]
        keysets += [(((1, 2), (2, 1)), 0), (((2, 2), (1, 1)), 0)] * (n1 > 1 and n2 > 1)
        outs = [(), ("1.1",), ("2.1,1.1",), ("2.+1", "1.1"), ("1.1-",), ("2.1-", "1.+1"), ("1.1,1.1,2.1",), ("2.~1",) if n2 > 1 else ("2.1",)]
        for hd in (1, 0):
            for ks, byname in keysets:
                if byname and not hd:
                    continue
                if not byname:
                    for form in range(9, 18):
                        if hd or 2 not in (form % 3, form // 3 % 3):
                            for o in outs[:3]:
                                for short in (0, 1, 2):
                                    yield ("wide", hs, hd, ks, form, o, short, 1)
                for o in outs + ([("1.%s" % hs[0][-1], "2.%s" % hs[1][-1])] if hd else []):
                    for short in (0, 1, 2):
                        for w in (0, 1):
                            yield ("wide", hs, hd, ks, byname, o, short, w)


def build(idx, spec, which, keys_of):
    """data lines of one file"""
    ls = []
    for p, i in enumerate(idx):
        k = keys_of(i, spec)
        if spec in ("1.2", "2.1"):
            col2 = (spec == "1.2") == (which == 1)
            ls.append((b"%c%d\t" % (b"vw"[which], p) + k) if col2 else (k + b"\t%c%d" % (b"vw"[which], p)))
        elif spec == "12":
            ls.append(b"g\t" + k)
        elif spec == "low":
            ls.append((k if (p + which) % 2 else k.upper()) + b"\t%c%d" % (b"vw"[which], p))
        else:
            ls.append(k + b"\t%c%d" % (b"vw"[which], p))
    return ls


def wide(srv, case):
    _, hs, hd, ks, byname, outs, short, w = case
    kc = [(hs[0].index(k), hs[1].index(k)) if byname == 1 else (k[0] - 1, k[1] - 1) for k in ks]
    files = []
    for f in (0, 1):
        n, rows, seen = len(hs[f]), [], set()
        for i in range(9 if w else 4):
            row = [b"%c%d%d" % (b"rs"[f], i, c) for c in range(n)]
            for m, p in enumerate(kc):
                row[p[f]] = b"%d" % ((i * (2 if f else 1) + w) % 5 if m == 0 else i % 2)
            kv = tuple(row[p[f]] for p in kc)
            if f and kv in seen:
                continue
            seen.add(kv)
            last = max(p[f] for p in kc)
            if short == f + 1 and i % 2:
                row = row[:max(last + 1, 1)]
            rows.append(row)
        rows.sort(key=lambda r: tuple(r[p[f]] for p in kc))
        if len(rows[0]) < n:
            rows[0] += [b"full"] * (n - len(rows[0]))
        files.append(rows)
    args = []
    for k, p in zip(ks, kc):
        if byname < 2:
            args += ["-k", k if byname else "%d.%d" % k]
            continue
        # counted from the end, or each file in its own way; one way for both if they agree
        a, b = ([str(p[f] + 1), "+%d" % (len(hs[f]) - p[f]), hs[f][p[f]]][(byname // 3 ** f) % 3] for f in (0, 1))
        args += ["-k", a if a == b else a + "." + b]
    for o in outs:
        args += ["-o", o]
    text = [((b" CDX\t" + "\t".join(hs[f]).encode() + b"\n") if hd else b"") + b"".join(b"\t".join(r) + b"\n" for r in files[f]) for f in (0, 1)]
    r = srv.run(["join"] + args + ["-a", "1,u1", "-a", "2,u2", "A", "B"], files={"A": text[0], "B": text[1]})
    cols = []
    if not outs:
        used = [p[1] for p in kc]
        cols = [(0, c) for c in range(len(hs[0]))] + [(1, c) for c in range(len(hs[1])) if c not in used]
    for o in outs:
        for part in o.split(","):
            f, c = part.split(".", 1)
            f, n = int(f) - 1, len(hs[int(f) - 1])
            if c == "~1":
                cols += [(f, i) for i in range(1, n)]
            elif c == "1-":
                cols += [(f, i) for i in range(n)]
            elif c[0] == "+":
                cols.append((f, n - int(c[1:])))
            elif c.isdigit():
                cols.append((f, int(c) - 1))
            else:
                cols.append((f, hs[f].index(c)))
    get = lambda row, c: row[c] if c < len(row) else b""
    sec = {tuple(get(row, p[1]) for p in kc): row for row in files[1]}
    exp, u1, hit = [], [], set()
    for row in files[0]:
        k = tuple(get(row, p[0]) for p in kc)
        if k in sec:
            hit.add(k)
            exp.append(b"\t".join(get((row, sec[k])[f], c) for f, c in cols))
        else:
            u1.append(b"\t".join(row))
    u2 = [b"\t".join(row) for row in files[1] if tuple(get(row, p[1]) for p in kc) not in hit]
    head = b" CDX" + b"".join(b"\t" + hs[f][c].encode() for f, c in cols) + b"\n" if hd else b""
    want = head + b"".join(x + b"\n" for x in exp)
    us = [(text[f].split(b"\n")[0] + b"\n" if hd else b"") + b"".join(x + b"\n" for x in (u1, u2)[f]) for f in (0, 1)]
    got = [srv.read_file("u1"), srv.read_file("u2")]
    if r.rc != 0 or r.out != want or got != us:
        raise Violation("join %r of %r and %r: expected %r and unmatched %r, got %s and %r" % (args, text[0], text[1], want, us, r.brief(), got))
    return (want, tuple(us))


def run(srv, case):
    if case[0] == "wide":
        return wide(srv, case)
    if case[0] == "ladder":
        _, n, pat, hd = case
        spec, out, also, nonl = "", "", "12", 0
        if pat == 0:
            a, b = [i for i in range(n)], [i for i in range(n) if i % 2]
        elif pat == 1:
            a, b = [i for i in range(n) for _ in range(3)], [i for i in range(n) if i % 3 == 0]
        elif pat == 2:
            a, b = [i for i in range(n) if i % 3 == 1], list(range(n))
        elif pat == 3:
            a, b = list(range(n)), list(range(n, 2 * n))
        elif pat == 4:
            a, b = list(range(n, 2 * n)), list(range(n + 1))
        else:
            a, b = [n // 2] * n, list(range(n))
        def keys_of(i, _s):
            return b"k%05d" % i
    else:
        _, spec, out, also, hd, nonl, a, b = case
        a, b = list(a), list(b)
        keys_of = keyval
        if spec == "rev":
            a, b = a[::-1], b[::-1]
    l1, l2 = build(a, spec, 0, keys_of), build(b, spec, 1, keys_of)
    kargs, k1, k2 = KS[spec]
    oargs, cols = OUT[out]
    d1 = (H1 + b"\n" if hd else b"") + b"".join(x + b"\n" for x in l1)
    d2 = (H2 + b"\n" if hd else b"") + b"".join(x + b"\n" for x in l2)
    if nonl:
        if l1:
            d1 = d1[:-1]
        if l2:
            d2 = d2[:-1]
    aargs = []
    for f in ALSO[also]:
        aargs += ["-a", "%d,u%d" % (f, f)]
        srv.write_file("u%d" % f, b"stale contents\nof an old file\n" * 3)
    r = srv.run(["join"] + kargs + oargs + aargs + ["A", "B"], files={"A": d1, "B": d2})
    # reference

    def keyof(line, ks):
        return tuple(k.value(line) for k in ks)
    second = {keyof(x, k2): x for x in l2}
    nc1 = 2 if (hd or l1) else 0
    nc2 = 2 if (hd or l2) else 0
    if cols is None:
        used2 = [k.column for k in k2]
        cols = [(0, i) for i in range(nc1)] + [(1, i) for i in range(nc2) if i not in used2]
    exp = []
    un1, hit = [], set()
    for x in l1:
        k = keyof(x, k1)
        if k in second:
            hit.add(k)
            y = second[k]
            exp.append(b"\t".join(ref.col((x, y)[f], c) for f, c in cols))
        else:
            un1.append(x)
    un2 = [y for y in l2 if keyof(y, k2) not in hit]
    if (not l1 or not l2) and not hd:
        # column counts are unknown for an empty file: it may be refused, but must not invent output
        if r.crashed:
            raise Violation("crash on empty input: " + r.brief())
        if r.out:
            raise Violation("output from an empty file: " + r.brief())
        if r.rc != 0:
            return ("refused",)
    head = b""
    if hd:
        nm = (b"kx".decode(), "ky")
        head = b" CDX" + b"".join(b"\t" + (nm[f][c]).encode() for f, c in cols) + b"\n"
    want = head + b"".join(x + b"\n" for x in exp)
    if r.rc != 0:
        raise Violation("join %r failed: %s on %r %r" % (kargs + oargs, r.brief(), d1, d2))
    if r.out != want:
        raise Violation("join %r of %r and %r: expected %r got %r" % (kargs + oargs + aargs, d1, d2, want, r.out))
    res = [want]
    for f in ALSO[also]:
        got = srv.read_file("u%d" % f)
        w = ((H1, H2)[f - 1] + b"\n" if hd else b"") + b"".join(x + b"\n" for x in (un1, un2)[f - 1])
        if got != w:
            raise Violation("join %r of %r and %r: unmatched lines of file %d: expected %r got %r" % (
                kargs + oargs + aargs, d1, d2, f, w, got))
        res.append(w)
    return tuple(res)
