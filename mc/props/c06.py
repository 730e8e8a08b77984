"""C06: uniq writes one line per run of equal lines, the requested one, with its count."""
import itertools

from core import Violation
import ref
from props.c01 import K, W

RULE = "distinct outputs"
BOUNDS = {
    "quick": "every file of <=4 lines over 4-5 line values x 10 keys x 11 choices of line x 11 count forms (bounded product), "
             "with and without header, final newline missing or not; pairs of runs of up to 257 lines; lines up to 70,000 bytes; runs of up to 140,000 lines, 3000 runs; values that differ late or in odd bytes, or end in any byte; up to 300 columns",
    "thorough": "files of <=6 lines, full product",
}
HDR = b" CDX\tk\tv"
KEYS = {
    "": ([], K((W, "plain", 0))),
    "w": (["-k", ""], K((W, "plain", 0))),
    "low": (["-k", ",lower"], K((W, "lower", 0))),
    "1": (["-k", "1"], K((0, "plain", 0))),
    "2": (["-k", "2"], K((1, "plain", 0))),
    "1low": (["-k", "1,lower"], K((0, "lower", 0))),
    "1len": (["-k", "1,len"], K((0, "length", 0))),
    "12": (["-k", "1", "-k", "2"], K((0, "plain", 0), (1, "plain", 0))),
    "1l2": (["-k", "1,lower", "-k", "2,len"], K((0, "lower", 0), (1, "length", 0))),
    "eq": (["-k", "1,equal"], K((0, "equal", 0))),
    "float": (["-k", "1,float"], K((0, "float", 0))),
    "num": (["-k", "1,num"], K((0, "numeric", 0))),
    "@k": (["-k", "k"], K((0, "plain", 0))),
    "@v": (["-k", "v,lower"], K((1, "lower", 0))),
}
WHICH = {
    "": ([], ("first", None)),
    "first": (["-w", "first"], ("first", None)),
    "last": (["-w", "last"], ("last", None)),
    "min": (["-w", "min"], ("min", K((W, "plain", 0)))),
    "max": (["-w", "max"], ("max", K((W, "plain", 0)))),
    "min2": (["-w", "min,2"], ("min", K((1, "plain", 0)))),
    "max2": (["-w", "max,2,rev"], ("max", K((1, "plain", 1)))),
    "LAST": (["-w", "LAST"], ("last", None)),
    "Min1": (["-w", "Min,1,rev"], ("min", K((0, "plain", 1)))),
    "maxf": (["-w", "max,2,float"], ("max", K((1, "float", 0)))),
    "maxlen": (["--which", "max,1,len"], ("max", K((0, "length", 0)))),
    "minf": (["-w", "min,2,float"], ("min", K((1, "float", 0)))),
}
COUNT = {
    "": ([], None),
    "c": (["-c", "n"], ("n", "begin")),
    "e": (["-c", "n,end"], ("n", "end")),
    "b": (["-c", "num,begin"], ("num", "begin")),
    "d": (["-c", ","], ("count", "begin")),
    "s": (["-c", "n,Start"], ("n", "begin")),
    "f": (["-c", ",FIRST"], ("count", "begin")),
    "l": (["-c", "n,last"], ("n", "end")),
    "t": (["--count", ",Stop"], ("count", "end")),
    "n": (["-c", "q,"], ("q", "begin")),
    "z": (["-c", ""], ("count", "begin")),
}
TEXT = [b"a\tx", b"a\ty", b"A\tx", b"bb\tx", b""]
NUM = [b"1\t3", b"1.0\t2", b"2\t10", b"-0\tz", b"0"]


def pick(keys, which, group):
    m, ck = which
    best = group[0]
    for x in group[1:]:
        if m == "last":
            best = x
        elif m == "min" and ref.compare(ck, x, best) < 0:
            best = x
        elif m == "max" and ref.compare(ck, x, best) > 0:
            best = x
    return best


def groups_of(keys, ls):
    out = []
    for x in ls:
        if out and ref.compare(keys, out[-1][-1], x) == 0:
            out[-1].append(x)
        else:
            out.append([x])
    return out


def cases(tier):
    q = tier == "quick"
    d = 3 if q else 5
    for al, keys in ((TEXT, [k for k in KEYS if k not in ("float", "num", "@k", "@v")]), (NUM, ["float", "num", "1"])):
        for n in range(0, d + 1):
            for ls in itertools.product(al, repeat=n):
                for k in keys:
                    for w in WHICH:
                        for c in (COUNT if n <= 2 else list(COUNT)[:5]):
                            if q and n == d and (len(w) + len(c) + len(k) + len(ls[0]) + len(ls[1])) % 3 and c:
                                continue
                            yield ("body", k, w, c, ls, False, True)
    al = TEXT[:4]
    for n in range(0, 4 if q else 5):
        for ls in itertools.product(al, repeat=n):
            for k in ("", "1", "@k", "@v"):
                for w in ("", "last", "min2", "maxlen"):
                    for c in ("", "c", "e", "d"):
                        if q and n == 3 and c == "d":
                            continue
                        yield ("head", k, w, c, ls, True, True)
                        if n and ls[-1]:
                            yield ("headnonl", k, w, c, ls, True, False)
    # runs of every length that matters to the count, in pairs
    sizes = [1, 2, 9, 10, 11, 32, 99, 100, 101, 255, 256, 257] + ([] if q else [999, 1000, 1001, 65535, 65536])
    for a in sizes:
        for b in sizes:
            for w in ("", "last", "min2", "max2"):
                for c in ("", "c", "e"):
                    yield ("runs", "1", w, c, tuple([b"a\t%d" % (i * 37 % 101) for i in range(a)] + [b"b\t%d" % (i * 41 % 103) for i in range(b)]), False, True)
    for sizes in ((65535,), (65536, 1), (3, 65537), (70000, 70000), (999, 1000, 1001), (1,) * 3000, (140000,)) if q else ((65535,), (65536, 1), (3, 65537), (70000, 70000), (999, 1000, 1001), (1,) * 70000, (300000,), (17,) * 9000):
        for w in ("", "last", "min2", "max2"):
            for c in ("", "c", "e"):
                for k in ("1", "1l2" if w else ""):
                    yield ("manyruns", k, w, c, sizes, False, True)
    # values that agree for a long time, odd bytes, many columns
    odd = [b"a" * 70 + x + y for x in (b"", b"B", b"b", b"\xff", b"\xc3\x89", b"\xc3\xa9", b"\0", b" ", b"\r") for y in (b"", b"\t1", b"\t2")]
    for m, (a, b) in enumerate(itertools.product(odd, repeat=2)):
        for k in KEYS:
            if k[:1] != "@":
                for w in ("", "last", "min2", "max2", "max", "maxlen")[m % 2 if q else 0::3 if q else 1]:
                    yield ("odd", k, w, "c" if w else "e", (a, b, b), False, True)
    for x in range(256):
        if x != 10:
            for v in (b"a" + bytes([x]), bytes([x])):
                for c in ("e", "c", ""):
                    for nl in (True, False):
                        yield ("lastbyte", "" if x & 1 else "w", "last", c, (v, b"b", v, v), False, nl)
    for n in (9, 10, 11, 40, 300):
        for key in {1, n // 2, n - 1, n}:
            for val in {1, n // 2, n}:
                if val != key:
                    for wh in ("first", "last", "min", "max"):
                        for hdr in (0, 1):
                            yield ("cols", n, key, val, wh, hdr)
    # long lines, alternating long and short
    for n in (8190, 8192, 16384, 70000):
        for w in ("", "last", "min2"):
            for c in ("", "e"):
                for m in itertools.product((0, 1), repeat=3):
                    yield ("long", "1", w, c, tuple((b"a" * n if x else b"a") + b"\t%d" % i for i, x in enumerate(m)), False, True)
    # longer runs: all 0/1 sequences
    for bits in itertools.product((0, 1), repeat=8 if q else 12):
        ls = tuple(b"%d\t%d" % (b, (i * 7) % 5) for i, b in enumerate(bits))
        for w in ("", "last", "min2", "max2"):
            yield ("bits", "1", w, "e", ls, False, True)


def run(srv, case):
    if case[0] == "cols":
        _, n, key, val, wh, hdr = case
        rows = []
        for i in range(24):
            r = [b"%d" % (i * (j + 2) % 7) for j in range(n)]
            r[key - 1] = b"k%d" % (i // 5)
            r[val - 1] = b"%d" % (i * 11 % 9)
            rows.append(r)
        out, kk = [], None
        for r in rows:
            v = int(r[val - 1])
            if r[key - 1] != kk:
                out.append(r)
                kk = r[key - 1]
            elif wh == "last" or (wh == "min" and v < int(out[-1][val - 1])) or (wh == "max" and v > int(out[-1][val - 1])):
                out[-1] = r
        h = b" CDX" + b"".join(b"\tn%d" % (j + 1) for j in range(n)) + b"\n" if hdr else b""
        args = ["uniq", "-k", ("n%d" if hdr else "%d") % key, "-w", wh + ((",n%d,float" if hdr else ",%d,float") % val if wh[0] == "m" else "")]
        want = h + b"".join(b"\t".join(r) + b"\n" for r in out)
        r = srv.run(args, stdin=h + b"".join(b"\t".join(r) + b"\n" for r in rows))
        if r.rc != 0 or r.out != want:
            raise Violation("%r on 24 lines of %d columns: %s, expected %r" % (args, n, r.brief(), want[:500]))
        return (n, key, val, wh)
    _, k, w, c, ls, hdr, nl = case
    if case[0] == "manyruns":
        ls = [b"g%d\t%d" % (g, i * 37 % 101) for g, z in enumerate(ls) for i in range(z)]
    ka, keys = KEYS[k]
    wa, which = WHICH[w]
    ca, cnt = COUNT[c]
    data = ref.join_lines(([HDR] if hdr else []) + list(ls))
    if not nl:
        data = data[:-1]
    r = srv.run(["uniq", *ka, *wa, *ca], stdin=data)
    out = []
    if hdr:
        h = HDR
        if cnt:
            h = b" CDX\t" + cnt[0].encode() + HDR[4:] if cnt[1] == "begin" else HDR + b"\t" + cnt[0].encode()
        out.append(h)
    for g in groups_of(keys, ls):
        x = pick(keys, which, g)
        if cnt:
            n = b"%d" % len(g)
            x = n + b"\t" + x if cnt[1] == "begin" else x + b"\t" + n
        out.append(x)
    want = ref.join_lines(out)
    if r.rc != 0 or r.out != want:
        raise Violation("uniq %s on %r: %s, expected %r" % ([*ka, *wa, *ca], data if len(data) < 5000 else case[4] if case[0] == "manyruns" else data[:500], r.brief(), want[:5000]))
    return hash(r.out) if len(r.out) > 10000 else r.out
