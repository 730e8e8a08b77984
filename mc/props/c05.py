"""C05: sort --check accepts exactly the files that are in order."""
import itertools

from core import Violation
import ref
from props.c01 import SPECS as S1, TEXT, NUMS, NUMERIC, IPS
from props.c04 import SPECS as S4, HDR, LINES

RULE = "distinct (exit status, number of reports) results"
BOUNDS = {
    "quick": "every file of <=3 lines over 6-line alphabets, 24 key specs, -c/-C n, unique or not; 2 files; 2..4 files, some of them empty or only a header; headers with named keys; one to two defects at every place of files of 4..40 lines; files of up to 70,000 lines with up to 149 defects and up to 1000 reports, up to 40 files; lines that differ after up to 70,000 bytes; keys in any of up to 300 columns",
    "thorough": "files of <=4 lines",
}


def bad_pairs(keys, ls, uniq):
    n = 0
    for a, b in zip(ls, ls[1:]):
        c = ref.compare(keys, a, b)
        if c > 0 or (c == 0 and uniq):
            n += 1
    return n


def cases(tier):
    q = tier == "quick"
    d = 3 if q else 4
    for al, specs in ((TEXT[:6], ["", "wrev", "wlow", "wlen", "1", "1rev", "2", "2rev", "1low", "1len", "12", "21", "weq"]),
                      (NUMS[:7], ["1float", "1floatrev", "wfloat"]),
                      (NUMERIC[:7], ["1num", "1numrev", "wnum"]),
                      (IPS[:6], ["1ip", "1iprev"])):
        for n in range(0, d + 1):
            for ls in itertools.product(al, repeat=n):
                for s in specs:
                    for u in ((), ("-u",)):
                        yield ("one", s, ("-c",), u, (ls,), False)
    for n in range(0, d + 2):
        for ls in itertools.product(LINES, repeat=n):
            for s in ("@k", "@v", "@v+"):
                for u in ((), ("-u",)):
                    yield ("named", s, ("-c",), u, (ls,), True)
    # report counts
    for n in range(0, 6 if q else 7):
        for ls in itertools.product([b"a", b"b", b"c"], repeat=n):
            for lim in (1, 2, 3):
                yield ("count", "1", ("-C", str(lim)), (), (ls,), False)
    # one or two defects anywhere in longer files
    for n in list(range(4, 14)) + [20, 40] + ([] if q else [100, 300]):
        base = [b"%03d\tx" % (2 * i) for i in range(n)]
        for i in range(n - 1):
            for kind in (0, 1, 2):
                ls = list(base)
                if kind == 0:
                    ls[i], ls[i + 1] = ls[i + 1], ls[i]
                elif kind == 1:
                    ls[i + 1] = ls[i][:3] + b"\ty"
                else:
                    ls[i], ls[-1] = base[-1], base[i]
                for spec in ("1", "", "1rev"):
                    l2 = tuple(ls[::-1]) if spec == "1rev" else tuple(ls)
                    for u in ((), ("-u",)):
                        for chk in (("-c",), ("-C", "2"), ("-C", "50")):
                            yield ("pos", spec, chk, u, (l2,), False)
    for a in itertools.product([b"a", b"b", b"c"], repeat=3):
        for b in itertools.product([b"a", b"b", b"c"], repeat=3):
            for lim in (1, 2, 3, 4):
                yield ("two", "1", ("-C", str(lim)), (), (a, b), False)
            yield ("two", "1", ("-c",), ("-u",), (a, b), False)
    # several files, some of them with no lines at all, or with a header only
    for n in (2, 3, 4):
        for fs in itertools.product(((), (b"a\tx",), (b"a\tx", b"b\tx"), (b"b\tx", b"a\tx")), repeat=n):
            for hdr in (False, True):
                if n < 4 or () in fs:
                    for chk in (("-c",), ("-C", "2")):
                        yield ("empty", "@k" if hdr else "1", chk, (), fs, hdr)


    # long files: defects at chosen places, many reports
    for n in (255, 1000, 9999, 70000) if q else (255, 256, 1000, 9999, 10001, 65537, 70000, 150000):
        for places in ((), (1,), (n - 1,), (n // 2,), (254, n - 1), (1, 2, 3, n - 2, n - 1), tuple(range(3, min(n, 300), 2)), (n // 2, n // 2 + 1), (min(n - 1, 65536),)):
            for kind in (0, 1):
                for u in ((), ("-u",)):
                    for chk in (("-c",), ("-C", "3"), ("-C", "255"), ("-C", "1000")):
                        if n < 1000 or chk[-1] in ("-c", "1000") or len(places) > 2:
                            yield ("gen", "1", chk, u, (("runs", n, places, kind),), False)
    for lens in ((3, 70000), (300, 5, 300), (1, 1, 1, 1, 9), (2,) * 40):
        for places in ((), (1,), (2, 4, 8), (299,)):
            for chk in (("-c",), ("-C", "4"), ("-C", "20")):
                for hdr in (False, True):
                    yield ("gen", "1", chk, (), tuple(("runs", n, places, 0) for n in lens), hdr)
    # lines that differ late, long keys, key columns far to the right, no final newline
    for z in (7, 8, 9, 15, 16, 17, 100, 255, 256, 257, 4096, 8191, 8192, 8193, 16384, 65536, 70000):
        for a, b in itertools.product((b"", b"a", b"b", b"\tz", b"a\tz", b"\0", b"\xff"), repeat=2):
            for spec in ("1", "", "1rev", "wlow", "1len", "2"):
                if z < 300 or spec in ("1", ""):
                    for u in ((), ("-u",)):
                        yield ("gen", spec, ("-c",), u, (("late", z, a, b),), False)
    for n in (2, 9, 10, 11, 17, 40, 300):
        for col in sorted({1, 2, n // 2 + 1, n - 1, n}):
            for byname in (0, 1):
                for diff in (None, 0, 1):
                    for u in ((), ("-u",)):
                        yield ("wide", n, col, byname, diff, u)


def build(x):
    if x[0] == "late":
        _, z, a, b = x
        return (b"a", b"x" * z + a, b"x" * z + b)
    _, n, places, kind = x
    ls = [b"%06d\tx%d" % (2 * i, i) for i in range(n)]
    for i in places:
        if i < n:
            ls[i] = b"%06d\ty" % (2 * i - 3) if kind == 0 else ls[i - 1][:6] + b"\ty"
    return tuple(ls)


def run(srv, case):
    if case[0] == "wide":
        _, n, col, byname, diff, u = case
        rows = [[b"%d" % ((7 * j) % 5) for j in range(n)] for _ in range(4)]
        for i in range(4):
            rows[i][(col + 3) % n] = b"%d" % (9 - i)        # other columns are out of order
            rows[i][col - 1] = b"v%d" % i
        if diff is not None:
            rows[2][col - 1] = rows[1 - diff][col - 1] if diff else rows[1][col - 1]
        ls = [b"\t".join(r) for r in rows]
        bad = {None: 0, 0: int(bool(u)), 1: 1}[diff]
        h = b" CDX" + b"".join(b"\tn%d" % (j + 1) for j in range(n)) + b"\n" if byname else b""
        args = ["sort", "-c", *u, "-k", ("n%d" if byname else "%d") % col, "-k", "%d,length" % col]
        r = srv.run(args, stdin=h + b"\n".join(ls) + (b"" if n % 2 else b"\n"))
        if r.crashed or r.rc != (1 if bad else 0) or r.out or r.err.count(b"Lines are ") != bad:
            raise Violation("%r on %r: %s, %d pairs out of order" % (args, ls if n < 20 else "%d columns" % n, r.brief(), bad))
        return (r.rc, bad)
    _, spec, chk, u, fs, hdr = case
    if case[0] == "gen":
        fs = tuple(build(x) for x in fs)
    args, keys = (S4 if spec.startswith("@") else S1)[spec]
    files = {"f%d" % i: ref.join_lines(([HDR] if hdr else []) + list(ls)) for i, ls in enumerate(fs)}
    r = srv.run(["sort", *chk, *u, *args, *sorted(files)], files=files)
    bad = sum(bad_pairs(keys, ls, bool(u)) for ls in fs)
    lim = int(chk[1]) if len(chk) > 1 else 1
    rep = r.err.count(b"Lines are ")
    if r.crashed or (r.rc == 0) != (bad == 0) or r.out != b"" or rep != min(bad, lim):
        raise Violation("sort %s %s %s on %r: %s, %d pairs out of order, %d reported" % (
            chk, u, args, case[4] if case[0] == "gen" else files, r.brief(), bad, rep))
    # each report shows the two adjacent lines, with their line numbers
    want, left = [], lim
    for i in range(len(fs)):
        for k, (a, b) in enumerate(zip(fs[i], fs[i][1:])):
            c = ref.compare(keys, a, b)
            if (c > 0 or (c == 0 and u)) and left:
                left -= 1
                want.append(b"%d : %s\n%d : %s\n" % (k + 1, a, k + 2, b))
    pos = 0
    for x in want:
        at = r.err.find(x, pos)
        if at < 0:
            raise Violation("sort %s %s %s on %r: report %r missing from %r" % (chk, u, args, case[4] if case[0] == "gen" else files, x[:300], r.err[:2000]))
        pos = at + len(x)
    return (r.rc, rep, tuple(want))
