"""C19: sample selects exactly the lines asked for, or evenly spaced ones."""
import itertools
from core import Violation

BOUNDS = {
    "quick": "files of 0..9 lines x every --for by,from,to with parts 1..6 and every --range of one or two ranges over 0..10; every --sample 2..12 x every length 0..130 and some up to 140,000; steps, ranges and line numbers up to 70,000 and around 2^31, 2^32, 2^63 and 2^64; long lists of ranges; lines of every byte value and of up to 70,000 bytes; 1..3 files with headers, --sample of each of two files; two modes at once and malformed values are refused",
    "thorough": "as quick with --sample up to 40 and every length up to 600",
}
RULE = "distinct outputs"
ASSUMPTIONS = ["'more or less evenly spaced' is decided as: no gap is more than 2.1 times the ideal gap"]


def run(srv, case):
    space = case[0]
    if space == "even":
        _, N, ns = case
        prev = ()
        for n in ns:
            ls = [b"line %d %s" % (i, b"y" * (i * 7 % 13)) for i in range(n)]
            srv.extra += 1
            r = srv.run(["sample", "-s", str(N)], stdin=b"".join(x + b"\n" for x in ls))
            got = r.out.split(b"\n")
            if r.rc != 0 or got.pop() != b"":
                raise Violation("sample -s %d of %d lines: %s" % (N, n, r.brief()))
            try:
                pos = [int(x.split(b" ")[1]) for x in got]
                ok = [ls[i] for i in pos] == got
            except (ValueError, IndexError):
                ok = False
            if not ok:
                raise Violation("sample -s %d of %d lines writes something else: %s" % (N, n, r.brief()))
            if len(pos) != min(n, N) or pos != sorted(set(pos)):
                raise Violation("sample -s %d of %d lines writes lines %r" % (N, n, pos))
            if n and (pos[0] != 0 or (N > 1 and pos[-1] != n - 1)):
                raise Violation("sample -s %d of %d lines leaves out the first or last: %r" % (N, n, pos))
            if len(pos) > 1:
                ideal = (n - 1) / (len(pos) - 1)
                if max(b - a for a, b in zip(pos, pos[1:])) > 2.1 * ideal:
                    raise Violation("sample -s %d of %d lines is not even: %r" % (N, n, pos))
            prev = tuple(pos)
        return (N, prev)
    if space == "refuse":
        r = srv.run(["sample", *case[1]], stdin=b"1\n2\n3\n")
        if r.rc == 0 or r.crashed or r.out or not r.err:
            raise Violation("sample %r must be refused: %s" % (case[1], r.brief()))
        return (r.rc,)
    if space == "each":
        # every file is sampled by itself
        _, ns, N, h = case
        fn = {"f%d" % i: (b" CDX\tx\n" if h else b"") + b"".join(b"%d %d\n" % (i, k) for k in range(n)) for i, n in enumerate(ns)}
        r = srv.run(["sample", "-s", str(N)] + sorted(fn), files=fn)
        out = b" CDX\tx\n" if h else b""
        for i, n in enumerate(ns):
            q = srv.run(["sample", "-s", str(N), "f%d" % i])
            srv.extra += 1
            out += q.out[len(b" CDX\tx\n") if h else 0:]
        if r.rc != 0 or r.out != out:
            raise Violation("sample -s %d of files of %r lines: expected those of each file, %r, got %s" % (N, ns, out, r.brief()))
        return (r.out,)
    if space == "big":
        _, n, opt, val, kind = case
        ls = {"n": lambda: [b"%d" % i for i in range(1, n + 1)], "odd": lambda: odd(n), "long": lambda: [b"x%d" % i * (1 + i * i * 37 % 9000) for i in range(1, n + 1)]}[kind]()
        r = srv.run(["sample", opt, val], stdin=b"".join(x + b"\n" for x in ls))
        if opt == "-f":
            v = [int(x) for x in val.split(",")] + [1, 1, 10 ** 9][len(val.split(",")):]
            out = ls[v[1] - 1:v[2]:v[0]]
        elif opt == "-r":
            want = set()
            for x in val.split(","):
                a, _, b = x.partition("-")
                want |= set(range(int(a), min(n, int(b or a)) + 1))
            out = [l for k, l in enumerate(ls, 1) if k in want]
        else:
            out = ls
        out = b"".join(x + b"\n" for x in out)
        if r.rc != 0 or r.out != out:
            raise Violation("sample %s %s of %d lines (%s): expected %r got %s" % (opt, val[:200], n, kind, out[:300], r.brief()))
        return (len(out), out[:60])
    _, files, opt, val = case
    out, fn, head = b"", {}, None
    for i, (h, n, nl) in enumerate(files):
        ls = [b"f%d line %d" % (i, k) if k != 3 else b"" for k in range(1, n + 1)]
        hd = b" CDX\tx\n" if h else b""
        fn["f%d" % i] = hd + b"\n".join(ls) + (b"\n" if nl and ls else b"")
        if head is None and (h or ls):
            head = h
            out += hd
        if opt == "-f":
            v = [int(x) for x in val.split(",")] + [1, 1, 10 ** 9][len(val.split(",")):]
            want = set(range(v[1], min(v[2], n) + 1, v[0]))
        else:
            want = set()
            for x in val.split(","):
                a, _, b = x.partition("-")
                want |= set(range(int(a), int(b or a) + 1))
        out += b"".join(l + b"\n" for k, l in enumerate(ls, 1) if k in want)
    r = srv.run(["sample", opt, val] + sorted(fn), files=fn)
    if r.rc != 0 or r.out != out:
        raise Violation("sample %s %s of %r: expected %r got %s" % (opt, val, fn, out, r.brief()))
    return (r.out,)


def odd(n):
    """lines of every kind of byte"""
    v = [bytes([x]) for x in range(256) if x != 10] + [b"a\r", b"\r", b"", b" CDX\ta", b"\xff\xfe", "\u00e9\u20ac".encode(), b"a\tb", b'"q', b"\\n"]
    return [v[(i * 7 + 13) % len(v)] for i in range(n)]


def cases(tier):
    th = tier == "thorough"
    one = [((h, n, nl),) for h in (True, False) for n in range(0, 10) for nl in (True, False) if (n or nl) and (nl or n in (1, 2, 5, 9))]
    fors = ["%d" % a for a in range(1, 7)] + ["%d,%d" % x for x in itertools.product(range(1, 7), repeat=2)] + ["%d,%d,%d" % x for x in itertools.product(range(1, 5), (1, 2, 3, 5), (1, 2, 4, 6, 9))]
    rng = ["%d" % a for a in range(0, 11)] + ["%d-%d" % (a, b) for a in range(0, 8) for b in range(a, 11)]
    rng += ["%s,%s" % x for x in itertools.product(["1", "3", "9", "2-4", "5-7", "1-9", "0-1"], repeat=2)] + ["4-2", "9,1,5", "2-3,7,4-5,1"]
    for f in one:
        for v in fors:
            yield ("for", f, "-f", v)
        for v in rng:
            yield ("range", f, "-r", v)
    few = [(True, 0, True), (True, 3, True), (True, 5, False), (False, 1, True), (False, 4, False), (False, 0, True)]
    for n in (2, 3):
        for fs in itertools.product(few, repeat=n):
            if len({f[0] for f in fs if f[0] or f[1]}) > 1:
                continue
            for o, v in (("-f", "2"), ("-f", "1,2,3"), ("-f", "3,1"), ("-r", "1,3"), ("-r", "2-4"), ("-r", "4")):
                yield ("several", fs, o, v)
    two = [("-f", "2"), ("-r", "1-2"), ("-s", "3"), ("--for", "1,2"), ("--range", "3"), ("--sample", "10")]
    for a in two:
        for b in two:
            yield ("refuse", a + b)
    for a in ("--for", "--range", "--sample"):
        for v in ("", "x", "1x", "-1", "1.5", "1 ", "1-", "1-x", "1,x", ",1", "1,,2", "0x1"):
            if a == "--range" and v in ("", ",1", "1,,2", "-1", "1-"):
                continue
            if (a, v) != ("--sample", ""):
                yield ("refuse", (a + "=" + v,))
    for v in ("0", "0,1", "1,0", "1,1,0", "1,2,3,4", "1,1,1,"):
        yield ("refuse", ("-f", v))
    for ns in itertools.product((0, 1, 3, 7, 20), repeat=2):
        for N in (2, 3, 5, 8):
            for h in (True, False):
                yield ("each", ns, N, h)
    top = 600 if th else 130
    for N in range(2, 41 if th else 13):
        for k in range(0, top, 10):
            yield ("even", N, tuple(range(k, k + 10)))
    for N in (2, 3, 7, 10, 50, 100):
        yield ("even", N, (1000, 1023, 1024, 1025, 4999, 20000))
        yield ("even", N, (32767, 65536, 70001, 140000))
    for N in (200, 255, 256, 257, 1000, 1023, 1025):
        yield ("even", N, (N - 1, N, N + 1, 2 * N - 3, 2 * N - 2, 2 * N - 1, 2 * N, 4 * N, 9999))
    for b in (2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64):
        for d in (-2, -1, 0, 1, 2, 3):
            if b + d < 2 ** 64:
                for v in ("%d" % (b + d), "%d,1" % (b + d), "%d,3" % (b + d), "1,2,%d" % (b + d), "1,%d" % (b + d), "%d,2,%d" % (b + d, b + d), "2,%d,%d" % (b + d - 1, b + d)):
                    yield ("big", 9, "-f", v, "n")
                for v in ("%d" % (b + d), "3-%d" % (b + d), "%d,2" % (b + d), "%d-%d" % (b + d - 2, b + d), "9,1-2,7-%d,4" % (b + d)):
                    yield ("big", 9, "-r", v, "n")
                yield ("big", 9, "-s", "%d" % (b + d), "n")
    for n in (1000, 70000):
        for by in (1, 2, 9, 10, 255, 256, 257, 300, 999, 1000, 1001, 4096, 65535, 65536, 69999, 70000):
            for fr in ("", ",1", ",2", ",255", ",257", ",1000", ",65537"):
                for to in ("", ",999", ",1000", ",1001", ",65536") if fr else ("",):
                    yield ("big", n, "-f", "%d%s%s" % (by, fr, to), "n")
        for a in (1, 9, 10, 255, 256, 257, 998, 999, 1000, 65534, 65535, 65536, 65537, 69999, 70000):
            for b in ("", "+0", "+1", "+255", "+9999999"):
                yield ("big", n, "-r", "%d%s" % (a, b and "-%d" % (a + int(b))), "n")
            yield ("big", n, "-r", "%d,3,%d-%d" % (a, a - 1, a + 2), "n")
        for k in (8, 9, 10, 16, 17, 100, 300):
            yield ("big", n, "-r", ",".join("%d" % (i * 3 + 1) for i in range(k)), "n")
            yield ("big", n, "-r", ",".join("%d-%d" % (i * 3 + 1, i * 3 + 2) for i in range(k))[::1], "n")
            yield ("big", n, "-r", ",".join("%d" % (i * 3 + 1) for i in reversed(range(k))), "n")
    for kind, n in (("odd", 600), ("long", 40)):
        for k in range(1, n + 1, 1 if th else 3):
            yield ("big", n, "-r", "%d-%d" % (k, k + 2), kind)
        for v in ("1", "2", "3,2", "7,5,400"):
            yield ("big", n, "-f", v, kind)
        yield ("big", n, "-s", "%d" % n, kind)
        yield ("big", n, "-s", "%d" % (n + 5), kind)
