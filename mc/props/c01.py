"""C01: sort writes every input line exactly once, in key order, ties in input order."""
import itertools

from core import Violation, strings, seqs
import ref

BOUNDS = {
    "quick": "31 key lists; every file of up to 3 lines over 8 text lines, up to 2 lines over 7..17 adversarial lines per comparison (long common prefixes, NUL bytes, high bytes, floats, numerics, IP addresses), x unique x both algorithms; last line without newline; all 720 permutations of 6 lines with ties; size ladder 16..100 lines x 63 tie patterns x 5 key lists, up to 5000 lines for 4 patterns x 9 key lists; 1..3 files with headers, up to 4 keys among up to 300 columns by name or number; lines of up to 70,000 bytes; files of 33,000 to 140,000 lines",
    "thorough": "as quick one line deeper, all permutations of 8 lines, ladder up to 5000 lines x 255 tie patterns, files of up to 530,000 lines",
}

# (spec, Key builder) ; column specs are 1-based in the command line
W = None


def K(*ks):
    return [ref.Key(c, m, r) for (c, m, r) in ks]


SPECS = {
    "": ([], K((W, "plain", 0))),
    "w": (["-k", ""], K((W, "plain", 0))),
    "wrev": (["-k", ",rev"], K((W, "plain", 1))),
    "wlow": (["-k", ",lower"], K((W, "lower", 0))),
    "wlen": (["-k", ",length"], K((W, "length", 0))),
    "wlenrev": (["-k", ",length.rev"], K((W, "length", 1))),
    "wfloat": (["-k", ",float"], K((W, "float", 0))),
    "wnum": (["-k", ",num"], K((W, "numeric", 0))),
    "wnumrev": (["-k", ",rev.num"], K((W, "numeric", 1))),
    "wip": (["-k", ",ip"], K((W, "ip", 0))),
    "weq": (["-k", ",equal"], K((W, "equal", 0))),
    "1": (["-k", "1"], K((0, "plain", 0))),
    "1rev": (["-k", "1,rev"], K((0, "plain", 1))),
    "2": (["-k", "2"], K((1, "plain", 0))),
    "2rev": (["-k", "2,plain.rev"], K((1, "plain", 1))),
    "1low": (["-k", "1,lower"], K((0, "lower", 0))),
    "2low": (["--key", "2,lower.rev"], K((1, "lower", 1))),
    "1len": (["-k", "1,len"], K((0, "length", 0))),
    "2len": (["-k", "2,length.rev"], K((1, "length", 1))),
    "1float": (["-k", "1,float"], K((0, "float", 0))),
    "1floatrev": (["-k", "1,float.rev"], K((0, "float", 1))),
    "1num": (["-k", "1,num"], K((0, "numeric", 0))),
    "1numrev": (["-k", "1,numeric.rev"], K((0, "numeric", 1))),
    "1ip": (["-k", "1,ip"], K((0, "ip", 0))),
    "1iprev": (["-k", "1,ip.rev"], K((0, "ip", 1))),
    "12": (["-k", "1", "-k", "2"], K((0, "plain", 0), (1, "plain", 0))),
    "21": (["-k", "2", "-k", "1,rev"], K((1, "plain", 0), (0, "plain", 1))),
    "1r2": (["-k", "1,rev", "-k", "2"], K((0, "plain", 1), (1, "plain", 0))),
    "1f2l": (["-k", "1,float.rev", "-k", "2,lower"], K((0, "float", 1), (1, "lower", 0))),
    "2n1": (["-k", "2,num", "-k", "1,len"], K((1, "numeric", 0), (0, "length", 0))),
    "len,w": (["-k", "1,len", "-k", ""], K((0, "length", 0), (W, "plain", 0))),
}

T2 = [b"a\tb", b"b\ta", b"a\ta", b"b"]
TEXT = [b"a", b"B", b"b\tx", b"", b"ab", b"A", b"a\tX", b"b\tw\tq"]
LONG = [b"abcdefgh", b"abcdefg", b"abcdefghi", b"abcdefghI", b"abcdefgh\0", b"abcdefg\0", b"Abcdefgh", b"abcdefgi\t1"]
NUL = [b"a", b"a\0", b"a\0\0", b"\0", b"", b"a\0b", b"\0a"]
NUMS = [b"0", b"-0", b"10", b"9", b"-5", b"-10", b"1.5", b"1.25", b"1", b"x", b"", b"+3", b"2e1"]
NUMERIC = [b"0", b"5", b"5.1", b"5.10", b"5.0", b"1,000", b"999", b"-5", b"-5.1", b"-0", b" 7", b"007",
           b"100000000000000000001", b"100000000000000000002", b".5", b"0.25", b"x"]
IPS = [b"1.2.3.4", b"1.2.3.10", b"1.2.3", b"10.2.3.4", b"9.2.3.4", b"", b"x", b"1.2.3.4.5", b"192.168.1.1", b"2"]
HI = [b"\xff", b"\x80", b"\x7f", b"z", b"\xc3\xa9", b"~"]

TEXTSPECS = ["", "w", "wrev", "wlow", "wlen", "wlenrev", "weq", "1", "1rev", "2", "2rev", "1low", "2low", "1len",
             "2len", "12", "21", "1r2", "len,w"]
FLSPECS = ["wfloat", "1float", "1floatrev", "1f2l"]
NUMSPECS = ["wnum", "wnumrev", "1num", "1numrev", "2n1"]
IPSPECS = ["wip", "1ip", "1iprev"]


def cases(tier):
    q = tier == "quick"
    variants = [(), ("-u",), ("-a",), ("-a", "-u")]
    # A: all files of up to n lines over small line sets, each key spec, unique or not, both algorithms
    groups = [
        ("text", TEXT, TEXTSPECS, 3 if q else 4),
        ("long", LONG, ["", "wrev", "wlow", "1", "1rev", "1low", "2low", "12"], 2 if q else 3),
        ("nul", NUL, ["", "1", "1rev", "1low", "1len", "wlow"], 2 if q else 3),
        ("hi", HI, ["", "wrev", "1", "1rev", "1low"], 2 if q else 3),
        ("float", NUMS, FLSPECS, 2 if q else 3),
        ("numeric", NUMERIC, NUMSPECS, 2 if q else 3),
        ("ip", IPS, IPSPECS, 2 if q else 3),
    ]
    for (name, al, specs, depth) in groups:
        for n in range(0, depth + 1):
            for ls in itertools.product(al, repeat=n):
                for s in specs:
                    for v in variants:
                        if v[:1] == ("-a",) and q and n == depth and name == "text":
                            continue
                        yield (name, s, v, ls, True)
    # B: no newline at the end of the file
    for n in range(1, 4):
        for ls in itertools.product([b"b", b"a", b"", b"a\tb"], repeat=n):
            if ls[-1] == b"":
                continue
            for s in ("", "1", "2rev"):
                for v in ((), ("-u",)):
                    yield ("nonl", s, v, ls, False)
    # C: every permutation of runs of lines, so that longer merges / insertion paths are reached
    n = 6 if q else 8
    for p in itertools.permutations(range(n)):
        ls = tuple(b"%d\t%d" % (x // 2, i) for i, x in enumerate(p))
        yield ("perm", "1", (), ls, True)
        yield ("perm", "1rev", ("-u",), ls, True)
    # D: size ladder: 0/1 sequences laid out in longer files (ties everywhere, stability visible)
    for size in ((16, 20, 21, 33, 50, 64, 100) if q else (16, 20, 21, 32, 33, 50, 64, 100, 128, 257, 1000, 5000)):
        for pat in range(1, 64 if q else 256):
            ls = tuple(b"%d\t%d" % ((pat >> (i % 8)) & 3, i) for i in range(size))
            for s, v in (("1", ()), ("1rev", ()), ("1", ("-u",)), ("1", ("-a",)), ("1f2l", ())):
                yield ("ladder", s, v, ls, True)
    for size in (257, 600, 1000, 2049, 5000) if q else (257, 600, 1000, 2049, 5000, 70000):
        for pat in (1, 27, 113, 228):
            ls = tuple(b"%d\t%d" % ((pat >> (i * 7 % 8)) & 3, i * 31 % 97) for i in range(size))
            for s in ("", "1", "2rev", "1float", "1num", "1low", "1len", "12", "2n1"):
                for v in variants:
                    if (s, v) in (("1", ()), ("2rev", ("-u",)), ("12", ("-a",))) or size < 2000:
                        yield ("large", s, v, ls, True)
    # E: several files with a header, keys by name and number in any of many columns, up to four keys
    for n in (2, 3, 12, 40, 300):
        nm = ["h%d" % (i + 1) for i in range(n)]
        for cols in {(n,), (1, n), (n, 1), (n - 1,), (max(1, n // 2), n, 1), (n, n - 1, 1, max(1, n // 3))}:
            for rv in range(1 << len(cols)):
                for byname in (0, 1):
                    for nf in (1, 2, 3):
                        for hdr in (0, 1):
                            if hdr or not byname:
                                yield ("cols", n, cols, rv, byname, nf, hdr, ())
                                if rv == 0:
                                    yield ("cols", n, cols, rv, byname, nf, hdr, ("-u",))
                                    yield ("cols", n, cols, rv, byname, nf, hdr, ("-a",))
    # G: more lines than the sizes at which a sort splits its work
    for size in (33000, 66000, 140000) if q else (33000, 66000, 140000, 270000, 530000):
        for mod in (5, 1021) if q else (2, 5, 1021, 65537):
            for v in ((), ("-a",), ("-a", "-u")):
                yield ("huge", size, mod, v)
    # F: a long value or line among short ones
    for z in (255, 256, 1023, 4096, 8191, 8192, 16383, 16384, 16385, 40000, 65535, 65536, 70000):
        for pre in (b"", b"b", b"a\t", b"c\tx"):
            for pos in range(3):
                ls = [b"b", b"a\tz"]
                ls.insert(pos, pre + b"x" * z)
                ls2 = ls + [pre + b"x" * (z - 1) + b"w", b"", pre + b"x" * z]
                for s in ("", "1", "1rev", "2low", "wlen", "2len"):
                    for v in ((), ("-u",)):
                        yield ("longline", s, v, tuple(ls2), True)


def run(srv, case):
    if case[0] == "cols":
        _, n, cols, rv, byname, nf, hdr, flags = case
        keys = K(*((c - 1, "plain", rv >> i & 1) for i, c in enumerate(cols)))
        args = []
        for i, c in enumerate(cols):
            args += ["-k", ("h%d" % c if byname else "%d" % c) + (",rev" if rv >> i & 1 else "")]
        h = b" CDX" + b"".join(b"\th%d" % (i + 1) for i in range(n)) + b"\n" if hdr else b""
        fn, al = {}, []
        for f in range(nf):
            ls = [b"\t".join(b"%d" % ((i * (j + 3) + f) * 5 % 7 % (2 + j % 3)) for j in range(n if i % 4 < 3 or not i else n - 1)) for i in range(7 + f)]
            al += ls
            fn["f%d" % f] = h + ref.join_lines(ls)
        r = srv.run(["sort", *args, *flags, *sorted(fn)], files=fn)
        want = ref.stable_sort(keys, al)
        if "-u" in flags:
            want = ref.dedup(keys, want)
        if r.rc != 0 or r.out != h + ref.join_lines(want):
            raise Violation("sort %s %s on %r: %s, expected %r" % (args, flags, fn, r.brief(), h + ref.join_lines(want)))
        return r.out
    if case[0] == "huge":
        _, size, mod, flags = case
        spec, nl = "1", True
        ls = [b"%d\t%d" % (i * 7919 % mod, i) for i in range(size)]
    else:
        _, spec, flags, ls, nl = case
    args, keys = SPECS[spec]
    data = ref.join_lines(ls) if nl else b"\n".join(ls)
    r = srv.run(["sort", *args, *flags], stdin=data)
    want = ref.stable_sort(keys, ls)
    if "-u" in flags:
        want = ref.dedup(keys, want)
    if r.rc != 0 or r.out != ref.join_lines(want):
        if case[0] == "huge":
            got = r.out.split(b"\n")
            at = next((i for i, w in enumerate(want) if i >= len(got) or got[i] != w), len(want))
            raise Violation("sort %s %s on the lines i*7919%%%d<tab>i of i < %d: rc=%r, line %d is %r, expected %r" % (args, flags, mod, size, r.rc, at, got[at:at + 1], want[at:at + 1]))
        raise Violation("sort %s %s on %r: %s, expected %r" % (args, flags, data, r.brief(), ref.join_lines(want)))
    return hash(r.out) if case[0] == "huge" else r.out
