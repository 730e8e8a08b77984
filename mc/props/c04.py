"""C04: merging sorted files gives the stable sort of their concatenation."""
import itertools

from core import Violation
import ref
from props.c01 import K, W

RULE = "distinct (exit status, merged output) results"
BOUNDS = {
    "quick": "1-3 files, <=2 lines each over 4 line values (1-2 files: <=3 lines), 9 key specs, unique or not, both "
             "merge algorithms, header or none, final newline present or not; fan-in 1..17; up to 5 files of 3000 lines in all (70,000 for two), lines of up to 70,000 bytes",
    "thorough": "1-4 files, <=3 lines each, all flag combinations; fan-in 1..40",
}
HDR = b" CDX\tk\tv"
SPECS = {
    "": ([], K((W, "plain", 0))),
    "rev": (["-k", ",rev"], K((W, "plain", 1))),
    "1": (["-k", "1"], K((0, "plain", 0))),
    "2": (["-k", "2"], K((1, "plain", 0))),
    "1rev": (["-k", "1,rev"], K((0, "plain", 1))),
    "1low": (["-k", "1,lower"], K((0, "lower", 0))),
    "1num": (["-k", "1,num"], K((0, "numeric", 0))),
    "1f2": (["-k", "1,float", "-k", "2,rev"], K((0, "float", 0), (1, "plain", 1))),
    "len": (["-k", "1,len"], K((0, "length", 0))),
    "@k": (["-k", "k"], K((0, "plain", 0))),
    "@v": (["-k", "v,rev"], K((1, "plain", 1))),
    "@v+": (["-k", "v", "-k", "k,len"], K((1, "plain", 0), (0, "length", 0))),
}
LINES = [b"a\tx", b"b\tx", b"a\ty", b"B"]
NLINES = [b"10\tp", b"9\tq", b"9.0\tr", b"-1"]


def sorted_seqs(al, keys, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(al, repeat=n):
            if tuple(ref.stable_sort(keys, t)) == t:
                yield t


def cases(tier):
    q = tier == "quick"
    flags = [(), ("-u",), ("-A",), ("-A", "-u")]
    for s, (a, keys) in SPECS.items():
        al = NLINES if s in ("1num", "1f2") else LINES
        for hdr in ((True,) if s.startswith("@") else (False, True)):
            two = list(sorted_seqs(al, keys, 0, 2))
            three = list(sorted_seqs(al, keys, 0, 3 if q else 4))
            small = list(sorted_seqs(al[:3], keys, 0, 1 if q else 2))
            for f in three:
                for fl in flags:
                    yield ("one", s, fl, hdr, (f,), 0)
            for fs in itertools.product(two, repeat=2):
                for fl in flags:
                    yield ("two", s, fl, hdr, fs, 0)
            for fs in itertools.product(two if not q else small, repeat=3):
                for fl in flags:
                    yield ("three", s, fl, hdr, fs, 0)
            # missing final newline in every subset of two files
            for fs in itertools.product(small, repeat=2):
                for m in range(1, 4):
                    for fl in flags:
                        yield ("nonl", s, fl, hdr, fs, m)
    # larger fan-in: file i holds the values v with bit (v*i) % p set; ties everywhere
    for n in range(1, 18 if q else 41):
        for p in (2, 3, 5):
            fs = tuple(tuple(b"%d\tf%d" % (v, i) for v in range(1, 6) if (v * (i + 1)) % p) for i in range(n))
            for fl in flags:
                yield ("fan", "1", fl, False, fs, 0)
    # all interleavings: each of 6 values (8 thorough) goes to one of 3 files
    for own in itertools.product(range(3), repeat=6 if q else 8):
        fs = tuple(tuple(b"%d\t%d" % (v // 2, i) for v, o in enumerate(own) if o == i) for i in range(3))
        yield ("own", "1", (), False, fs, 0)
        yield ("own", "1", ("-A", "-u"), False, fs, 0)
    # long files, long lines, many columns
    for n in (50, 300, 1000, 3000, 70000):
        for k in (1, 2, 3, 5):
            if n > 3000 and k != 2:
                continue
            for mod in (1, 2, 7, n):
                fs = tuple(tuple(b"%06d\tf%d" % (v // mod, i) for v in range(n) if (v * 31 + v // 3) % k == i) for i in range(k))
                for fl in flags if n < 3000 else ((), ("-u",)):
                    yield ("large", "1", fl, n % 100 == 0, fs, 0)
    for z in (255, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 70000):
        for k in range(8):
            fs = ((b"a\tx", b"b\t" + b"y" * (z if k & 1 else 1), b"c"), (b"b" + b"z" * (z if k & 2 else 0), b"d\t" + b"q" * (z if k & 4 else 2)), (b"a\tx", b"d"))
            for fl in flags:
                for nonl in (0, 7):
                    yield ("longline", "1", fl, k > 3, fs, nonl)
                    yield ("longline", "", fl, k > 3, fs, nonl)


def run(srv, case):
    _, spec, flags, hdr, fs, nonl = case
    args, keys = SPECS[spec]
    files, nm = {}, []
    for i, ls in enumerate(fs):
        body = ([HDR] if hdr else []) + list(ls)
        data = ref.join_lines(body)
        if nonl & (1 << i) and data and ls and ls[-1]:
            data = data[:-1]
        files["f%d" % i] = data
        nm.append("f%d" % i)
    r = srv.run(["sort", "-m", *args, *flags, *nm], files=files)
    allv = [x for f in fs for x in f]
    want = ref.stable_sort(keys, allv)
    if "-u" in flags:
        want = ref.dedup(keys, want)
    out = ref.join_lines(([HDR] if hdr else []) + want)
    if r.rc != 0 or r.out != out:
        raise Violation("sort -m %s %s of %r: %s, expected %r" % (args, flags, files, r.brief(), out))
    return r.out
