"""C12: files with different headers are never mixed silently; a common header is written once."""
import itertools
import core
from core import Violation

BOUNDS = {
    "quick": "cat, cat -n, cut by number and name, cgrep, sample, sort, merge (both algorithms), binsearch on every list of one to three files over 4 headers (none, three different) x 4 bodies, and zero-byte files; every pair of 13 nearly equal headers (case, length, non-ASCII, 300 columns); every malformed header in every position; skipped headers for 11 command lines; library: the six header modes on every sequence of up to 3 first lines over 14",
    "thorough": "as quick with four files; library: up to 5 first lines",
}
RULE = "distinct (tool, headers, output) triples"
ASSUMPTIONS = ["zero-byte files have neither header nor lines and are ignored", "after a refusal, output is a prefix of what the files before the refused one give"]
HEADS = (None, (b"a", b"b"), (b"b", b"a"), (b"a", b"b", b"c"))
BODIES = ((), (b"m\t1",), (b"k\t2", b"m\t3"), (b"j\t5", b"m\t4", b"x\t6"))
EMPTY = "empty"
# headers that are nearly the same
LONGN = b"n" * 40
ODD = ((b"A", b"b"), (b"a", b"B"), (b"a", b"b1"), (b"ab", b"b"), (LONGN + b"a", b"b"), (LONGN + b"A", b"b"), ("é".encode(), b"b"), ("É".encode(), b"b"), (b"a",), (b"a", b"a_"),
       tuple(b"c%d" % i for i in range(300)), tuple(b"c%d" % i for i in range(299)) + (b"d299",))


def text(f):
    if f == EMPTY:
        return b""
    hd, body = f
    return (b" CDX\t" + b"\t".join(hd) + b"\n" if hd else b"") + b"".join(x + b"\n" for x in body)


def key(l):
    return l.split(b"\t")[0]


class Tool:
    def __init__(self, name, args, head, lines, whole=None, needs=None):
        self.name, self.args, self.head, self.lines, self.whole, self.needs = name, args, head, lines, whole, needs


def numbered(files):
    out, n = [], 0
    for _, body in files:
        for l in body:
            n += 1
            out.append(b"%d\t" % n + l)
    return out


def byname(hd, l):
    return l.split(b"\t")[hd.index(b"a")] if hd and hd.index(b"a") < l.count(b"\t") + 1 else b""


def num(x):
    return int(x) if x.isdigit() else 0


def allhead(hd):
    return hd


def cat(files):
    return [l for _, b in files for l in b]


def srt(files):
    return sorted(cat(files), key=key)


TOOLS = {t.name: t for t in (
    Tool("cat", ["cat"], allhead, cat),
    Tool("cat-n", ["cat", "-b"], lambda hd: hd and (b"number",) + hd, numbered),
    Tool("cut1", ["cut", "-f", "1"], lambda hd: hd and hd[:1], lambda fs: [key(l) for l in cat(fs)]),
    Tool("cut-", ["cut", "--fields=-"], None, None),
    Tool("cut-name", ["cut", "-f", "a"], lambda hd: hd and (b"a",), lambda fs: [byname(hd, l) for hd, b in fs for l in b], needs=b"a"),
    Tool("cut-expr", ["cut", "-e", "n:a*2+1"], lambda hd: hd and (b"n",), lambda fs: [b"%d" % (2 * num(byname(hd, l)) + 1) for hd, b in fs for l in b], needs=b"a"),
    Tool("cut-expr2", ["cut", "-e", "n:max([a])", "-f", "a"], lambda hd: hd and (b"n", b"a"), lambda fs: [b"%d\t" % num(byname(hd, l)) + byname(hd, l) for hd, b in fs for l in b], needs=b"a"),
    Tool("cut-comp", ["cut", "-c", "n:<^{a}>"], lambda hd: hd and (b"n",), lambda fs: [b"<" + byname(hd, l) + b">" for hd, b in fs for l in b], needs=b"a"),
    Tool("cut-group", ["cut", "-g", ";n:a"], lambda hd: hd and (b"n",), lambda fs: [byname(hd, l) for hd, b in fs for l in b], needs=b"a"),
    Tool("cut-trans", ["cut", "-f", "a+upper"], lambda hd: hd and (b"a",), lambda fs: [byname(hd, l).upper() for hd, b in fs for l in b], needs=b"a"),
    Tool("cgrep-expr", ["cgrep", "-p", ",expr,a*1>1"], allhead, lambda fs: [l for hd, b in fs for l in b if num(byname(hd, l)) > 1], needs=b"a"),
    Tool("cgrep", ["cgrep", "-p", "1,glob,*"], allhead, cat),
    Tool("cgrep-name", ["cgrep", "-p", "a,length,1"], allhead, lambda fs: [l for hd, b in fs for l in b if len(byname(hd, l)) == 1], needs=b"a"),
    Tool("sample-f", ["sample", "-f", "1,1,100"], allhead, cat),
    Tool("sample-s", ["sample", "-s", "20"], allhead, cat),
    Tool("sort", ["sort", "-k", "1"], allhead, srt),
    Tool("sort-name", ["sort", "-k", "a"], allhead, lambda fs: [l for _, l in sorted(((hd, l) for hd, b in fs for l in b), key=lambda x: byname(*x))], needs=b"a"),
    Tool("sort-alt", ["sort", "-a", "-k", "1"], allhead, srt),
    Tool("merge", ["sort", "-m", "-k", "1"], allhead, srt),
    Tool("merge-alt", ["sort", "-m", "-A", "-k", "1"], allhead, srt),
    Tool("binsearch", ["binsearch", "m"], allhead, lambda fs: [l for l in cat(fs) if key(l) == b"m"]),
)}
BADHEAD = (b" CDX", b" CDX\t", b" CDX\ta\t\tb", b" CDX\t\ta", b" CDX\ta\t", b" CDX\t1a\tb", b" CDX\ta b", b" CDX\ta\tb-c", b" CDXa", b" CDX\ta\t_b", b" CDX\ta\tb!", b" CDX1", b" CDX1abc1d", b" CDX9a", b" CDX0aa0bb", b" CDXZaZb", b" CDX\t" + b"a" * 50 + b"-", b" CDX\t" + b"\t".join(b"c%d" % i for i in range(100)) + b"\t9", b" CDX\ta\tb\xff", b" CDX\xc3\xa9a")


def model(t, files):
    """(index of the file that must be refused, or None; output of the files before it or of all)"""
    live = [(i, f) for i, f in enumerate(files) if f != EMPTY]
    want = None
    good = []
    for n, (i, (hd, body)) in enumerate(live):
        if t.needs and (not hd or t.needs not in hd):
            return i, good
        h = t.head(hd)
        if n == 0:
            want = h
        elif h != want:
            return i, good
        good.append((hd, body))
    return None, good


def render(t, good):
    hd = t.head(good[0][0]) if good else None
    return (b" CDX\t" + b"\t".join(hd) + b"\n" if hd else b"") + b"".join(l + b"\n" for l in t.lines(good))


LIB = None


def prepare(base, tier):
    global LIB
    try:
        LIB = core.build_lib(base)
    except core.Infra:
        LIB = None      # the command line still decides the property


def run(srv, case):
    if case[0] == "modes":
        return core.run_lib(srv, LIB, "head", case[1], case[2], 16) if LIB else None
    space = case[0]
    if space == "skip":
        _, args, body, hd = case
        a, b = text((hd, body)), text((None, body))
        args = [args[0], "--text-in", "stp"] + list(args[1:])
        r1 = srv.run(args + ["f"], files={"f": a, "g": b})
        r2 = srv.run(args + ["f"], files={"f": b, "g": b})
        if r1.crashed or (r1.rc, r1.out) != (r2.rc, r2.out):
            raise Violation("%r: with a header to be skipped %s, without %s (%r)" % (args, r1.brief(), r2.brief(), a))
        return (r1.out,)
    if space == "bad":
        _, name, bad, pos, n = case
        t = TOOLS[name]
        good = text(((b"a", b"b"), BODIES[1]))
        fn = {"f%d" % i: (bad + b"\nm\t7\n" if i == pos else good) for i in range(n)}
        args = t.args + sorted(fn)
        r = srv.run(args, files=fn)
        if r.crashed or r.rc == 0 or not r.err or b"m\t7" in r.out:
            raise Violation("%r with malformed header %r: %s" % (args, bad, r.brief()))
        return (r.rc,)
    _, name, files = case
    t = TOOLS[name]
    fn = {"f%d" % i: text(f) for i, f in enumerate(files)}
    args = t.args + sorted(fn)
    r = srv.run(args, files=fn)
    refused, good = model(t, files)
    out = render(t, good)
    if refused is None:
        if r.rc != 0 or r.out != out:
            raise Violation("%r on %r: expected %r got %s" % (args, fn, out, r.brief()))
    else:
        if r.rc == 0 or r.crashed or not r.err:
            raise Violation("%r on %r: file %d must be refused, got %s" % (args, fn, refused, r.brief()))
        if not out.startswith(r.out):
            raise Violation("%r on %r: file %d refused, but output is not a prefix of %r: %s" % (args, fn, refused, out, r.brief()))
    return (name, refused, r.out)


def cases(tier):
    th = tier == "thorough"
    for i in range(16):
        yield ("modes", tier, i)
    pool = [(h, b) for h in HEADS for b in BODIES[:4 if th else 3] if h or b] + [EMPTY]
    for name in TOOLS:
        if name == "cut-":
            continue
        for n in (1, 2):
            for fs in itertools.product(pool, repeat=n):
                yield ("files", name, fs)
        for fs in itertools.product([(h, b) for h in HEADS for b in BODIES[:3] if h or b] + [EMPTY] if th else [(None, BODIES[1]), ((b"a", b"b"), BODIES[2]), ((b"a", b"b"), ()), ((b"b", b"a"), BODIES[1]), (HEADS[3], BODIES[1]), EMPTY], repeat=3):
            yield ("files", name, fs)
        if th:
            for fs in itertools.product([(None, BODIES[1]), ((b"a", b"b"), BODIES[2]), ((b"a", b"b"), ()), ((b"b", b"a"), BODIES[1]), EMPTY], repeat=4):
                yield ("files", name, fs)
        for x in ODD + ((b"a", b"b"),):
            for y in ODD + ((b"a", b"b"),):
                if not TOOLS[name].needs or (b"a" in x and b"a" in y):
                    yield ("files", name, ((x, BODIES[1]), (y, BODIES[2])))
        for i in range(3, 9):
            for odd in (None, (b"b", b"a")):
                for pos in range(i):
                    fs = [((b"a", b"b"), BODIES[1 + k % 3]) for k in range(i)]
                    yield ("files", name, tuple(fs))
                    fs[pos] = (odd, BODIES[1])
                    yield ("files", name, tuple(fs))
    for name in ("cat", "cat-n", "cut-", "cgrep", "sample-f", "sample-s", "sort", "merge", "merge-alt", "binsearch"):
        for bad in BADHEAD:
            if name == "cat-n" and b"\t" not in bad:
                continue
            for n in (1, 2, 3):
                for pos in range(n):
                    yield ("bad", name, bad, pos, n)
    for args in (["cut", "-f", "1"], ["cut", "-f", "c2"], ["cgrep", "-p", "1,glob,*"], ["cgrep", "-p", "c1,exact,m"], ["cat", "-b"], ["uniq", "-k", "1"], ["uniq", "-k", "c1", "-c", "n,end"], ["sample", "-f", "1,1,9"],
                 ["wc", "-l"], ["verify", "-s", "-k", "1"], ["paste", "g"], ["transpose"]):
        for body in BODIES:
            for hd in HEADS[1:] + ODD:
                yield ("skip", tuple(args), body, hd)
