"""C10: what a tool does depends on the bytes of its input, not on how they arrive."""
import gzip
import io
import itertools
import zlib
from core import Violation, plan, strings
import scen

BOUNDS = {
    "quick": "28+ command lines x every way to cut an 8 byte input into reads (2^7), a 12 byte input with header (2^11, for the distinct ways of reading), every read size up to 48, first read 1..12, interrupted reads and writes, write sizes 1..16; every delivery as file, stdin, here-text (every escape, and all of up to 2 with ordinary characters), gzip with one or two members split anywhere, with and without final newline; inputs around 8, 16, 32, 64 kB buffers with 9 read sizes",
    "thorough": "as quick, with every cut of 12 bytes for every command line and 14 bytes for the distinct ones, every combination of read size, first read, interruption; every size from 8180 to 8200 and at 16, 32, 64, 128 kB",
}
RULE = "distinct (command, output) pairs"
ASSUMPTIONS = ["binsearch maps its file into memory, so has no reads to vary", "the undisturbed run of the same command is right (decided by the other properties)"]
ALL = scen.TOOLS + scen.FORMATTED
BYNAME = {s[0]: s for s in ALL + [scen.CALC, scen.TOOLTEST]}
# one scenario for each distinct way of reading input
DISTINCT = ["sort", "merge", "check", "uniq", "join2", "cat", "cat-n", "cut", "paste", "cut-q"]
BASE = {}


def content(sc, c):
    if isinstance(c, bytes):
        return c
    kind, n = c
    if kind == "lines":      # n bytes of short lines with a header
        out, i = [scen.H], 10000
        k = len(scen.H)
        while k < n - 40:
            x = b"%d\tv%d\n" % (i, i % 7)
            i += 1
            out.append(x)
            k += len(x)
        return b"".join(out) + b"99999\t" + b"x" * (n - k - 7) + b"\n"
    if kind == "long":       # one line that fills the buffer, then two more
        return b"1\t" + b"x" * (n - 3) + b"\n2\ty\n3\tz\n"
    if kind == "head":       # a header that ends exactly at n
        return b" CDX\ta\t" + b"b" * (n - 8) + b"\n1\tx\n2\ty\n"


def base(srv, sc, c, form=("f",)):
    k = (sc[0], c if isinstance(c, bytes) else tuple(c))
    if k not in BASE:
        if len(BASE) > 3000:
            BASE.clear()
        r, o = scen.observe(srv, sc, content(sc, c))
        if r.crashed:
            raise Violation("%r on %r: %s" % (sc[1], content(sc, c)[:200], r.brief()))
        BASE[k] = o
    return BASE[k]


def diff(sc, c, how, exp, got):
    raise Violation("%s %r on %r, %s: expected %r got %r" % (sc[0], sc[1], c[:200], how, tuple(x[:300] if isinstance(x, bytes) else x for x in exp),
                                                        tuple(x[:300] if isinstance(x, bytes) else x for x in got)))


def blur(o, name):
    """the messages may name the file"""
    rc, out, err, fs = o
    return (rc, out, bool(err), fs)


def run(srv, case):
    space, scn, c = case[:3]
    if space == "escape":
        r = srv.run(["cat", b"<<" + c])
        q = srv.run(["cat", "-"], stdin=case[3])
        if (r.rc, r.out) != (q.rc, q.out):
            raise Violation("cat '<<%s': expected the output for %r, %s, got %s" % (c, case[3], q.brief(), r.brief()))
        return (r.out,)
    sc = BYNAME[scn]
    data = content(sc, c)
    if scn in ("calc",):
        k = (scn, c)
        if k not in BASE:
            r = srv.run(sc[1], stdin=data)
            BASE[k] = (r.rc, r.out, r.err)
        r = srv.run(sc[1], stdin=data, pl=plan(**dict(case[3])))
        if (r.rc, r.out, r.err) != BASE[k]:
            diff(sc, data, case[3], BASE[k], (r.rc, r.out, r.err))
        return BASE[k]
    exp = base(srv, sc, c)
    if space == "form":
        form = case[3]
        pl = plan(**dict(case[4])) if len(case) > 4 else None
        if form == "stdin":
            r, o = scen.observe(srv, sc, data, pl, name="-", stdin=data)
        elif form == "here":
            t = data.replace(b"\\", b"\\\\").replace(b"\n", b"\\n").replace(b"\t", b"\\t")
            r, o = scen.observe(srv, sc, data, pl, name=b"<<" + t)
        elif form == "nonl":
            args, fn = scen.concrete(sc, data)
            fn = {k: v[:-1] if k == "f" else v for k, v in fn.items()}
            for x in sc[3]:
                srv.write_file(x, b"old contents that must go away\n")
            r = srv.run(args, files=fn, pl=pl)
            o = (r.rc, r.out, r.err, tuple(srv.read_file(x) for x in sc[3]))
        elif form == "nonl-all":
            r, o = scen.observe(srv, sc, data[:-1], pl)
        elif form == "nonl-stdin":
            r, o = scen.observe(srv, sc, data, pl, name="-", stdin=data[:-1])
        elif form[0] in ("gz", "gz-stdin"):
            parts = [data[i:j] for i, j in zip((0,) + form[1], form[1] + (len(data),))]
            z = b"".join(gzip.compress(x, 6, mtime=0) for x in parts)
            args, fn = scen.concrete(sc, data)
            for x in sc[3]:
                srv.write_file(x, b"old contents that must go away\n")
            if form[0] == "gz":
                fn = dict(fn, f=z)
                r = srv.run(args, files=fn, pl=pl)
            else:
                args = ["-" if a == "@" else a for a in sc[1]]
                r = srv.run(args, files=fn, stdin=z, pl=pl)
            o = (r.rc, r.out, r.err, tuple(srv.read_file(x) for x in sc[3]))
        if blur(o, form) != blur(exp, form):
            diff(sc, data, "delivered as %r %r" % (form, case[4] if len(case) > 4 else ""), exp, o)
        return (scn, o[1][:100])
    pl = plan(**dict(case[3]))
    r, o = scen.observe(srv, sc, data, pl)
    if o != exp:
        diff(sc, data, case[3], exp, o)
    return (scn, o[1][:100])


def cases(tier):
    th = tier == "thorough"
    names = [s[0] for s in ALL]
    for n in names:
        for m in range(1, 1 << 7):
            yield ("cuts", n, scen.SMALL, (("cuts", m),))
    for n in (names if th else DISTINCT):
        for m in range(1, 1 << 11):
            yield ("cuts", n, scen.TINY, (("cuts", m),))
    if th:
        for n in DISTINCT:
            for m in range(1, 1 << 13):
                yield ("cuts", n, b" CDX\ta\n1\n22\n3", (("cuts", m),))
    # every string over the bytes that matter, delivered one byte at a time
    for n in ("cat", "cut", "uniq", "sort", "cut-q", "cat-n", "merge"):
        for s in strings(b" CD\n", 1, 6 if th else 5):
            yield ("bytes", n, s, (("rchunk", 1),))
    ins = [scen.TAB, scen.NUMS] + ([b'1\t"a\nb"\n2\t"c""d"\n"3\t4"\te\n'])
    for n in names + ["tooltest"]:
        for c in (ins if n != "tooltest" else [scen.TEST]):
            for k in range(1, 49):
                yield ("reads", n, c, (("rchunk", k),))
            for f in range(1, 13):
                for k in ((0, 1, 2, 3, 5, 7, 50) if th else (0, 1, 3)):
                    yield ("reads", n, c, (("rfirst", f), ("rchunk", k)))
            for e in (2, 3, 4, 5):
                for k in ((0, 1, 2, 3, 5, 8, 13, 21) if th else (0, 1, 5)):
                    yield ("reads", n, c, (("reintr", e), ("rchunk", k)))
            for e in (0, 2, 3):
                for k in range(1, 17) if not e else (0, 1, 2, 5):
                    yield ("writes", n, c, (("weintr", e), ("wchunk", k)))
            for a, b in itertools.product((1, 2, 7), (1, 2, 7)):
                yield ("both", n, c, (("rchunk", a), ("wchunk", b), ("reintr", 3), ("weintr", 3)))
    for k in range(1, 20):
        yield ("reads", "calc", b"1+2\n3*4\n2^10\n1.5e3\n", (("rchunk", k),))
        yield ("reads", "calc", b"1+2\n3*4\n2^10\n1.5e3\n", (("rchunk", k), ("reintr", 2), ("wchunk", k)))
    # here-text: \n, \t and \s are newline, tab and space, any other escaped character is itself, a backslash at the end too
    for n in range(0, 4 if th else 3):
        for t in itertools.product([(b"a", b"a"), (b"\\n", b"\n"), (b"\\t", b"\t"), (b"\\s", b" "), (b"\\\\", b"\\"), (b"n", b"n"), (b" ", b" "), (b"\xc3\xa9", b"\xc3\xa9"), (b"\n", b"\n"), (b"<", b"<")], repeat=n):
            x = b"".join(a for a, _ in t), b"".join(b for _, b in t)
            yield ("escape", "cat", x[0], x[1])
            yield ("escape", "cat", x[0] + b"\\", x[1] + b"\\")
    for ch in range(33, 127):
        if chr(ch) not in "nts":
            yield ("escape", "cat", b"x\\%cy" % ch, b"x%cy" % ch)
    # deliveries
    for n in names:
        for c in ins[:2] + [scen.SMALL, scen.TINY, b"1\n", b"1\n2\n", b" CDX\ta\n"]:
            for form in ("stdin", "here"):
                yield ("form", n, c, form)
            if not n.startswith("cat") and c.count(b"\n") > c.startswith(b" CDX"):
                for form in ("nonl", "nonl-all", "nonl-stdin"):
                    yield ("form", n, c, form)
                    yield ("form", n, c, form, (("rchunk", 1),))
            elif n == "cat-n":
                yield ("form", n, c, "nonl-all")
            if len(c) > 200:
                splits = [(i,) for i in range(0, len(c) + 1, 1 if th else 7)]
            else:
                splits = [(i,) for i in range(0, len(c) + 1)]
            for s in [()] + splits:
                yield ("form", n, c, ("gz", s))
            for k in (1, 2, 3, 4, 5, 10, 17, 18, 19, 20):
                yield ("form", n, c, ("gz", (len(c) // 2,)), (("rchunk", k),))
                yield ("form", n, c, ("gz-stdin", ()), (("rfirst", k),))
                yield ("form", n, c, ("gz-stdin", (1, 2)), (("reintr", 2 + k % 3),))
    # buffers
    sizes = [4096, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537]
    if th:
        sizes = sorted(set(sizes + list(range(8180, 8205)) + [12288, 24576, 32767, 32769, 131071, 131072, 131073]))
    for n in names if th else DISTINCT + ["cgrep", "sort-alt", "sort-u", "transpose", "wc", "sample-s", "cut-b"]:
        for z in sizes:
            for kind in ("lines", "long", "head"):
                if n.startswith("transpose") and kind == "lines" and z > 20000:
                    continue
                for p in ((("rchunk", 1000),), (("rchunk", 8191),), (("rchunk", 4096),), (("rfirst", 1),), (("rfirst", 8188),), (("rchunk", 4099), ("reintr", 2)),
                          (("cuts", 0x11), ("cutbase", 8187)), (("wchunk", 1000),), (("wchunk", 8191), ("weintr", 2))):
                    yield ("buffers", n, (kind, z), p)
            if n not in ("cat",):
                yield ("form", n, ("lines", z), ("gz", (z // 3,)))
                yield ("form", n, ("long", z), ("gz", (8192 if z > 8192 else 1,)))
                yield ("form", n, ("lines", z), "stdin")
                yield ("form", n, ("lines", z), "nonl-stdin") if not n.startswith("cat") else ("form", n, ("lines", z), "stdin")
