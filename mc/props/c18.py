"""C18: transpose exchanges rows and columns."""
import itertools
from core import Violation

BOUNDS = {
    "quick": "every table of up to 4 x 4 cells with every pattern of missing trailing cells, every table of up to 2 x 3 cells over {a, empty, two words}, header or not, --head, --lines 0..5, last line terminated or not, two delimiters; transposing twice; pairs of 18 odd values (controls, not UTF-8, 70,000 bytes), odd column names; tables of up to 70,001 lines or 20,000 columns",
    "thorough": "as quick with tables of up to 6 x 5, 3 x 3 cells over the values",
}
RULE = "distinct outputs"
ASSUMPTIONS = ["cells to the right of the last named column (lines longer than the header or, without one, than the first line) are left open"]


def run(srv, case):
    _, hdr, rows, head, lines, nl, d = case
    rows = [list(r) for r in rows]
    inp = (b" CDX" + d + d.join(hdr) + b"\n" if hdr else b"") + b"\n".join(d.join(r) for r in rows) + (b"\n" if nl and rows else b"")
    args = ["transpose"] + (["--text-in", "m" + d.decode() + "p"] if d != b"\t" else []) + (["-h"] if head else []) + (["-n", str(lines)] if lines is not None else [])
    r = srv.run(args, stdin=inp)
    w = len(hdr) if hdr else (len(rows[0]) if rows else 0)
    use = rows if lines is None else rows[:lines]
    if hdr:
        use = [list(hdr)] + use
    exp = b"".join(d.join(x[c] if c < len(x) else b"" for x in use) + b"\n" for c in range(w))
    if head and w:
        exp = b" CDX" + d + exp
    if r.rc != 0 or r.out != exp:
        raise Violation("%r on %r: expected %r got %s" % (args, inp, exp, r.brief()))
    if not hdr and not head and lines is None and rows and exp and all(len(x) == w for x in rows):
        r2 = srv.run(args, stdin=r.out)
        if r2.rc != 0 or r2.out != inp + (b"" if nl else b"\n"):
            raise Violation("transposing %r twice gives %s" % (inp, r2.brief()))
    return (r.out,)


def cases(tier):
    th = tier == "thorough"
    H = [b"p", b"q", b"r", b"s", b"t"]
    R, C = (6, 5) if th else (4, 4)
    for w in range(1, C + 1):
        for n in range(0, R + 1):
            for lens in itertools.product(range(1, w + 1), repeat=n):
                if n > 4 and len(set(lens)) > 2:
                    continue
                rows = tuple(tuple(b"%d%c" % (i, 97 + c) for c in range(k)) for i, k in enumerate(lens))
                for hdr in (True, False):
                    if not hdr and (not rows or len(rows[0]) != w):
                        continue
                    hd = tuple(H[:w]) if hdr else None
                    for nl in (True, False):
                        if not nl and not rows:
                            continue
                        yield ("shape", hd, rows, False, None, nl, b"\t")
                        if nl:
                            yield ("shape", hd, rows, True, None, nl, b"\t")
                            yield ("shape", hd, rows, False, None, nl, b",")
                            for k in range(0, n + 2):
                                yield ("lines", hd, rows, k == 1, k, nl, b"\t" if k != 2 else b"|")
    for w in (1, 2, 3):
        for n in (1, 2) + ((3,) if th else ()):
            for cells in itertools.product((b"a", b"", b"two words"), repeat=w * n):
                rows = tuple(tuple(cells[i * w:(i + 1) * w]) for i in range(n))
                for hd in (None, tuple(H[:w])):
                    for nl in (True, False):
                        if nl or rows[-1] != (b"",):
                            yield ("values", hd, rows, False, None, nl, b"\t")
    for n, w in ((1000, 3), (3, 1000), (5000, 1), (1, 20000), (300, 300)):
        rows = tuple(tuple(b"%d.%d" % (i, c) for c in range(w)) for i in range(n))
        yield ("large", None, rows, False, None, True, b"\t")
        yield ("large", None, rows, True, n - 1, False, b"\t")
    odd = [b"\r", b"a\r", b"\0", b"\xff", b"\xc3\xa9", b"\\", b'"', b'"q"', b" lead", b"trail ", b" ", b"\x0b", b"\x1b[0m", b" CDX", b"#", b",", b"x" * 300, b"y" * 70000]
    for i, a in enumerate(odd):
        for b in (odd if i < 6 else odd[:6]) + [b"", b"z"]:
            for rows in (((b"k", a), (b, b"m")), ((b"k", b), (a, b"m"), (b"n", a))) if len(a) + len(b) < 1000 or b == b"" else (((b"k", a), (b, a)),):
                for hd in (None, (b"p", b"q")):
                    yield ("odd", hd, rows, False, None, True, b"\t")
                if rows[-1][0] != b" CDX":
                    yield ("odd", None, rows[::-1], False, None, False, b"\t")
    for h in (b"p q", b"\xc3\xa9", b"p-1", b"1p", b"P", b"x" * 300, b"_", b"p,q"):
        yield ("odd", (b"a", h), ((b"1", b"2"),), True, None, True, b"\t")
        yield ("odd", (h, b"a"), ((b"1", b"2"), (b"3", b"")), False, 1, True, b"\t")
    yield ("large", None, tuple((b"%d" % i, b"x") for i in range(70001)), False, None, True, b"\t")
    yield ("large", None, tuple((b"%d" % i, b"x") for i in range(70001)), False, 65536, True, b"\t")
    yield ("large", (b"p",), tuple((b"%d" % i,) for i in range(256)), False, None, True, b"\t")
    yield ("large", tuple(b"c%d" % i for i in range(257)), (tuple(b"%d" % i for i in range(257)),), False, None, True, b"\t")
