"""C28: tabs shows the first lines of its files in aligned columns that fit the screen."""
import itertools
from core import Violation, plan

BOUNDS = {
    "quick": "every 2x2 table over 5 cells (empty, short, long, accented, double width) with and without header x screen widths 1..14, 20 x heights 1, 2, 5; ragged lines; 0..30 lines at 5 heights; 1..130 columns at widths 10, 80 and 100 (no terminal); every list of up to 3 files over 6 files at 6 heights, names as wide as the table, up to 8 files (20 on tall screens); up to 1000 columns, 70,000 lines, cells of 70,000 characters; screens of up to 1000x600; odd delimiters",
    "thorough": "as quick with 2x3 tables, widths 1..30 and up to 4 files over 8",
}
RULE = "distinct (screen, shape, output) triples"
ASSUMPTIONS = ["columns of equal width may be narrowed in any order", "the screen has three lines for each file"]
CELLS = ["", "a", "bb", "longer one", "\u00e9t\u00e9", "\u4e2d\u6587"]


def width(s):
    return sum(2 if ord(c) >= 0x1100 else 1 for c in s)


def trunc(s, n):
    out, w = "", 0
    for c in s:
        k = width(c)
        if w + k > n:
            break
        out, w = out + c, w + k
    return out, w


def layouts(rows, w):
    """every way to narrow the widest columns until the lines fit"""
    n = max(len(r) for r in rows)
    sizes = [max([width(r[i]) for r in rows if i < len(r)]) for i in range(n)]
    target = max(0, w - n)
    total = sum(sizes)
    if total <= target:
        return [tuple(sizes)]
    level = max(sizes)
    while sum(min(x, level) for x in sizes) > target:
        level -= 1
    # level is the largest at which everything fits; some columns may be one wider
    spare = target - sum(min(x, level) for x in sizes)
    wide = [i for i, x in enumerate(sizes) if x > level]
    out = []
    if len(wide) > 6:
        picks = [tuple(wide[-spare:])] if spare else [()]
    else:
        picks = itertools.combinations(wide, spare)
    for p in picks:
        out.append(tuple(min(x, level) + (i in p) for i, x in enumerate(sizes)))
    return out


def render(rows, head, sizes):
    out = []
    for k, r in enumerate(rows):
        cells = []
        for i, c in enumerate(r):
            t, w = trunc(c, sizes[i])
            pad = sizes[i] - w
            left = pad // 2 if head and k == 0 else 0
            cells.append(" " * left + t + " " * (pad - left))
        out.append(" ".join(cells))
    return out


def table(head, rows, delim="\t"):
    s = ""
    if head:
        s += " CDX" + delim + delim.join(head) + "\n"
    return (s + "".join(delim.join(r) + "\n" for r in rows)).encode()


def shown(head, rows, h):
    return (([head] if head else []) + rows[:max(0, h - (1 if head else 0))]) or []


def check(srv, files, w, h, extra=()):
    """files: (name, header or None, rows); h lines are available"""
    fn = {n: table(hd, rows) for n, hd, rows in files}
    term = () if (w, h) == (100, 24) else plan(wscol=w, wsrow=h + 1)
    args = ["tabs", *extra] + [f[0] for f in files]
    r = srv.run(args, files=fn, pl=term)
    if r.rc != 0:
        raise Violation("%r on %dx%d %r: %s" % (args, w, h, fn, r.brief()))
    got = r.out.decode("utf-8", "replace").split("\n")
    if got.pop() != "":
        raise Violation("%r on %dx%d %r: no final newline in %r" % (args, w, h, fn, r.out))
    if len(files) == 1:
        n, hd, rows = files[0]
        vis = shown(hd, rows, h)
        ok = [render(vis, bool(hd), s) for s in layouts(vis, w)] if vis else [[]]
        if got not in ok:
            raise Violation("%r on %dx%d %r: shows %r, expected %r" % (args, w, h, fn, got, ok[:2]))
    else:
        at, left, nleft = 0, max(0, h + 1 - 2 * len(files)), len(files)
        for i, (n, hd, rows) in enumerate(files):
            vis = shown(hd, rows, left // nleft)
            for s in layouts(vis, w) if vis else [()]:
                real = sum(s) + len(s)
                exp = []
                if len(n) <= real:
                    lp = (real - len(n)) // 2
                    exp.append(" " * lp + n + " " * (real - len(n) - lp))
                if vis:
                    exp += render(vis, bool(hd), s)
                if i + 1 < len(files):
                    exp.append("-" * real)
                if got[at:at + len(exp)] == exp:
                    break
            else:
                raise Violation("%r on %dx%d %r: file %s shown as %r, expected %r" % (args, w, h, fn, n, got[at:], exp))
            at += len(exp)
            left, nleft = max(0, left - len(vis)), nleft - 1
        if at != len(got):
            raise Violation("%r on %dx%d %r: more lines than expected: %r" % (args, w, h, fn, got[at:]))
        if 2 * len(files) <= h and len(got) > h:
            raise Violation("%r on %dx%d %r: %d lines do not fit" % (args, w, h, fn, len(got)))
    # nothing is wider than the screen
    for l in got:
        if max((len(r) for _, hd, rows in files for r in rows + ([hd] if hd else [])), default=0) < w and width(l) > w:
            raise Violation("%r on %dx%d %r: %r does not fit" % (args, w, h, fn, l))
    return (w, h, r.out)


def run(srv, case):
    if case[0] == "delim":
        _, d = case
        rows = [["a", "bb"], ["ccc", "d"]]
        r = srv.run(["tabs", "--text-in", "m" + d + "p", "f"], files={"f": table(["x", "y"], rows, d)})
        want = "\n".join(render([["x", "y"]] + rows, True, (3, 2))) + "\n"
        if r.rc != 0 or r.out.decode() != want:
            raise Violation("tabs with delimiter %r: %s, expected %r" % (d, r.brief(), want))
        return r.out
    _, files, w, h = case
    files = [(n, list(hd) if hd else None, [list(x) for x in rows]) for n, hd, rows in files]
    return check(srv, files, w, h)


def cases(tier):
    th = tier == "thorough"
    cells = CELLS if th else CELLS[1:]
    for hd in (None, ("a", "longhead"), ("h",)):
        for t in itertools.product(cells, repeat=4):
            rows = (t[:2], t[2:])
            for w in list(range(1, 31 if th else 15)) + [40]:
                for h in (1, 2, 5) if th or w % 5 == 0 else (5,):
                    yield ("small", (("f", hd, rows),), w, h)
    if th:
        for t in itertools.product(CELLS[1:5], repeat=6):
            for w in range(2, 24, 3):
                yield ("three", (("f", ("a", "b", "c"), (t[:3], t[3:])),), w, 4)
    ragged = [("a",), ("a", "bb"), ("longer", "x", "yy"), ("", "", "", "z"), ("",)]
    for n in range(0, 4):
        for rows in itertools.product(ragged, repeat=n):
            for hd in (None, ("h",), ("h1", "header2")):
                if hd is None and n == 0:
                    continue
                for w, h in ((100, 24), (9, 3), (20, 2), (5, 10)):
                    yield ("ragged", (("f", hd, rows),), w, h)
    for n in range(0, 31):
        rows = tuple(("l%d" % i, "v" * (i % 7)) for i in range(n))
        for hd in (None, ("h1", "h2")):
            if hd is None and n == 0:
                continue
            for w, h in ((100, 24), (80, 1), (80, 2), (10, 10), (7, 25)):
                yield ("height", (("f", hd, rows),), w, h)
    for n in list(range(1, 131, 1 if th else 3)):
        for wid in (1, 2, 9):
            for w, h in ((100, 24), (10, 24), (80, 3)):
                rows = (tuple("x" * (1 + (i * wid) % 9) for i in range(n)),)
                yield ("wide", (("f", None, rows),), w, h)
                yield ("wide", (("f", tuple("c%d" % i for i in range(n)), rows),), w, h)
    pool = [("a", None, (("1", "2"),)), ("b", ("h", "k"), ()), ("longfilename", None, (("x",),) * 3), ("d", ("x", "y"), tuple(("%d" % i, "yy") for i in range(40))), ("e", None, ()), ("g", None, tuple(("w" * 30, "z" * 40, "%d" % i) for i in range(12)))]
    if th:
        pool += [("hh", ("only",), (("1",),)), ("k", None, tuple(("%d" % i,) for i in range(5)))]
    for n in range(2, 5 if th else 4):
        for fs in itertools.product(pool, repeat=n):
            for w, h in ((100, 24), (40, 6), (40, 7), (60, 11), (20, 50), (80, 16)):
                if h + 1 - 2 * n >= n:
                    yield ("files", tuple((f[0], f[1], f[2]) for f in fs), w, h)
    for k in range(1, 14):
        for j in range(1, 14):
            for hd in (None, ("h", "k" * (j // 2))):
                fs = (("n" * k, hd, (("1", "2" * j),)), ("m" * j, None, (("x" * k,), ("y",))))
                for w, h in ((100, 24), (12, 9), (20, 50)):
                    yield ("files", fs, w, h)
    for n in range(4, 9):
        yield ("files", tuple(pool[i % len(pool)] for i in range(n)), 100, 24)
        yield ("files", (pool[3],) * n, 100, 24)
        yield ("files", (pool[0],) * n, 100, 24)
    for d in ",|;:":
        yield ("delim", d)
    for n in (100, 255, 256, 257, 300, 599, 600, 601, 70000):
        rows = tuple(("l%d" % i, "v" * (i % 7), "%d" % (i * i)) for i in range(n))
        for hd in (None, ("h1", "h2", "h3")):
            for w, h in ((100, 24), (80, 255), (80, 256), (12, 257), (300, 600), (80, 1)):
                yield ("big", (("f", hd, rows),), w, h)
    for k in (99, 100, 101, 254, 255, 256, 257, 1000, 70000):
        for rows in ((("x" * k,),), (("x" * k, "y"),), (("a", "x" * k, "b" * 300), ("c", "d", "e")), (("\u4e2d" * k, "\u00e9" * (k // 2)),)):
            for hd in (None, tuple("hd%d" % i for i in range(len(rows[0]))), tuple("z" * k for i in range(len(rows[0])))):
                for w, h in ((100, 24), (255, 5), (256, 5), (257, 5), (1000, 3), (20, 3)):
                    if k < 70000 or w < 300:
                        yield ("big", (("f", hd, rows),), w, h)
    for n in (140, 200, 255, 256, 257, 300, 500, 1000):
        for w in (100, 250, 300, 520, 999, 1000):
            rows = (tuple("x" * (1 + (i * 7) % 9) for i in range(n)), tuple("%d" % i for i in range(n)))
            yield ("big", (("f", None, rows),), w, 24)
            yield ("big", (("f", tuple("c%d" % i for i in range(n)), rows),), w, 24)
    for n in (9, 10, 11, 12, 20):
        for w, h in ((80, 3 * n), (80, 100), (80, 255), (200, 600)):
            for fs in ((pool[3],) * n, (pool[0],) * n, tuple(pool[i % len(pool)] for i in range(n)), tuple(pool[(i * i) % len(pool)] for i in range(n))):
                yield ("files", fs, w, h)
