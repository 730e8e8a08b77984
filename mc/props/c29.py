"""C29: filegen writes exactly the table asked for."""
import itertools
import re
from core import Violation

BOUNDS = {
    "quick": "every list of up to 3 columns over 25 generators (grid, count, null, expr, decimal, normal) x 7 line counts x header, -m repeats of 0..12; -m repeats of up to 300, up to 70,000 lines, decimals of up to 18 digits, numbers of 90 digits, counts from either end of the integers; random columns take every value of a small range, either sign, and have the mean and deviation asked for; every malformed specification of 20",
    "thorough": "as quick with up to 4 columns over 14 generators and 12 line counts",
}
RULE = "distinct (columns, lines, output) triples, random columns by their shape"
ASSUMPTIONS = ["random values are checked against their format and range only"]


class num(float):
    """a number in any format (formats are C23's matter)"""

    def __eq__(self, other):
        try:
            return abs(float(self) - float(other)) <= 1e-12 * abs(float(self))
        except ValueError:
            return False
    __hash__ = float.__hash__


def dec(sign, pre, post):
    p = rb"(?:0|[1-9][0-9]{0,%d})" % (pre - 1) if pre else rb"0"
    return re.compile((rb"-?" if sign else rb"") + p + (rb"\.[0-9]{%d}" % post if post else rb"") + rb"\Z")


NORMAL = re.compile(rb"-?[0-9]+(?:\.[0-9]+)?(?:e-?[0-9]+)?\Z")
GENS = {
    "grid": lambda l, c: b"%d_%d" % (l, c),
    "null": lambda l, c: b"",
    "count": lambda l, c: b"%d" % (l - 1),
    "count,1": lambda l, c: b"%d" % l,
    "count,100": lambda l, c: b"%d" % (l + 99),
    "count,-3": lambda l, c: b"%d" % (l - 4),
    "count,0": lambda l, c: b"%d" % (l - 1),
    "expr,line": lambda l, c: num(l),
    "expr,col": lambda l, c: num(c),
    "expr,line*col": lambda l, c: num(l * c),
    "expr,line*100+col": lambda l, c: num(l * 100 + c),
    "expr,col-line": lambda l, c: num(c - l),
    "expr,plain,line/2": lambda l, c: num(l / 2),
    "expr,float,col*0.25": lambda l, c: num(c * 0.25),
    "expr,max(line,col)": lambda l, c: num(max(l, c)),
    "expr,plain,10^90*line": lambda l, c: num(1e90 * l),
    "expr,7": lambda l, c: b"7",
    "decimal": dec(False, 4, 0),
    "decimal,N": dec(False, 1, 0),
    "decimal,-NN": dec(True, 2, 0),
    "decimal,NNN.NN": dec(False, 3, 2),
    "decimal,-.N": dec(True, 0, 1),
    "decimal,N.NNNNNN": dec(False, 1, 6),
    "normal": NORMAL,
    "normal,10,0.5": NORMAL,
    "normal,5,0": lambda l, c: b"5",
}
BAD = ["", "nosuch", "count,x", "count,1x", "count,1.5", "expr,", "expr,(", "expr,1+", "expr,line*nosuch(", "normal,x", "normal,1,x", "normal,1,2,plain,3", "normal,1,nan", "normal,1,inf",
       "decimal,NNNNNNNNNNNNNNNNNNNNN", "decimal,N.NNNNNNNNNNNNNNNNNNNNN", "decimal,NNNNNNNNNNNNNNNNNNNN.N", "grid.x"]
BADARGS = [["-m", "grid"], ["-m", "x,grid"], ["-m", "2,nosuch"], ["-n", "x"], ["-n", "-1"], ["-n", "1.5"], ["-m", "-1,grid"], ["file"]]


def gen(g):
    if g in GENS:
        return GENS[g]
    kind, _, v = g.partition(",")
    if kind == "count":
        return lambda l, c: b"%d" % (l - 1 + int(v))
    a, _, b = v.lstrip("-").partition(".")
    return dec(v.startswith("-"), len(a), len(b))


def check(args, cols, n, head, r):
    out = r.out
    if r.rc != 0 or r.err:
        raise Violation("%r: %s" % (args, r.brief()))
    ls = out.split(b"\n")
    if ls.pop() != b"":
        raise Violation("%r: no final newline in %r" % (args, out[-100:]))
    if head:
        h = b" CDX" + b"".join(b"\tc%d" % (i + 1) for i in range(len(cols)))
        if not ls or ls.pop(0) != h:
            raise Violation("%r: expected header %r, got %r" % (args, h, out[:200]))
    if len(ls) != n:
        raise Violation("%r: expected %d lines, got %d" % (args, n, len(ls)))
    for i, l in enumerate(ls):
        vs = l.split(b"\t")
        if len(vs) != len(cols):
            raise Violation("%r: line %r should have %d columns" % (args, l, len(cols)))
        for j, (v, g) in enumerate(zip(vs, cols)):
            f = gen(g)
            ok = f.match(v) is not None if hasattr(f, "match") else f(i + 1, j + 1) == v
            if not ok:
                raise Violation("%r: line %d column %d (%s) is %r" % (args, i + 1, j + 1, g, v))
    return tuple(len(l) for l in ls[:3])


def run(srv, case):
    space = case[0]
    if space == "bad":
        _, args = case
        r = srv.run(["filegen", *args])
        # an expression may be found wanting only when it is used
        late = args[-1].partition("expr,")[1] != "" and b"\n" not in r.out
        if r.crashed or r.rc == 0 or not r.err or (r.out and not late):
            raise Violation("filegen %r is not valid, but %s" % (args, r.brief()))
        return (args,)
    if space == "spread":
        _, spec, n, kind, what = case
        r = srv.run(["filegen", "-c", spec, "-n", str(n)])
        v = [float(x) for x in r.out.split()]
        if kind == "all":
            ok = set(x for x in r.out.decode().split()) == set(what)
        else:
            m = sum(v) / n
            d = (sum((x - m) ** 2 for x in v) / n) ** 0.5
            ok = len(v) == n and abs(m - what[0]) <= 0.25 * what[1] and abs(d - what[1]) <= 0.2 * what[1]
        if r.rc or not ok:
            raise Violation("%d values of %s are not what was asked for: %s" % (n, spec, r.brief()))
        return (spec,)
    _, specs, n, head = case
    args, cols = ["filegen"], []
    for s in specs:
        if isinstance(s, tuple):
            args += ["-m", "%d,%s" % s]
            cols += [s[1]] * s[0]
        else:
            args += ["-c", s]
            cols.append(s)
    if not cols:
        cols = ["grid"]
    if n is not None:
        args += ["-n", str(n)]
    if head:
        args.append("-h")
    r = srv.run(args)
    return (specs, n, head, check(args, cols, 10 if n is None else n, head, r))


def cases(tier):
    th = tier == "thorough"
    gens = list(GENS)
    counts = (None, 0, 1, 2, 9, 10, 11) if not th else (None, 0, 1, 2, 3, 9, 10, 11, 30, 99, 100, 101)
    for n in counts:
        for head in (False, True):
            yield ("table", (), n, head)
            for g in gens:
                yield ("table", (g,), n, head)
            for a in gens:
                for b in gens:
                    yield ("table", (a, b), n, head)
            for k in range(0, 13):
                for g in gens[::3]:
                    yield ("table", ((k, g),), n, head)
                    yield ("table", ("grid", (k, g), "null"), n, head)
    for t in itertools.product(gens if th else gens[::2], repeat=3):
        yield ("table", t, 3, True)
    if th:
        for t in itertools.product(gens[::2], repeat=4):
            yield ("table", t, 2, False)
    for n in (1000, 5000):
        for g in gens:
            yield ("table", (g,), n, True)
    for b in BAD:
        yield ("bad", ("-c", b))
        yield ("bad", ("-c", "grid", "-c", b))
        yield ("bad", ("-m", "2," + b))
    for b in BADARGS:
        yield ("bad", tuple(b))
    for g in gens:
        for n in (32768, 65535, 65536, 70000):
            yield ("table", (g,), n, g == "grid")
    for k in (20, 99, 100, 101, 254, 255, 256, 257, 300):
        for g in gens:
            yield ("table", ((k, g),), 3, True)
            yield ("table", ("count,1", (k, g), "null", (2, "grid")), 11, True)
    for a in range(1, 19):
        for b in range(0, 19 - a):
            for sign in (False, True):
                g = "decimal," + ("-" if sign else "") + "N" * a + ("." + "N" * b if b else "")
                yield ("table", (g,), 20, False)
    for v in (-10 ** 15, -70000, -1, 65535, 65536, 10 ** 15, 2 ** 31 - 2, 2 ** 32 - 2, 2 ** 53 - 1, 2 ** 63 - 2, 2 ** 63 - 1, -2 ** 63, -2 ** 31 - 1, -2 ** 32 - 1):
        g = "count,%d" % v
        yield ("table", (g, g), 12, False)
        yield ("table", ("null", (3, g)), 300, True)
    # the chance that a correct generator fails one of these is below 1e-30
    yield ("spread", "decimal,N", 3000, "all", tuple(sorted({"%d" % i for i in range(10)})))
    yield ("spread", "decimal,-N", 6000, "all", tuple(sorted({"%d" % i for i in range(10)} | {"-%d" % i for i in range(10)})))
    yield ("spread", "decimal,NN", 20000, "all", tuple(sorted({"%d" % i for i in range(100)})))
    yield ("spread", "decimal,.N", 3000, "all", tuple(sorted({"0.%d" % i for i in range(10)})))
    yield ("spread", "decimal,N.N", 20000, "all", tuple(sorted({"%d.%d" % (i, j) for i in range(10) for j in range(10)})))
    yield ("spread", "decimal,-.N", 6000, "all", tuple(sorted({"%s0.%d" % (s, i) for i in range(10) for s in ("", "-")})))
    for m, d in ((0, 1), (10, 0.5), (-7, 3), (1e6, 1000), (5, 20)):
        yield ("spread", "normal,%g,%g,float" % (m, d), 5000, "normal", (m, d))
    yield ("spread", "normal", 5000, "normal", (0, 1))
    yield ("spread", "normal,4", 5000, "normal", (4, 1))
    yield ("spread", "decimal", 5000, "normal", (5000, 2887))
    yield ("spread", "decimal,NNNNNNNNN", 5000, "normal", (5e8, 2.887e8))
    yield ("spread", "decimal,-NNN", 5000, "normal", (0, 577))
