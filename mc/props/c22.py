"""C22: expressions have the value that the rules of arithmetic give them; malformed ones are errors."""
import itertools
import math
import re
from fractions import Fraction
from core import Violation

BOUNDS = {
    "quick": "every string of up to 6 tokens over {1,2,3,+,-,*,^,!,(,),<} and over {1,2,+,-,comma,max(,abs(,if(,)}; every chain of 3 operands and 12 operators with every sign and factorial, "
             "every parenthesisation of chains of 4; every function on a grid of 12 arguments (and pairs), every function with 0..4 arguments; every constant; "
             "every expression of up to 5 tokens over two columns (by name, number, bracket) on a grid of rows; every pair of 20 special values (signed zeros, infinities, NaN, near-equal) under every operator; functions on very small and large arguments; nesting and chains up to 200 deep, up to 200 arguments; up to 300 columns by every way of naming them; odd column names",
    "thorough": "as quick with 7 tokens, and chains of 4 operands with signs",
}
RULE = "distinct blocks of results; every block holds many expressions"
ASSUMPTIONS = ["values are compared to 12 digits (11 for functions, 5 for Bessel functions)", "the factorial of a negative or fractional number is left open", "names that are not constants, functions or columns are left open in calc"]


class Bad(Exception):
    pass


class Open(Exception):
    pass


TOK = re.compile(r"(\d+(?:\.\d*)?(?:[eE][+-]?\d+)?)([KMGTPEZYkmgtpezy]?)|([^\W\d_]\w*)|(<=|>=|==|!=|[-+*/%^!<>(),])|\[([^\]]*)\]")
SUF = {c: (1024.0 if c.isupper() else 1000.0) ** ("KMGTPEZY".index(c.upper()) + 1) for c in "KMGTPEZYkmgtpezy"}
CONST = dict(pi=math.pi, e=math.e, M_E=math.e, M_LOG2E=math.log2(math.e), M_LOG10E=math.log10(math.e), M_LN2=math.log(2), M_LN10=math.log(10), M_PI=math.pi,
             M_PI_2=math.pi / 2, M_PI_4=math.pi / 4, M_1_PI=1 / math.pi, M_2_PI=2 / math.pi, M_2_SQRTPI=2 / math.sqrt(math.pi), M_SQRT2=math.sqrt(2),
             M_SQRT1_2=math.sqrt(0.5), M_INF=math.inf, M_NEG_INF=-math.inf, M_MAX=1.7976931348623157e308, M_MIN=-1.7976931348623157e308, M_MIN_POS=2.2250738585072014e-308)


def fpow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return -math.inf if a < 0 and b % 2 == 1 else math.inf
    except ValueError:
        if a == 0:
            return math.copysign(math.inf, a) if b % 2 == 1 else math.inf
        return math.nan


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def rem(a, b):
    try:
        return math.fmod(a, b)
    except ValueError:
        return math.nan


def fact(a):
    if not STRICT and a > 18:
        raise Open      # the table of large factorials is not exact; see space "fact"
    if a == math.inf:
        return a
    if a != a or a < 0 or a != math.floor(a):
        raise Open
    return math.inf if a > 170 else float(math.factorial(int(a)))


def mul(a, b):
    return a * b


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": mul, "/": div, "%": rem, "^": fpow,
       "<": lambda a, b: float(a < b), ">": lambda a, b: float(a > b), "==": lambda a, b: float(a == b), "!=": lambda a, b: float(a != b),
       "<=": lambda a, b: float(a <= b), ">=": lambda a, b: float(a >= b)}


def bessel_j(n, x):
    m = 400
    return sum(math.cos(n * t - x * math.sin(t)) for t in ((k + 0.5) * math.pi / m for k in range(m))) / m


def simpson(f, top, m):
    h = top / (2 * m)
    return (f(0) + f(top) + 4 * sum(f((2 * k + 1) * h) for k in range(m)) + 2 * sum(f(2 * k * h) for k in range(1, m))) * h / 3


def bessel_y(n, x):
    if x <= 0:
        raise Open
    a = simpson(lambda t: math.sin(x * math.sin(t) - n * t), math.pi, 6000)
    b = simpson(lambda t: (math.exp(n * t) + (-1) ** n * math.exp(-n * t)) * math.exp(-x * math.sinh(t)), math.asinh(60 / x) + 1, 4000)
    return (a - b) / math.pi


def fma(a, b, c):
    return float(Fraction(a) * Fraction(b) + Fraction(c))


def rnd(x):
    return math.copysign(math.floor(abs(x) + 0.5), x)


def gamma(x):
    if x == math.floor(x) and x <= 0:
        raise Open
    return math.gamma(x)


def lgamma(x):
    if x == math.floor(x) and x <= 0:
        raise Open
    return math.lgamma(x)


def log(f, lim=0.0):
    def g(x):
        if x == lim:
            return -math.inf
        return f(x)
    return g


def rowmax(*a):
    return max(a)


F1 = dict(acos=math.acos, acosh=math.acosh, asin=math.asin, asinh=math.asinh, atan=math.atan, atanh=lambda x: math.copysign(math.inf, x) if abs(x) == 1 else math.atanh(x),
          cbrt=lambda x: math.copysign(abs(x) ** (1 / 3), x), ceil=lambda x: float(math.ceil(x)), cos=math.cos, cosh=math.cosh, erf=math.erf, exp=math.exp, exp2=lambda x: 2.0 ** x,
          exp10=lambda x: 10.0 ** x, expm1=math.expm1, fabs=math.fabs, floor=lambda x: float(math.floor(x)), j0=lambda x: bessel_j(0, x), j1=lambda x: bessel_j(1, x),
          lgamma=lgamma, log=log(math.log), log1p=log(math.log1p, -1.0), log2=log(math.log2), log10=log(math.log10), round=rnd, sin=math.sin, sinh=math.sinh, sqrt=math.sqrt,
          tan=math.tan, tanh=math.tanh, tgamma=gamma, trunc=lambda x: float(math.trunc(x)), y0=lambda x: bessel_y(0, x), y1=lambda x: bessel_y(1, x), abs=math.fabs)
F2 = dict(atan2=math.atan2, copysign=math.copysign, fdim=lambda a, b: max(a - b, 0.0), fmax=max, fmin=min, fmod=rem, hypot=math.hypot,
          nextafter=math.nextafter, remainder=lambda a, b: math.nan if b == 0 else math.remainder(a, b), pow=fpow)
FI1 = dict(jn=bessel_j, yn=bessel_y)     # integer, float
FI2 = dict(ldexp=math.ldexp, scalbn=math.ldexp)    # float, integer
F3 = dict(fma=fma)
FN = dict(max=rowmax, min=lambda *a: min(a), avg=lambda *a: sum(a) / len(a))
F3["if"] = lambda a, b, c: b if a != 0 else c
ARITY = {}
for d, n in ((F1, (1, 1)), (F2, (2, 2)), (FI1, (2, 2)), (FI2, (2, 2)), (F3, (3, 3)), (FN, (1, 9999))):
    for k in d:
        ARITY[k] = n
FUN = dict(F1, **F2, **F3, **FN)
FUN.update({k: (lambda f: lambda a, b: f(int(a), b))(f) for k, f in FI1.items()})
FUN.update({k: (lambda f: lambda a, b: f(a, int(b)))(f) for k, f in FI2.items()})
LOOSE = {"j0", "j1", "jn", "y0", "y1", "yn"}


def call(name, a):
    try:
        return FUN[name](*a)
    except ValueError:
        return math.nan
    except OverflowError:
        return -math.inf if name == "sinh" and a[0] < 0 else math.inf


class Parser:
    def __init__(self, text, env):
        self.t, self.i, self.env = [], 0, env
        p = 0
        while p < len(text):
            m = TOK.match(text, p)
            if not m:
                raise Bad("token")
            p = m.end()
            if m.group(1) is not None:
                self.t.append(("n", float(m.group(1)) * (SUF[m.group(2)] if m.group(2) else 1)))
            elif m.group(3) is not None:
                self.t.append(("v", m.group(3)))
            elif m.group(4) is not None:
                self.t.append(("o", m.group(4)))
            else:
                self.t.append(("v", "[" + m.group(5)))
        self.t.append(("o", ""))

    def op(self):
        k, v = self.t[self.i]
        return v if k == "o" else None

    def chain(self, ops, sub):
        a = sub()
        while self.op() in ops:
            o = self.op()
            self.i += 1
            a = BIN[o](a, sub())
        return a

    def cmp(self):
        return self.chain(("<", ">", "==", "!=", "<=", ">="), self.add)

    def add(self):
        return self.chain(("+", "-"), self.mul)

    def mul(self):
        return self.chain(("*", "/", "%"), self.unary)

    def unary(self):
        o = self.op()
        if o in ("+", "-"):
            self.i += 1
            v = self.unary()
            return -v if o == "-" else v
        a = self.post()
        if self.op() == "^":
            self.i += 1
            a = fpow(a, self.unary())
        return a

    def post(self):
        a = self.atom()
        while self.op() == "!":
            self.i += 1
            try:
                a = fact(a)
            except Open:
                self.open = True
                a = 1.0
        return a

    open = False

    def atom(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == "n":
            return v
        if k == "o":
            if v != "(":
                raise Bad("operand")
            a = self.cmp()
            if self.op() != ")":
                raise Bad("paren")
            self.i += 1
            return a
        if self.op() == "(":
            args = []
            while True:
                self.i += 1
                args.append(self.cmp())
                if self.op() == ")":
                    self.i += 1
                    break
                if self.op() != ",":
                    raise Bad("args")
            if v not in ARITY or not ARITY[v][0] <= len(args) <= ARITY[v][1]:
                raise Bad("arity")
            return call(v, args)
        if v in CONST:
            return CONST[v]
        if v in self.env:
            return self.env[v]
        self.open = True
        return 0.0

    def top(self):
        a = self.cmp()
        if self.op() != "" or self.i != len(self.t) - 1:
            raise Bad("junk")
        if self.open:
            raise Open
        return a


def evaluate(text, env=None):
    """value, or None when it is malformed, or Open"""
    try:
        return Parser(text, env or {}).top()
    except Bad:
        return None
    except RecursionError:
        raise Open


def same(a, b, tol=1e-12):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b), 1.0 if tol > 1e-9 else 0.0)


STRICT = False
SENT = "987654321"


def calc(srv, exprs, tol=1e-12):
    """runs all expressions through one calc, checks each; returns printed values"""
    exprs = [e for e in exprs if e]
    inp = "".join(e + "\n" + SENT + "\n" for e in exprs)
    r = srv.run(["calc", "-f", "float"], stdin=inp.encode())
    srv.extra += len(exprs)
    if r.rc != 0:
        if len(exprs) == 1:
            raise Violation("calc of %r: %s" % (exprs[0], r.brief()))
        h = len(exprs) // 2
        calc(srv, exprs[:h], tol)
        calc(srv, exprs[h:], tol)
        raise Violation("calc fails only on the whole block starting %r: %s" % (exprs[0], r.brief()))
    out = r.out.decode("latin-1").split("\n")
    i, bad = 0, 0
    for e in exprs:
        got = None
        if out[i] != "9.87654321e8":
            got = out[i]
            i += 1
        if i >= len(out) or out[i] != "9.87654321e8":
            raise Violation("calc of %r: unexpected output %r" % (e, out[max(0, i - 2):i + 3]))
        i += 1
        try:
            exp = evaluate(e)
        except Open:
            bad += got is None
            continue
        if exp is None:
            bad += 1
            if got is not None:
                raise Violation("calc of %r, which is malformed, gives %r" % (e, got))
            continue
        if got is None:
            raise Violation("calc of %r: expected %r, got an error" % (e, exp))
        if not same(float(got), exp, tol):
            raise Violation("calc of %r: expected %r, got %r" % (e, exp, got))
    if out[i:] != [""]:
        raise Violation("calc wrote too much: %r" % (out[i:i + 3],))
    if bool(bad) != bool(r.err):
        raise Violation("calc: %d malformed expressions, but the standard error is %r" % (bad, r.err[:200]))
    return out[:40]


T1 = ["1", "2", "3", "+", "-", "*", "^", "!", "(", ")", "<"]
T2 = ["1", "2", "+", "-", ",", "max(", "abs(", "if(", ")"]
T3 = ["2", "5", "M_E", "/", "%", ">=", "==", "!=", "!", "(", ")"]
OPS = ["+", "-", "*", "/", "%", "^", "<", ">", "<=", ">=", "==", "!="]
TC = (["p", "q", "2", "+", "-", "*", "(", ")"], ["c2", "[p]", "[+1]", "+", "-", "!", "<"])
FAR = ["0", "-0", "1e-12", "1e-8", "-1e-9", "1e-300", "1e-5", "30", "-30", "170.5", "300", "1e6", "-1e6", "123456789", "1e15", "1e100", "1e200", "-1e200", "0.9990234375", "1.0009765625"]
GRID = ["0", "1", "2", "3", "10", "0.5", "0.25", "-1", "-2", "-0.5", "-3.5", "100"]


def shapes(v, ops):
    if len(v) == 1:
        yield v[0]
        return
    for k in range(1, len(v)):
        for a in shapes(v[:k], ops[:k - 1]):
            for b in shapes(v[k:], ops[k:]):
                yield "(%s%s%s)" % (a, ops[k - 1], b)


ROWS = [(b"1", b"2"), (b"2", b"1"), (b"-1", b"0.5"), (b"0", b"3"), (b"3", b""), (b"7", b"7")]


def run(srv, case):
    space = case[0]
    if space == "tokens":
        _, al, pre, n = case
        al = (T1, T2, T3)[al]
        return tuple(calc(srv, ["".join(pre + t) for t in itertools.product(al, repeat=n)]))
    if space == "chain":
        _, ops, dec = case
        v = ["2", "3", "5", "7"][:len(ops) + 1]
        es = []
        decs = [("", ""), ("-", ""), ("", "!"), ("-", "!")]
        for d in itertools.product(decs if dec else decs[:1], repeat=len(v)):
            w = [a + x + b for x, (a, b) in zip(v, d)]
            s = w[0]
            for o, x in zip(ops, w[1:]):
                if s.endswith("!") and o.startswith("="):
                    s += "+0"
                s += o + x
            es.append(s)
        if not dec:
            es += list(shapes(v, ops))
        return tuple(calc(srv, es))
    if space == "func":
        _, f = case
        lo, hi = ARITY[f]
        es = []
        for n in range(1, 4):
            if lo <= n <= hi:
                es += ["%s(%s)" % (f, ",".join(a)) for a in itertools.product(GRID if n < 3 else GRID[:8:2] + GRID[7:9], repeat=n)]
        tol = 1e-8 if f in LOOSE else 1e-11
        if f not in LOOSE:
            es += ["%s(%s)" % (f, a) for a in FAR] if lo == 1 else []
            es += ["%s(%s)" % (f, ",".join(a)) for a in itertools.product(FAR, repeat=2)] if lo <= 2 <= hi and f not in FI2 and f not in ("fmod", "remainder", "nextafter") else []
        if f in FI1 or f in FI2:
            k = 0 if f in FI1 else 1
            es = [e for e in es if "." not in e[:-1].split("(")[1].split(",")[k] and not e[:-1].split("(")[1].split(",")[k].startswith("-") and "100" not in e and not (f in FI1 and "(10" in e)]
        if f in FI1:
            es += ["%s(%d,%s)" % (f, n, x) for n in range(-6, 7) for x in ("0.5", "1", "3", "7.25", "20")]
        if f in FI2:
            es += ["%s(%s,%d)" % (f, x, n) for x in ("1", "-1.5", "0", "3e10", "1e-20") for n in [-1000, -300, -200, -129, -128, -127, -33, -1] + [0, 31, 32, 33, 63, 64, 127, 128, 129, 200, 255, 256, 300, 900]]
        if f == "fma":
            es += ["fma(%s)" % a for a in ("134217729,134217729,-18014398777917440", "33554433,33554431,-1125899906842624", "1e16,1e16,1", "3,5,-15", "94906267,94906267,-9007199515875289")]
        o = calc(srv, es, tol)
        bad = ["%s(%s)" % (f, ",".join(["1"] * n)) for n in range(0, 5) if not lo <= n <= hi]
        bad += ["%s(1" % f, "%s)" % f, "2%s(1)" % f if f not in ("exp10",) else "(2)exp10(1)"]
        calc(srv, bad)
        return tuple(o)
    if space == "fact":
        global STRICT
        STRICT = True
        try:
            return tuple(calc(srv, ["%d!" % n for n in range(0, 175)] + ["(%d-%d)!" % (n + 2, 2) for n in range(0, 175)]))
        finally:
            STRICT = False
    if space == "const":
        return tuple(calc(srv, list(CONST) + ["-" + c for c in CONST] + [c + "*2" for c in CONST] + ["nosuch(1)", "1 2", "1=2", "#", "", "5$"]))
    if space == "names":
        # names that begin like functions or constants, constants next to operators
        return tuple(calc(srv, ["pi+e", "e+pi", "exp(e)", "max(pi,e)", "M_2_PI+M_PI_2", "pi!=e", "pi<e", "abs(abs(-2))", "max(max(1,2),max(3,-4))", "-max(1,2)^2", "2^max(1,2)!", "if(1<2,3,4)+5"]))
    if space == "special":
        v = ["0", "-0", "1", "-1", "M_INF", "M_NEG_INF", "(0/0)", "M_MAX", "M_MIN_POS", "9007199254740993", "9007199254740992", "4503599627370497", "4503599627370496.5", "1.0000000001", "1.00000000000001", "1e-10", "1e-20", "(-0)", "16777217", "16777216"]
        es = ["%s%s%s" % (a, o, b) for a in v for b in v for o in OPS if (o != "^" or "(" not in a + b) and (o != "%" or "e-" not in b)]
        es += ["1/(%s%s%s)" % (a, o, b) for a in v[:4] for b in v[:4] for o in "+-*"]
        es += ["if(%s,2,3)" % a for a in v] + ["-(%s)" % a for a in v] + ["1/-(%s)" % a for a in v]
        return tuple(calc(srv, es))
    if space == "commas":
        _, pre, n = case
        return tuple(calc(srv, ["".join(pre + t) for t in itertools.product(["1", ",", "(", ")", "max(", "+"], repeat=n)]))
    if space == "deep":
        es = []
        for n in case[1]:
            es += ["(" * n + "3" + ")" * n, "(" * n + "3" + ")" * (n - 1), "(" * (n - 1) + "3" + ")" * n, "-" * n + "3", "+-" * n + "3", "3" + "!" * 0 + "+3" * n, "3" + "-1" * n, "1" + "*2" * min(n, 900), "1" + "/2" * min(n, 900), "2" + "^1" * n, "2" + "^2^0" * n, "2^" + "1^" * n + "3", "1" + "<1" * n]
            es += ["abs(-" * n + "2" + ")" * n, "max(1," * n + "2" + ")" * n, "max(" * n + "2" + ",1)" * n, "1+(" * n + "2" + ")" * n, "2*(1+" * min(n, 900) + "0" + ")" * min(n, 900), "(" * n + "1" + "+1)" * n, "2^(1*" * n + "2" + ")" * n, "1-(" * n + "2" + ")" * n]
            core = ["2!^3", "-2^2!", "2^-3!", "2*-3^2", "3-2-1", "8/4/2", "2^3^2", "7%4*2", "1<2<3", "1+2*3^2!", "2!*3!+1", "-2!", "--2", "3!!", "2-3*4<5"]
            es += [a * n + c + b * n for c in core for a, b in (("(", ")"), ("1-(", ")"), ("abs(", ")"), ("2^(0*", ")"), ("max(1,", ")"))]
            for f in FN:
                es += ["%s(%s)" % (f, ",".join("%d" % (i * 7 % (n + 1)) for i in range(n))), "%s(%s)" % (f, ",".join("%d" % -(i * 7 % (n + 1)) for i in range(n))), "%s(%s)" % (f, ",".join("%d" % i for i in range(n))), "%s(%s)" % (f, ",".join("%d" % -i for i in range(n)))]
            es += ["3" + "".join(o + "%d" % (i % 3 + 1) for i, o in zip(range(n), itertools.cycle(ops))) for ops in (["+", "*"], ["-", "*", "^"], ["^", "*", "-"], ["<", "+"], ["*", "/", "%", "+"])]
        return tuple(calc(srv, es))
    if space == "wide":
        _, n, exprs = case
        names = ["n%d" % (i + 1) for i in range(n)]
        rows = [[(i * 7 + 3 + r * 11) % 101 - 20 for i in range(n)] for r in range(3)]
        return cutrows(srv, names, rows, exprs)
    if space == "oddnames":
        _, names, exprs = case
        rows = [[(i * 7 + 3 + r * 11) % 13 - 4 for i in range(len(names))] for r in range(3)]
        return cutrows(srv, names, rows, exprs)
    _, exprs = case
    hdr = b" CDX\tp\tq\n"
    inp = hdr + b"".join(b"\t".join(r) + b"\n" for r in ROWS)
    args = ["cut"]
    for i, e in enumerate(exprs):
        args += ["-e", "n%d:%s" % (i, e)]
    r = srv.run(args, stdin=inp)
    srv.extra += len(exprs)
    if r.rc != 0:
        raise Violation("cut %r: %s" % (args, r.brief()))
    ls = r.out.decode().split("\n")
    if ls[0] != " CDX\t" + "\t".join("n%d" % i for i in range(len(exprs))) or len(ls) != len(ROWS) + 2:
        raise Violation("cut %r: %s" % (args, r.brief()))
    for row, l in zip(ROWS, ls[1:]):
        p, q = (float(x or b"0") for x in row)
        env = {"p": p, "q": q, "c1": p, "c2": q, "[p": p, "[+1": q}
        for e, g in zip(exprs, l.split("\t")):
            try:
                x = evaluate(e, env)
            except Open:
                continue
            if not same(float(g), x):
                raise Violation("cut -e %s on %r: expected %r got %r" % (e, row, x, g))
    return tuple(ls[:3])


def cutrows(srv, names, rows, exprs):
    """exprs: (expression for cdx, function of the row); every one alone and all together"""
    inp = (" CDX" + "".join("\t" + n for n in names) + "\n" + "".join("\t".join("%d" % v for v in r) + "\n" for r in rows)).encode()
    for es in [[e] for e in exprs] + [exprs]:
        args = ["cut"]
        for i, (e, _) in enumerate(es):
            args += ["-e", "v%d:%s" % (i, e)]
        r = srv.run(args, stdin=inp)
        srv.extra += len(es)
        want = [[BYCOL[f](row, *a) for _, (f, *a) in es] for row in rows]
        if any(f == "error" for _, (f, *a) in es):
            if len(es) == 1 and (r.rc == 0 or r.crashed or not r.err or b"\n" in r.out.strip(b"\n")):
                raise Violation("cut %r on columns %r: %s, expected an error" % (args, names[:12], r.brief()))
            continue
        ls = r.out.decode().split("\n")
        if r.rc != 0 or ls[0] != " CDX\t" + "\t".join("v%d" % i for i in range(len(es))) or len(ls) != len(rows) + 2:
            raise Violation("cut %r on columns %r: %s" % (args, names[:12], r.brief()))
        for row, w, l in zip(rows, want, ls[1:]):
            for (e, _), x, g in zip(es, w, l.split("\t")):
                if not same(float(g), float(x)):
                    raise Violation("cut -e %s with columns %r holding %r: expected %r got %r" % (e, names[:40], row[:40], x, g))
    return (len(names), len(exprs))


BYCOL = {
    "error": lambda r: None,
    "col": lambda r, i: r[i],
    "lin": lambda r, i, j: r[i] * 2 - r[j],
    "max": lambda r, *c: max(r[i] for i in c),
    "min": lambda r, *c: min(r[i] for i in c),
    "avg": lambda r, *c: sum(r[i] for i in c) / len(c),
    "minmax": lambda r, a, b: max(r[i] for i in a) - min(r[i] for i in b),
    "sum": lambda r, *c: sum(r[i] for i in c),
    "const": lambda r, v: v,
}


def widexprs(n):
    es = []
    for i in sorted({0, 1, 8, 9, 10, 15, 16, 17, 31, 63, 98, 99, 100, 127, 255, 256, 299, n - 1}):
        if i < n:
            es += [("c%d" % (i + 1), ("col", i)), ("n%d" % (i + 1), ("col", i)), ("[%d]" % (i + 1), ("col", i)), ("[n%d]" % (i + 1), ("col", i)), ("[+%d]" % (n - i), ("col", i)), ("n%d*2-c%d" % (i + 1, n - i), ("lin", i, n - i - 1))]
            es += [("max([1-%d])" % (i + 1), ("max", *range(i + 1))), ("min([n1-n%d])" % (i + 1), ("min", *range(i + 1))), ("avg([%d-%d])" % (i + 1, n), ("avg", *range(i, n))), ("max([%d-%d],[n1])" % (i + 1, n), ("max", 0, *range(i, n))), ("max([n%d-n%d])-min([1,%d])" % (i + 1, n, i + 1), ("minmax", tuple(range(i, n)), (0, i)))]
            es += [("+".join("c%d" % (k + 1) for k in range(i + 1)), ("sum", *range(i + 1))), ("max(" + ",".join("n%d" % (k + 1) for k in range(i + 1)) + ")", ("max", *range(i + 1)))]
    return es


NM = ["E", "Pi", "PI", "m_e", "M_PI_22", "c", "cc1", "c1x", "\u00e9", "a_b", "x1", "pie", "ee", "sin", "Max", "n\u00e8d", "\u03c0", "X", "x", "a_b_c", "x12345678901234567890", "\u00e9\u00e9_1"]


def colexprs(n):
    env = {"p": 1.0, "q": 1.0, "c1": 1.0, "c2": 1.0, "[p": 1.0, "[+1": 1.0}
    for tc, k in itertools.product(TC, range(1, n + 1)):
        for t in itertools.product(tc, repeat=k):
            # skip what would run together into another name
            if any(a[-1].isalnum() and b[0].isalnum() for a, b in zip(t, t[1:])):
                continue
            e = "".join(t)
            try:
                if evaluate(e, env) is None:
                    continue
            except Open:
                pass
            yield e


def cases(tier):
    th = tier == "thorough"
    for al in range(3):
        t = (T1, T2, T3)[al]
        top = 7 if th else 6
        yield ("tokens", al, (), 1)
        yield ("tokens", al, (), 2)
        for a in t:
            yield ("tokens", al, (a,), 2)
            for b in t:
                yield ("tokens", al, (a, b), 2)
                yield ("tokens", al, (a, b), 3)
                if top > 5:
                    for c in t:
                        yield ("tokens", al, (a, b, c), 3)
                        if top > 6:
                            for d in t:
                                yield ("tokens", al, (a, b, c, d), 3)
    for ops in itertools.product(OPS, repeat=2):
        yield ("chain", ops, 1)
        yield ("chain", ops, 0)
    for ops in itertools.product(OPS, repeat=3):
        yield ("chain", ops, 0)
        if th:
            yield ("chain", ops, 1)
    for f in ARITY:
        yield ("func", f)
    yield ("const",)
    yield ("special",)
    for n in range(1, 4):
        yield ("commas", (), n)
    for pre in itertools.product(["1", ",", "(", ")", "max(", "+"], repeat=2):
        yield ("commas", pre, 2)
        yield ("commas", pre, 3)
        yield ("commas", pre, 4)
        if th:
            yield ("commas", pre, 5)
    for n in (range(1, 20), range(20, 40)):
        yield ("deep", tuple(n))
    for n in (63, 64, 65, 99, 100, 127, 128, 129, 200):
        yield ("deep", (n,))
    for n in (2, 9, 10, 11, 20, 40, 120, 300):
        es = widexprs(n)
        for i in range(0, len(es), 13):
            yield ("wide", n, tuple(es[i:i + 13]))
    es = [(x, ("col", i)) for i, x in enumerate(NM)] + [("[%s]" % x, ("col", i)) for i, x in enumerate(NM)] + [("%s*2-%s" % (x, NM[-1 - i]), ("lin", i, len(NM) - 1 - i)) for i, x in enumerate(NM)]
    es += [(x, ("error",)) for x in ("nosuch", "e1", "A_b", "Sin", "\u00e9\u00e9", "a_", "x2+x1", "c0", "n1", "cc2", "[nosuch]", "max([nosuch-x])", "sin(", "Max(1)", "2Pi")]
    es += [("pi", ("const", math.pi)), ("e", ("const", math.e)), ("max(e,2)", ("const", math.e))]
    yield ("oddnames", tuple(NM), tuple(es))
    yield ("fact",)
    yield ("names",)
    blk = []
    for e in colexprs(6 if th else 5):
        blk.append(e)
        if len(blk) == 40:
            yield ("columns", tuple(blk))
            blk = []
    if blk:
        yield ("columns", tuple(blk))
