"""C23: numbers are read and written with the value they denote."""
import itertools
import re
from decimal import Decimal
from core import Violation, strings
import ref

BOUNDS = {
    "quick": "every string of up to 5 bytes over {0,1,9,.,e,-,+,K,k,space,x} as a value, every digit string of up to 6 digits x every exponent -9..9, long digit strings, every suffix letter; "
             "every quotient a/b (a < 40, b < 24), every power of two from 2^-60 to 2^90 and its neighbours, powers of ten and their multiples, each with both signs, in every format and precision 0..6 (some up to 60); every count with sign, suffix and junk and every string of up to 3 of 10 characters as an option value; 2,000 literals in expressions and in options",
    "thorough": "as quick with strings of up to 6 bytes, a < 200, b < 60",
}
RULE = "distinct blocks of results; every block holds many numbers"
ASSUMPTIONS = ["a parsed value may differ from the nearest double by one part in 1e13 (the parser does not promise correct rounding)",
               "power2 and power10 are documented only by example; decided: the printed value is within 9.2% of the number and, below 1000, the number rounded"]
AL = b"019.e-+Kk x"
SUF = {c: (1024.0 if c.isupper() else 1000.0) ** ("KMGTPEZY".index(c.upper()) + 1) for c in "KMGTPEZYkmgtpezy"}
SENT = "float,987654321"


def parse_block(srv, vals):
    inp = b"".join(v + b"\tz\n" for v in vals)
    r = srv.run(["cut", "-e", "v:c1"], stdin=inp)
    srv.extra += len(vals)
    out = r.out.decode("latin-1").split("\n")
    if r.rc != 0 or len(out) != len(vals) + 1:
        if len(vals) > 1:
            h = len(vals) // 2
            parse_block(srv, vals[:h])
            parse_block(srv, vals[h:])
        raise Violation("reading %r as numbers: %s" % (vals[:3], r.brief()))
    for v, o in zip(vals, out):
        x, g = ref.as_float(v), float(o)
        if not (x == g or abs(x - g) <= 1e-13 * abs(x)):
            raise Violation("the value of %r is %r, but cdx reads %r" % (v, x, o))
    return out[:30]


def near(g, v):
    return g == v


def check_fmt(fmt, v, text):
    base, _, prec = fmt.partition(".")
    if base in ("power2", "power10"):
        m = re.fullmatch(r"(-?[0-9]+(?:\.[0-9]+)?)([A-Za-z]?)", text)
        if not m or (m.group(2) and m.group(2) not in SUF):
            return "not a number with a suffix"
        if m.group(2) and (m.group(2).isupper() != (base == "power2")):
            return "wrong kind of suffix"
        g = float(m.group(1)) * SUF.get(m.group(2), 1.0)
        a = abs(v)
        if a < 999.4:
            return None if abs(g - v) <= 0.5 and not m.group(2) else "not the number rounded"
        if abs(g - v) > 0.092 * a or (m.group(2) not in "Yy" and abs(float(m.group(1))) > 1000):
            return "too far from the number"
        return None
    if not prec:
        if float(text) != v:
            return "does not read back as the same number"
        if base == "plain" and "e" in text:
            return "plain has no exponent"
        if base == "float" and "e" not in text:
            return "float has an exponent"
        return None
    n = int(prec)
    if base == "short":
        base = "float" if "e" in text else "plain"
    if base == "plain":
        return None if text == "%.*f" % (n, v) else "expected %.*f" % (n, v)
    e = "%.*e" % (n, v)
    m, _, x = e.partition("e")
    e = m + "e" + str(int(x))
    return None if text == e else "expected " + e


def print_block(srv, fmt, exprs):
    inp = "".join("%s,%s\n" % (fmt, e) for e in exprs)
    r = srv.run(["calc"], stdin=inp.encode())
    srv.extra += len(exprs)
    out = r.out.decode("latin-1").split("\n")
    if r.rc != 0 or len(out) != len(exprs) + 1:
        raise Violation("printing %r...: %s" % (exprs[:3], r.brief()))
    for e, o in zip(exprs, out):
        v = val(e)
        p = check_fmt(fmt, v, o)
        if p:
            raise Violation("calc prints %s (%r) in format %s as %r: %s" % (e, v, fmt, o, p))
    # the same formats given as an option
    r2 = srv.run(["calc", "-f", fmt], stdin="".join(e + "\n" for e in exprs).encode())
    if r2.out != r.out or r2.rc != 0:
        raise Violation("calc -f %s: %s, but as a prefix %r" % (fmt, r2.brief(), r.out[:300]))
    return out[:30]


def val(e):
    return float(eval(e.replace("^", "**").replace("K", "*1024")))  # noqa: S307 (our own small expressions)


ROWS = 1100


def run(srv, case):
    space = case[0]
    if space == "strings":
        _, pre, n, al = case
        return tuple(parse_block(srv, [pre + s for s in strings(al, n, n)]))
    if space == "list":
        return tuple(parse_block(srv, list(case[1])))
    if space == "print":
        _, fmt, exprs = case
        return tuple(print_block(srv, fmt, exprs))
    if space == "literal":
        # a number as a number: in an expression and as the mean of a distribution
        for s in case[1]:
            x = ref.as_float(s.encode())
            for args, inp in ((["calc", "-f", "float"], s + "\n"), (["filegen", "-c", "normal,%s,0,float" % s, "-n", "1"], "")):
                r = srv.run(args, stdin=inp.encode())
                srv.extra += 1
                g = float(r.out) if r.rc == 0 and r.out.strip() else None
                if g is None or not (x == g or abs(x - g) <= 1e-13 * abs(x)):
                    raise Violation("%r with %r: the number is %r, but %s" % (args, inp, x, r.brief()))
        return (case[1][0],)
    if space == "signed":
        # where counting starts
        _, s = case
        r = srv.run(["cat", "-n", "n," + s], stdin=b"x\ny\n")
        m = re.fullmatch(r"([+-]?[0-9]+)([KMGTPEZYkmgtpezy]?)", s)
        if m:
            n = int(m.group(1)) * int(SUF.get(m.group(2), 1))
            if -2 ** 63 <= n < 2 ** 63 and (r.rc != 0 or r.out != b"%d\tx\n%d\ty\n" % (n, n + 1)):
                raise Violation("cat -n n,%s: expected lines %d and %d, got %s" % (s, n, n + 1, r.brief()))
        elif s and "," not in s and (r.rc == 0 or r.crashed):
            raise Violation("cat -n n,%s: expected an error, got %s" % (s, r.brief()))
        return (r.out,)
    # the size of an option
    _, s = case
    inp = b"x\n" * ROWS
    r = srv.run(["transpose", "-n", s], stdin=inp)
    m = re.fullmatch(r"\+?([0-9]+)([KMGTPEZYkmgtpezy]?)", s)
    if m:
        n = int(m.group(1)) * int(SUF.get(m.group(2), 1))
        exp = b"\t".join([b"x"] * min(n, ROWS)) + b"\n"
        if r.rc != 0 or r.out != exp:
            raise Violation("transpose -n %s: expected %d lines, got rc=%d with %d" % (s, n, r.rc, r.out.count(b"x")))
    elif s and (r.rc == 0 or r.crashed or r.out):
        raise Violation("transpose -n %s: expected an error, got %s" % (s, r.brief()))
    return (r.out,)


FMTS = ["plain", "short", "float", "power2", "power10"] + ["%s.%d" % (f, n) for f in ("plain", "short", "float") for n in (0, 1, 2, 3, 6, 9, 10, 15, 16, 17, 18, 20, 32, 60)]


def chunks(l, n):
    l = list(l)
    return [tuple(l[i:i + n]) for i in range(0, len(l), n)]


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3):
        yield ("strings", b"", n, AL)
    for a in AL:
        a = bytes([a])
        yield ("strings", a, 3, AL)
        for b in AL:
            b = a + bytes([b])
            yield ("strings", b, 3, AL)
            if th:
                for c in AL:
                    yield ("strings", b + bytes([c]), 3, AL)
    l = []
    for x in ("0", "1", "9", "12", "99", "123", "999", "1000", "1024", "65535", "123456", "999999", "0.1", "0.5", "1.25", "3.14159", "12.5", "0.001"):
        for e in range(-9, 10):
            for s in ("", "-"):
                l.append(("%s%se%d" % (s, x, e)).encode())
                l.append(("%s%sE%+d" % (s, x, e)).encode())
        for c in "KMGTPEZYkmgtpezyBbXx%":
            l.append((x + c).encode())
            l.append(("-" + x + c + "1").encode())
    for n in list(range(1, 40)) + [100, 200, 280, 290, 295, 300, 301, 303, 305, 308, 309, 400]:
        l += [b"9" * n, b"1" + b"0" * n, b"0" * n + b"7", b"0." + b"0" * n + b"3", b"0." + b"3" * n, b"1e%d" % n, b"1e-%d" % n, b"12345678901234567890"[:n], b"0." + b"12345678901234567890"[:n]]
    for c in chunks([x for x in l if abs(ref.as_float(x)) < 1e300 and (ref.as_float(x) == 0 or abs(ref.as_float(x)) > 1e-306)], 400):
        yield ("list", c)
    A, B = (200, 60) if th else (40, 24)
    ex = ["%d/%d" % (a, b) for a in range(0, A) for b in range(1, B)]
    ex += ["2^%d" % k for k in range(0, 91)] + ["2^-%d" % k for k in range(1, 61)]
    ex += ["%d%s2^%d" % (a, o, k) for a in (3, 5, 7) for o in "*" for k in range(0, 80, 3)]
    ex += ["2^%d%s1" % (k, s) for k in range(1, 53) for s in "+-"]
    ex += ["%d*10^%d" % (a, k) for a in (1, 2, 5, 9, 11, 99, 999) for k in range(0, 20)]
    ex += [str(x) for x in list(range(980, 1140)) + [9949, 9950, 9951, 9999, 10000, 10001, 99499, 99500, 998999, 999000, 999001, 999499, 999500, 999999, 1000000, 1048575, 1048576, 1048577, 1022976, 10188, 10239, 10240, 10241, 10751, 10752]]
    ex += ["-(" + e + ")" for e in ex[:A * (B - 1):7] + ex[A * (B - 1):]]
    for f in FMTS:
        for c in chunks(ex, 500):
            yield ("print", f, c)
    lit = [a + b + c for a in ("0", "00", "1", "7", "10", "012", "999", "65536") for b in ("", ".", ".0", ".5", ".25", ".000", ".125") for c in ["", "k", "K", "M", "g"] + [e + s + d for e in "eE" for s in ("", "+", "-") for d in ("0", "1", "5", "05", "12")]]
    for c in chunks(lit, 60):
        yield ("literal", c)
    for n in (1, 2, 3):
        for t in itertools.product("019+-kK.x,", repeat=n):
            yield ("count", "".join(t))
            yield ("signed", "".join(t))
    for a in ("", "+", "-"):
        for b in (2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 18):
            for d in (-1, 0, 1):
                yield ("signed", "%s%d" % (a, b + d))
        for c in "kKmMgGtTpPeE":
            for n in ("0", "1", "7", "8", "007"):
                yield ("signed", a + n + c)
    for s in ["0", "1", "2", "7", "10", "999", "1000", "1100", "1101", "1k", "1K", "2k", "1M", "1Y", "9y", "+5", "05", "+05", "-1", "x", "5x", "k", "1kk", "1.5", "1e2", " 1", "1 ", "18446744073709551615", "18446744073709551616",
              "99999999999999999999999999", "1,000"] + ["3" + c for c in "gGtTpPeEzZ"]:
        yield ("count", s)
