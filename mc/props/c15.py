"""C15: every matcher accepts exactly the values its description says, with every combination of modifiers."""
import itertools
import re
from core import Violation, strings
import ref


def sstr(al, lo, hi):
    return [x.decode() for x in strings([a.encode() for a in al], lo, hi)]

BOUNDS = {
    "quick": "every pattern of up to 3 characters over {a b A} and up to 2 over {a é É} for prefix/suffix/infix/exact x all 16 subsets of "
             "{utf8 not case trim}+null, every glob of up to 5 characters over {a b * ?}, 30 regular expressions, all small length bounds, all number-like "
             "strings of up to 5 characters over {1 0 . - e + ,}, IP-like strings, ranges (6 operators, one and two bounds, 5 comparisons), multi-patterns; "
             "each against every target of up to 4 characters over {a b A} plus white space, UTF-8 and invalid UTF-8 targets; letters whose cases differ in length; every byte value; values and patterns of up to 70,000 bytes around powers of two; up to 300 patterns, files of 1,000; values with newlines, tabs and quotes",
    "thorough": "as quick with all globs up to 6 characters, patterns up to 4, numbers of up to 6 characters",
}
RULE = "distinct (spec class, set of accepted targets) pairs"
ASSUMPTIONS = ["comment, hash and slash are not decided for blank targets (documentation and code differ)",
               "regular expressions are limited to the common subset of the regex crate and Python's re"]
USPACE = " \t\n\x0b\x0c\r\x85\xa0\u2003\u3000"


def low(v):
    return "".join(c.lower() for c in v) if isinstance(v, str) else bytes(c + 32 if 65 <= c <= 90 else c for c in v)


def glob(p, v, case):
    """dynamic programming over the documented meaning of * and ?"""
    star, q = (("*", "?") if isinstance(p, str) else (42, 63))
    if case and isinstance(p, str):
        p, v = [low(c) for c in p], [low(c) for c in v]
    elif case:
        p, v = low(p), low(v)
    row = [True] + [False] * len(v)
    for c in p:
        new = [row[0] and c == star]
        for j in range(1, len(v) + 1):
            if c == star:
                new.append(row[j] or new[j - 1])
            else:
                new.append(row[j - 1] and (c == q or c == v[j - 1]))
        row = new
    return row[-1]


def is_float(s):
    if s[:1] == b"-":
        s = s[1:]
    m, e, x = s.partition(b"e") if b"e" in s else s.partition(b"E")
    if e:
        if x[:1] in (b"-", b"+"):
            x = x[1:]
        if not x.isdigit():
            return False
    a, d, b = m.partition(b".")
    if d:
        return b.isdigit() and (a == b"" or a.isdigit())
    return m.isdigit()


def is_int(s):
    return (s[1:] if s[:1] == b"-" else s).isdigit()


def is_num(s):
    if s[:1] == b"-":
        s = s[1:]
    a, d, b = s.partition(b".")
    return a.isdigit() and (not d or b.isdigit())


def is_ip(s):
    p = s.split(b".")
    return len(p) == 4 and all(x.isdigit() and len(x) <= 3 and int(x) < 256 for x in p)


OPS = {"<": lambda c: c < 0, "<=": lambda c: c <= 0, ">": lambda c: c > 0, ">=": lambda c: c >= 0, "==": lambda c: c == 0, "!=": lambda c: c != 0}
WORD = {"<": "LT", "<=": "LE", ">": "GT", ">=": "GE", "==": "EQ", "!=": "NE"}


def in_range(spec, t):
    comp, bounds = spec
    parts = [x for x in comp.split(".") if x != "rev"]
    less = 1 if "rev" in comp.split(".") else -1
    f = ref.KEYFN[ref.ALIAS.get(parts[0], parts[0]) if parts else "plain"]
    for op, v in bounds:
        x, y = f(t), f(v.encode())
        if not OPS[op](0 if x == y else (less if x < y else -less)):
            return False
    return True


def accepts(mods, method, pat, t):
    """documented meaning; pat is str, t bytes"""
    utf, case = "utf8" in mods, "case" in mods
    v = t.decode("utf-8", "replace") if utf else t
    trim = "trim" in mods or method in ("blank", "comment", "hash", "slash")
    null = "null" in mods or method == "blank"
    if trim:
        if utf:
            v = v.strip(USPACE)
        else:
            while v and v[0] <= 32:
                v = v[1:]
            while v and v[-1] <= 32:
                v = v[:-1]
    if null and not v:
        ok = True
    else:
        raw = v.encode() if utf else v
        p = pat if (utf or not isinstance(pat, str)) else pat.encode()
        if method in ("prefix", "suffix", "infix", "substr", "substring", "exact", "comment", "hash", "slash"):
            if method in ("hash", "slash"):
                p = {"hash": "#", "slash": "//"}[method]
                p = p if utf else p.encode()
            if case and method not in ("comment", "hash", "slash"):
                v, p = low(v), low(p)
            ok = {"suffix": v.endswith, "infix": v.__contains__, "substr": v.__contains__, "substring": v.__contains__,
                  "exact": v.__eq__}.get(method, v.startswith)(p)
        elif method == "glob":
            ok = glob(p, v, case)
        elif method in ("regex", ""):
            p = p.replace("$", "\\Z") if utf else p.replace(b"$", b"\\Z")
            ok = re.search(p, v, (re.I if case else 0) | (0 if utf else re.A)) is not None
        elif method == "length":
            lo, _, hi = pat.partition(",")
            ok = len(v) >= int(lo) and (not hi or len(v) <= int(hi))
        elif method == "empty":
            ok = len(v) == 0
        elif method == "blank":
            ok = False
        elif method == "yes":
            ok = True
        elif method == "range":
            ok = in_range(pat, raw)
        elif method in ("file-exact", "fileexact"):
            lines = [l if utf else l.encode() for l in (pat or FILE)]
            ok = (low(v) in [low(x) for x in lines]) if case else v in lines
        else:
            ok = {"float": is_float, "integer": is_int, "number": is_num, "ip": is_ip}[method](raw)
    return ok != ("not" in mods)


FILE = ["a", "bA", "ab", "é", "b b"]
REGEX = ["a", "^a", "a$", "^a$", "ab", "a.b", "a*", "a+b", "(ab)+", "a|b", "^(a|b)$", "[ab]A", "[^a]", "a{2}", "^a{1,2}b?$", "A", "[A-Z]", "\\.", "\\s",
         "^\\S+$", "\\w\\w", "(a)(b)", "a?b?A?$", "^$", "", "^[^b]*$", "b.*a", "\\d", "a\\b", "^.a"]
BASE = list(strings(b"abA", 0, 4))
EXTRA = [b" a", b"a ", b"  ", b" ", b" ab ", b"\x01a\x01", b"a b", b" a b ", "é".encode(), "É".encode(), "aé".encode(), "Éa".encode(), "éa É".encode(),
         "\u00a0a\u00a0".encode(), "\u2003".encode(), b"a\xffb", b"\xff", b"1", b"12", b"1.5", b".", b"a.b", b"#", b"# a", b" #", b"//", b" // a", b"/", b"a#",
         b"abc", b"bA", b"b b", b"*", b"?", b"a*", b"aaaaab", b"ababab", b"bababa", b"AbAbAb"]
TARGETS = BASE + EXTRA
TARGETS_T = tuple(TARGETS)


def spec_str(mods, method, pat):
    return ".".join(list(mods) + ([method] if method else []))


def run(srv, case):
    space, where, mods, method, pat, targets = case
    ps = pat
    if method == "range":
        comp, bounds, form = pat
        pat = (comp, bounds)
        ps = (comp + "," if comp != "plain" or form == 2 else "")
        ps += ",".join("%s,%s" % (WORD[o], v) for o, v in bounds) if form else "".join(o + v for o, v in bounds)
    if method in ("file-exact", "fileexact"):
        srv.write_file("pats", "\n".join(pat or FILE).encode() + (b"" if pat and "" not in pat else b"\n"))
        ps = "pats"
    tl = TARGETS if targets is None else targets
    if where == "line":
        rows = [t for t in tl if not t.startswith(b" CDX")]
        inp = b"".join(t + b"\n" for t in rows)
        colspec = ""
    elif where == "quoted":
        # values with newlines, delimiters and quotes in them
        rows = [b'%d\t"%s"' % (i, t.replace(b'"', b'""')) for i, t in enumerate(tl)]
        inp = b"".join(t + b"\n" for t in rows)
        colspec = "2"
    else:
        rows = [b"%d\t%s" % (i, t) for i, t in enumerate(tl)]
        inp = b"".join(t + b"\n" for t in rows)
        colspec = "2"
    sub = pat
    multi = [m for m in mods if m in ("and", "or")]
    if multi:
        parts = pat
        ps = "^" + "^".join(parts)
        plain = [m for m in mods if m not in ("and", "or")]
        inner = [m for m in plain if m != "not"]
        f = (all if multi == ["and"] else any)
        acc = lambda t: f(accepts(inner, method, p, t) for p in parts) != ("not" in plain)
    else:
        acc = lambda t: accepts(mods, method, pat, t)
    exp = [r for r, t in zip(rows, tl) if acc(t)]
    arg = "%s,%s,%s" % (colspec, spec_str(mods, method, pat), ps)
    r = srv.run(["cgrep"] + (["--text-in", "ntq"] if where == "quoted" else []) + ["-p", arg], stdin=inp)
    out = b"".join(x + b"\n" for x in exp)
    if r.rc != 0 or r.out != out:
        got = r.out.split(b"\n")[:-1]
        bad = [x for x in got if x not in exp][:3], [x for x in exp if x not in got][:3]
        raise Violation("cgrep -p %r: wrongly selected %r, wrongly dropped %r; rc=%d %r" % (arg, bad[0], bad[1], r.rc, r.err[:200]))
    return (method, hash(r.out))


def subsets(xs):
    for n in range(len(xs) + 1):
        yield from itertools.combinations(xs, n)


def cases(tier):
    th = tier == "thorough"
    pats = list(sstr(["a", "b", "A"], 0, 4 if th else 3)) + [p for p in sstr(["a", "é", "É"], 1, 2) if set(p) - {"a"}] + ["a b", " a", "b "]
    full = list(subsets(("utf8", "not", "case", "trim", "null")))
    for method in ("prefix", "suffix", "infix", "exact"):
        for p in pats:
            for mods in full:
                if len(p) <= 2 or len(mods) <= 2:
                    yield ("string", "col", mods, method, p, None)
            yield ("string", "line", (), method, p, None)
            yield ("string", "line", ("not", "case"), method, p, None)
            yield ("string", "line", ("utf8", "not", "trim"), method, p, None)
    for p in ("a", "ab"):
        for method in ("substr", "substring"):
            yield ("string", "col", (), method, p, None)
    for p in sstr(["a", "b", "*", "?"], 0, 6 if th else 5):
        for mods in ((), ("case",), ("utf8",), ("not", "utf8", "case")):
            if len(p) <= 4 or not mods or th:
                yield ("glob", "col", mods, "glob", p, None)
    for p in ["é*", "?é", "*É*", "A*b", "**A", "a*b*a*b", "*ab*ab", "*a?b*", "?*?", "*?*?*"]:
        for mods in full:
            yield ("glob", "col", mods, "glob", p, None)
    asc = tuple(t for t in TARGETS if all(32 <= c < 127 for c in t))
    for p in REGEX:
        for mods in full:
            yield ("regex", "col", mods, "regex", p, asc)
        yield ("regex", "col", (), "", p, asc)
        yield ("regex", "line", ("not",), "regex", p, asc)
    for lo in range(0, 5):
        for hi in [""] + ["%d" % h for h in range(0, 6)]:
            for mods in full:
                yield ("length", "col", mods, "length", "%d%s" % (lo, "," + hi if hi else ""), None)
    notblank = tuple(t for t in TARGETS if t.strip(b" \x01") and t != "\u2003".encode())
    for mods in full:
        for where in ("col", "line"):
            yield ("const", where, mods, "empty", "", None)
            yield ("const", where, mods, "blank", "", None)
            yield ("const", where, mods, "yes", "", None)
            for m, p in (("hash", ""), ("slash", ""), ("comment", "a"), ("comment", "//"), ("comment", "abA")):
                yield ("const", where, mods, m, p, notblank)
            for m in ("file-exact", "fileexact"):
                yield ("file", where, mods, m, "", None)
    nums = tuple(strings(b"10.-e+", 0, 6 if th else 5)) + (b" 1", b"1 ", b"1e5e5", b"-1.5E-10", b"12345678901234567890", b"1,000", b"0x1", b"1.5.2", b"nan", b"inf")
    ips = tuple(b".".join(x) for n in (1, 2, 3, 4, 5) for x in itertools.product((b"0", b"255", b"256", b""), repeat=n)) + \
        (b"1.2.3.4", b"1.2.3.4 ", b"01.02.03.004", b"199.299.1.1", b"1.2.3.1000", b"a.b.c.d", b"1.2.3.4.", b"249.250.200.260")
    oddn = tuple(x.encode() for x in ("\u0663", "-\u0663", "\uff11\uff12", "1\u0663", "1.\u0663", "1e\u0663", "\u00b2", "\u0967.\u0967.1.1", "1e1000", "1e-1000", "1E+00001", "1e00005", "1e" + "9" * 30, "9" * 40, "-" + "0" * 300, "0." + "3" * 300, "1" * 300 + ".5", "0" * 20 + "1.1.1.1", "1.1.1.", ".1.1.1", "1..1.1", "1.1.1.00", "\u0031\u0307", "1\u200b", "\u22121"))
    for m in ("float", "integer", "number", "ip"):
        for mods in full:
            yield ("numbers", "col", mods, m, "", oddn)
            yield ("numbers", "col", mods, m, "", (ips if m == "ip" else nums if not mods else nums[:300]))
    vals = {"plain": ["a", "ab", "b"], "lower": ["a", "Ab"], "float": ["1", "10", "2.5"], "numeric": ["1", "10"], "length": ["a", "abc"],
            "rev": ["a", "ab", "b"], "float.rev": ["1", "10"], "rev.lower": ["a", "Ab"], "len.rev": ["abc"], "num.rev": ["1"], "ip": ["1.2", "10.1"], "ip.rev": ["1.10"], "equal": ["a"]}
    rng = tuple(BASE[:40]) + (b"1", b"2", b"10", b"1.0", b"2.50", b"3", b"9", b"-1", b"0")
    for comp, vs in vals.items():
        if comp[:2] == "ip":
            tg = (b"1", b"1.2", b"1.10", b"2", b"10", b"10.1", b"10.1.1", b"9.9.9.9")
        elif comp[:3] == "num" or comp[:5] == "float":
            tg = tuple(t for t in rng if t[:1].isdigit() or t[:1] == b"-")
        else:
            tg = rng
        for form in (0, 1):
            for o1 in OPS:
                for v1 in vs:
                    for mods in ((), ("not",), ("utf8",)):
                        yield ("range", "col", mods, "range", (comp, ((o1, v1),), form), tg)
                    for o2 in OPS:
                        for v2 in vs:
                            yield ("range", "col", (), "range", (comp, ((o1, v1), (o2, v2)), form), tg)
    for method in ("prefix", "suffix", "infix", "exact", "glob"):
        for ps in (("a",), ("a", "b"), ("b", "a"), ("ab", "A", "b"), ("", "a"), ("a", "")):
            for c in ("and", "or"):
                for mods in full:
                    yield ("multi", "col", mods + (c,), method, ps, None)
    fold = ["\u023a", "\u2c65", "\u212a", "k", "K", "\u00df", "\u1e9e", "\u017f", "s", "S", "\u03a3", "\u03c3", "\u03c2", "\u00c9", "\u00e9", "i", "I"]
    two = [a + b for a in fold for b in fold]
    dot = ["\u0130", "a\u0130", "i\u0307", "ai\u0307", "\u0130s", "\u01c4", "\u01c5", "\u01c6", "\ufb01"]
    tg = tuple(x.encode() for x in fold + two + dot)
    for p in fold + two[::1 if th else 7] + dot:
        for method in ("prefix", "suffix", "infix", "exact", "glob"):
            for mods in (("utf8", "case"), ("utf8",), ("case",), ("not", "utf8", "case")):
                yield ("fold", "col", mods, method, p, tg)
    for mods in (("utf8", "case"), ("utf8",), ("case",), ()):
        for f in [(x,) for x in fold + ["\u0130", "A\u00c9", "\u0416", "\u01c5", "K\u212a", "STRASSE", "Stra\u1e9ee"]]:
            t = tg + tuple(x.encode() for x in ("a\u00e9", "A\u00e9", "a\u00c9", "\u0436", "\u0416", "stra\u00dfe", "strasse", "\u01c6k"))
            yield ("fold", "col", mods, "file-exact", f, t)
        for f in (tuple(fold), tuple(fold[:8]), ("b", "a"), ("a b", " a", "a "), tuple("%d" % i for i in range(0, 3000, 3)) + tuple("x" * i for i in range(250, 260))):
            t = tg + TARGETS_T + tuple(b"%d" % i for i in range(40)) + (b"2997", b"2998", b"2999") + tuple(b"x" * i for i in range(248, 262))
            yield ("fold", "col", mods, "file-exact", f, t)
            yield ("fold", "line", mods, "file-exact", f, t)
    every = tuple(a + bytes([i]) + b for i in range(256) if i not in (9, 10) for a, b in ((b"", b""), (b"a", b""), (b"", b"a"), (b"a", b"a")))
    some = tuple(t for t in every if t.strip(bytes(range(33))))
    for mods in full:
        for where in ("col", "line"):
            for m, p in (("empty", ""), ("blank", ""), ("length", "1,1"), ("length", "2,2"), ("prefix", "a"), ("suffix", "a"), ("exact", "A"), ("infix", "z"), ("glob", "?"), ("glob", "a?a"), ("glob", "a*a"), ("integer", ""), ("float", ""), ("number", "")):
                yield ("bytes", where, mods, m, p, every)
            for m, p in (("hash", ""), ("slash", ""), ("comment", "a")):
                yield ("bytes", where, mods, m, p, some)
    for c in [chr(i) for i in range(33, 127) if chr(i) not in "*?"]:
        for m in ("prefix", "suffix", "infix", "exact", "glob"):
            for mods in ((), ("case",), ("utf8", "case"), ("utf8",), ("not",)):
                yield ("bytes", "col", mods, m, c, every)
                yield ("bytes", "line", mods, m, "a" + c, every)
    sizes = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 65535, 65536, 70000]
    big = tuple(b"a" * n for n in sizes) + tuple(b"a" * (n - 1) + b"b" for n in sizes) + tuple(b"b" + b"a" * (n - 1) for n in sizes) + tuple(b"a" * (n // 2) + b"bb" + b"a" * (n - n // 2 - 2) for n in sizes)
    runs = tuple(b"a" * n for n in sizes) + tuple("a\u00e9".encode() * (n // 2) for n in sizes if n < 9000)
    big = tuple(t for t in big if len(t) < 1500)
    small = tuple(t for t in big if len(t) < 140)
    for n in sizes:
        for mods in ((), ("utf8",), ("case",), ("utf8", "not", "trim")):
            yield ("size", "col", mods, "length", "%d" % n, runs)
            yield ("size", "line", mods, "length", "%d,%d" % (n, n), runs)
            if n <= 1025:
                for m in ("prefix", "suffix", "infix", "exact") + (("glob",) if n < 260 else ()):
                    yield ("size", "col", mods, m, "a" * n, big)
                    yield ("size", "col", mods, m, "a" * (n - 1) + ("B" if "case" in mods else "b"), big)
                    yield ("size", "col", mods, m, "b" + "a" * (n - 1), big)
                if n < 100:
                    yield ("size", "col", mods, "glob", "a*" * n + "b", small)
                    yield ("size", "col", mods, "glob", "*" * n + "?" * n, small)
                    yield ("size", "col", mods, "glob", "*b" + "a" * n + "*", small)
    many = tuple("%03d" % i for i in range(100, 400))
    mt = tuple(b"%d" % i for i in range(95, 405)) + tuple(b"x%dy" % i for i in range(95, 405, 11))
    for k in (9, 10, 16, 17, 64, 65, 255, 256, 257, 300):
        for m in ("prefix", "suffix", "infix", "exact", "glob"):
            for mods in (("or",), ("not", "or"), ("utf8", "case", "or")):
                yield ("many", "col", mods, m, many[:k], mt)
            yield ("many", "col", ("and",), m, ("1",) * k + ("10",), mt)
    qt = tuple(b"".join(x) for n in range(1, 5) for x in itertools.product((b"a", b"\n", b"1", b"\t") if n < 4 else (b"a", b"\n", b"b"), repeat=n)) + (b'a"b', b'"', b"a\r\n", b"\n#", b"1.2.3.4\n", b"x\n1.2.3.4", b"1\n2", b"-1\n")
    for mods in full:
        for p in REGEX:
            yield ("newlines", "quoted", mods, "regex", p, qt)
        for m in ("float", "integer", "number", "ip", "empty", "blank", "yes"):
            yield ("newlines", "quoted", mods, m, "", qt)
        for m in ("prefix", "suffix", "infix", "exact", "glob"):
            for p in ("a", "a\n", "\n", "\na", "a\nb", "\t", "1", "a*", "*a", "?a", "a?b", "*\n*"):
                yield ("newlines", "quoted", mods, m, p, qt)
        for p in ("0", "1", "2,3", "3,3"):
            yield ("newlines", "quoted", mods, "length", p, qt)
