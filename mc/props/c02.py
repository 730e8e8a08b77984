"""C02: every use of a comparison agrees with its documented order."""
import itertools
from core import Violation
import ref

BOUNDS = {
    "quick": "8 comparisons and expressions, forwards and reversed, on every ordered pair of 13..28 adversarial values: sort, alternate sort, merge (both), sort -c with and without -u, verify -s/-u, verify first/last with 6 operators, uniq, uniq min/max, join, binsearch, aggregated min/max, cgrep comp with 3 operators; neighbouring pairs of a further 14..31 values that differ late, by little or only in form (up to 65,537 bytes, 40 digits, 10 address parts); 6 lists of two to four keys on every pair of 12 rows in 14 uses; up to 40 keys, differing in any one; 16 spellings; the key in the last column; values of every length up to 18 that differ in any one place; numbers of up to 1000 digits; keys in any of 19 columns up to the 1000th in 8 spellings; random keys on every arrangement of up to 5 lines",
    "thorough": "as quick with 40 values per comparison and whole-line keys",
}
RULE = "distinct (comparison, use, result) triples"
ASSUMPTIONS = ["whole lines are compared with their newline", "float and numeric read the leading number of a value (see C23)"]

TEXT = [b"", b"a", b"b", b"A", b"B", b"ab", b"aB", b"abc", b"abcdefgh", b"abcdefghi", b"abcdefghj", b"abcdefgh\xff", b"ABCDEFGHI", b"abcdefg", b"z", b"~", b"\x80", b"\xff", b"\xc3\xa9", b" ", b" a", b"0", b"10", b"9", b"-", b"_", b"[", b"a b"]
FLOATS = [b"", b"0", b"-0", b"0.0", b"1", b"1.0", b"01", b"-1", b"10", b"9", b"-10", b"1e1", b"1e-1", b"0.1", b".1", b"-.1", b"1.5", b"1.25", b"x", b"1x", b"1e300", b"-1e300", b"2", b"+2", b"123456789.5", b"123456789.25", b"0.001"]
NUMERIC = [b"", b"0", b"-0", b"00", b"1", b"01", b"1.0", b"1.5", b"1.50", b"1.05", b"1.25", b"-1", b"-1.5", b"-01", b"10", b"9", b"1,000", b"1000", b"999", b"99999999999999999999", b"99999999999999999998", b"99999999999999999999.1", b"-99999999999999999999", b"0.5", b".5", b"0.05", b"0.500"]
IPS = [b"", b"0", b"1", b"10", b"9", b"1.2", b"1.10", b"1.9", b"1.2.3", b"1.2.3.4", b"1.2.3.40", b"1.2.10.4", b"2.1", b"10.1", b"255.255.255.255", b"192.168.1.1", b"192.168.1.10", b"192.168.10.1", b"1.02", b"1.2.3.4.5"]
EXPR = [b"0", b"-0", b"1", b"-1", b"2", b"10", b"0.5", b"-0.5", b"1e5", b"-1e5", b"3", b"1.5"]
KINDS = {
    "plain": TEXT, "lower": TEXT, "length": TEXT, "equal": TEXT[:8], "float": FLOATS, "numeric": NUMERIC, "num": NUMERIC[:10], "len": TEXT[:8], "ip": IPS,
}
L = [b"x" * n for n in (127, 128, 255, 256, 257, 258, 511, 512, 65535, 65536, 65537)]
NEAR = {
    # values that differ late, by little or only in form; each with its neighbours
    "length": L + [b"", b"\xc3\xa9" * 128, b"y" * 256],
    "plain": L[:6] + [b"p" * 8, b"p" * 8 + b"a", b"p" * 8 + b"b", b"p" * 8 + b"A", b"p" * 16, b"p" * 16 + b"\x01", b"p" * 15 + b"\xff", b"p" * 300 + b"a", b"p" * 300 + b"b", b"\x7f" * 8, b"\x80" * 8, b"\x80" * 9, b"a\x01", b"a"],
    "lower": [b"q" * 8, b"Q" * 8, b"Q" * 8 + b"a", b"q" * 8 + b"B", b"q" * 16 + b"Z", b"Q" * 16 + b"z", b"q" * 300 + b"A", b"Q" * 300 + b"b", b"\xc3\x89", b"\xc3\xa9", b"\xc9", b"\xe9", b"a[", b"A{", b"a_", b"A@", b"a`", b"\xc0\x80ab", b"\xe0\x80AB"],
    "float": [b"1", b"1.0000000000000002", b"1.0000000000001", b"1.00000000000005", b"0.99999999999999989", b"16777216", b"16777217", b"16777216.5", b"9007199254740992", b"9007199254740993", b"9007199254740994", b"1e308", b"1.7e308", b"-1e308", b"3.4e38", b"3.5e38", b"1e-300", b"2e-300", b"-1e-300", b"1e-46", b"2e-46", b"0", b"4294967296", b"4294967297", b"1K", b"1024", b"1k", b"1000", b" 1"],
    "numeric": [b"1", b"1.0000000000000000000000001", b"1.0000000000000000000000002", b"1" + b"0" * 40, b"1" + b"0" * 39 + b"1", b"1" + b"0" * 41, b"-1" + b"0" * 40, b"1,000", b"1000", b"10,00", b"-1,000", b"-1000", b"-1000.5", b"-1,000.25", b" 5", b"5", b"  -5", b"-5", b"-0.0", b"-00", b"-0.5", b"-.5", b"0.00", b"-0.000", b"", b"1.10", b"1.1", b"1.09", b"x", b"000,1", b"2e5"],
    "ip": [b"1.2.3.4.5.6.7.8.9", b"1.2.3.4.5.6.7.8.10", b"1.2.3.4.5.6.7.8", b"1.2.3.4.5.6.7.8.9.1", b" 1.2", b"1.2", b"  9", b"9", b"10", b"1." + b"9" * 30, b"1." + b"9" * 29 + b"8", b"1.1" + b"0" * 30, b"1..2", b"1.", b"1", b".1", b"1.2.3.4:80", b"1.2.3.4:81", b"1.2.3.4", b"256.1", b"4294967296", b"4294967297", b"18446744073709551616", b"18446744073709551617"],
}
MULTI = (  # keys, number of columns
    ("1", "2"), ("2,num", "1"), ("1,lower", "2,float.rev", "3"), ("3,length", "1,rev", "2,numeric"), ("1,equal", "2,ip", "3,num.rev", "1"), ("2,rev", "2,length"),
)
SPELL = {  # the same comparison, spelled differently
    "1,rev": ("plain", True), "1,REV": ("plain", True), "1,float.rev": ("float", True), "1,rev.float": ("float", True), "1,Rev.Numeric": ("numeric", True), "1,NUMERIC": ("numeric", False), "1,Lower": ("lower", False), "1,rev.rev": ("plain", True),
    "1,": ("plain", False), "1,plain": ("plain", False), "1,len.rev": ("length", True), "1,IP": ("ip", False), "c1,num": ("numeric", False), "c1,rev": ("plain", True), "+2,rev": ("plain", True), "+2": ("plain", False),
}
EXPRS = {"c1": lambda v: v, "c1*2-1": lambda v: v * 2 - 1, "0-c1": lambda v: -v, "abs(c1)": abs, "c1*0": lambda v: 0.0, "(c1<1)": lambda v: float(v < 1)}


def sgn(fn, a, b, rev):
    x, y = fn(a), fn(b)
    if x == y:
        return 0
    s = -1 if x < y else 1
    return -s if rev else s


OPS = {"LT": lambda c: c < 0, "LE": lambda c: c <= 0, "EQ": lambda c: c == 0, "NE": lambda c: c != 0, "GE": lambda c: c >= 0, "GT": lambda c: c > 0}


def run(srv, case):
    space = case[0]
    if space == "random":
        _, lines, extra = case
        data = b"".join(l + b"\n" for l in lines)
        r = srv.run(["sort", "-k", "1,random"] + list(extra), stdin=data)
        if r.rc != 0 or sorted(r.out.split(b"\n")) != sorted(data.split(b"\n")):
            raise Violation("sort -k 1,random on %r: %s" % (data, r.brief()))
        return None
    if space == "multi":
        return run_multi(srv, case)
    if space == "spell":
        _, key, a, b = case
        kind, rev = SPELL[key]
        c = sgn(ref.KEYFN[kind], a, b, rev)
        h = b" CDX\tc1\tc2\n"
        la, lb = a + b"\tp\n", b + b"\tq\n"
        exp = h + (la + lb if c <= 0 else lb + la)
        for args, want in ((["sort", "-k", key], exp), (["sort", "-a", "-u", "-k", key], exp if c else h + la), (["uniq", "-k", key], h + (la + lb if c else la))):
            srv.extra += 1
            r = srv.run(args, stdin=h + la + lb)
            if r.rc != 0 or r.out != want:
                raise Violation("%r on %r: %s, expected %r" % (args, h + la + lb, r.brief(), want))
        if "," in key:
            spec = key.split(",")[1]
            r = srv.run(["uniq", "-k", "2", "-a", "1,min" + ("," + spec if spec else "")], stdin=h + a + b"\tp\n" + b + b"\tp\n")
            srv.extra += 1
            ok = [h + v + b"\tp\n" for v in ((a, b) if c == 0 else (a,) if c < 0 else (b,))]
            if r.rc != 0 or r.out not in ok:
                raise Violation("uniq -a 1,min,%s of %r and %r: %s" % (spec, a, b, r.brief()))
        return ("spell", key, c)
    if space == "last":
        # the same orders where the key is the last column
        _, kind, rev, a, b = case
        k = "2,%s%s" % (kind, ".rev" if rev else "")
        c = sgn(ref.KEYFN[ref.ALIAS.get(kind, kind)], a, b, rev)
        h, la, lb = b" CDX\tc1\tc2\n", b"p\t" + a + b"\n", b"q\t" + b + b"\n"
        exp = h + (la + lb if c <= 0 else lb + la)
        for args, out, rc in (
                (["sort", "-k", k, "T"], exp, 0), (["sort", "-a", "-k", k, "T"], exp, 0), (["sort", "-u", "-k", k, "T"], exp if c else h + la, 0),
                (["sort", "-m", "-k", k, "A", "B"], exp, 0), (["sort", "-m", "-A", "-k", k, "A", "B"], exp, 0),
                (["sort", "-c", "-k", k, "T"], None, int(c > 0)), (["sort", "-c", "-u", "-k", k, "T"], None, int(c >= 0)),
                (["verify", "-s", "-k", k, "T"], None, int(c > 0)), (["uniq", "-k", k, "T"], h + la + lb if c else h + la, 0)):
            r = srv.run(args, files={"T": h + la + lb, "A": h + la, "B": h + lb})
            srv.extra += 1
            if r.rc != rc or (out is not None and r.out != out):
                raise Violation("%r on %r and %r, which order as %d: %s" % (args, a, b, c, r.brief()))
        return ("last", kind, rev, c)
    if space == "far":
        # keys in columns far to the right, in every way of naming them
        _, n, spec, a, b, more = case
        c = (float(a) > float(b)) - (float(a) < float(b))
        k = spec.replace("#", str(n))
        h = b" CDX" + b"".join(b"\tx%d" % (i + 1) for i in range(n + more)) + b"\n"
        la, lb = (b"\t".join([b"7"] * (n - 1) + [v] + [b"3"] * more) for v in (a, b))
        la, lb = la + b"\n", lb + b"\n"
        exp = h + (la + lb if c <= 0 else lb + la)
        for args, out, rc in (
                (["sort", "-k", k, "T"], exp, 0), (["sort", "-a", "-k", k, "T"], exp, 0), (["sort", "-u", "-k", k, "T"], exp if c else h + la, 0),
                (["sort", "-m", "-k", k, "A", "B"], exp, 0), (["sort", "-m", "-A", "-k", k, "A", "B"], exp, 0), (["sort", "-m", "-u", "-k", k, "A", "B"], exp if c else h + la, 0),
                (["sort", "-c", "-k", k, "T"], None, int(c > 0)), (["sort", "-c", "-u", "-k", k, "T"], None, int(c >= 0)),
                (["verify", "-s", "-k", k, "T"], None, int(c > 0)), (["verify", "-u", "-k", k, "T"], None, int(c >= 0)),
                (["uniq", "-k", k, "T"], h + la + lb if c else h + la, 0)):
            r = srv.run(args, files={"T": h + la + lb, "A": h + la, "B": h + lb})
            srv.extra += 1
            if r.rc != rc or (out is not None and r.out != out):
                raise Violation("%r on %r and %r in column %d: %s" % (args, a, b, n, r.brief()))
        return ("far", n, spec, c)
    _, kind, rev, a, b, hdr = case
    if space == "expr":
        ex = EXPRS[kind]

        def fn(v):
            return ex(float(v)) + 0.0
        k = ",expr%s,%s" % (".rev" if rev else "", kind)
    elif space == "whole":
        f0 = ref.KEYFN[ref.ALIAS.get(kind, kind)]

        def fn(v):
            return f0(v + b"\n")
        k = ",%s%s" % (kind, ".rev" if rev else "")
    else:
        fn = ref.KEYFN[ref.ALIAS.get(kind, kind)]
        k = "1,%s%s" % (kind, ".rev" if rev else "")
    c = sgn(fn, a, b, rev)
    tag = space != "whole"
    la, lb = (a + b"\tp", b + b"\tq") if tag else (a, b)
    two = la + b"\n" + lb + b"\n"
    h = b" CDX\tc1\tc2\n" if hdr else b""
    inorder, swapped = h + la + b"\n" + lb + b"\n", h + lb + b"\n" + la + b"\n"
    exp = inorder if c <= 0 else swapped
    seen = []

    def expect(use, args, want_out=None, want_rc=0, files=None, stdin=None):
        srv.extra += 1
        r = srv.run(args, files=files, stdin=stdin or b"")
        if r.crashed or r.rc != want_rc or (want_out is not None and r.out != want_out):
            raise Violation("%s: %r orders %r and %r as %d, but %r gives %s (expected rc=%r out=%r)" % (use, k, a, b, c, args, r.brief(), want_rc, want_out))
        seen.append((use, r.rc, r.out))

    # whole lines keep the newline, so the last of a file without one is not at issue here
    expect("sort", ["sort", "-k", k], exp, stdin=h + two)
    expect("alternate sort", ["sort", "-a", "-k", k], exp, stdin=h + two)
    expect("unique sort", ["sort", "-u", "-k", k], exp if c else h + la + b"\n", stdin=h + two)
    fs = {"A": h + la + b"\n", "B": h + lb + b"\n"}
    expect("merge", ["sort", "-m", "-k", k, "A", "B"], exp, files=fs)
    expect("alternate merge", ["sort", "-m", "-A", "-k", k, "A", "B"], exp)
    expect("unique merge", ["sort", "-m", "-u", "-k", k, "A", "B"], exp if c else h + la + b"\n")
    expect("check", ["sort", "-c", "-k", k], None, 0 if c <= 0 else 1, stdin=h + two)
    expect("unique check", ["sort", "-c", "-u", "-k", k], None, 0 if c < 0 else 1, stdin=h + two)
    expect("verify", ["verify", "-s", "-k", k], None, 0 if c <= 0 else 1, stdin=h + two)
    expect("verify unique", ["verify", "-u", "-k", k], None, 0 if c < 0 else 1, stdin=h + two)
    expect("uniq", ["uniq", "-k", k], h + (two if c else la + b"\n"), stdin=h + two)
    if space != "whole":
        expect("join", ["join", "-k", k, "A", "B"], None if c == 0 else (b" CDX\tc1\tc2\tB_c2\n" if False else None))
        got = seen[-1][2]
        body = got[got.index(b"\n") + 1:] if got.startswith(b" CDX") else got
        if bool(body) != (c == 0):
            raise Violation("join: %r orders %r and %r as %d, but join gives %r" % (k, a, b, c, got))
        one = b"".join([h, b"k\t", la, b"\nk\t", lb, b"\n"]).replace(b"\tc1", b"\tk\tc1")
        if space == "col":
            k2 = "2," + k[2:]
            expect("uniq min", ["uniq", "-k", "1", "-w", "min," + k2], h.replace(b"\tc1", b"\tk\tc1") + b"k\t" + (la if c <= 0 else lb) + b"\n", stdin=one)
            expect("uniq max", ["uniq", "-k", "1", "-w", "max," + k2], h.replace(b"\tc1", b"\tk\tc1") + b"k\t" + (lb if c < 0 else la) + b"\n", stdin=one)
            # aggregated minimum and maximum: the value is one of the least (greatest)
            for w, best in (("min", c <= 0), ("max", c >= 0)):
                expect("agg " + w, ["uniq", "-k", "1", "-a", "2,%s,%s" % (w, k[2:])], stdin=b"k\t" + a + b"\nk\t" + b + b"\n")
                ok = {b"k\t" + v + b"\n" for v in ([a, b] if c == 0 else [a if best else b])}
                if seen[-1][2] not in ok:
                    raise Violation("agg %s: %r orders %r and %r as %d, but %r" % (w, k, a, b, c, seen[-1][2]))
    utf8 = b.decode("utf-8", "ignore").encode() == b
    if space == "col" and utf8 and b and not b.startswith(b"-"):
        # the value sought is given on the command line
        expect("binsearch", ["binsearch", "-k", k, b, "A"], h + (la + b"\n" if c == 0 else b""))
        expect("binsearch of two", ["binsearch", "-k", k, b, "AB"], h + (two if c == 0 else lb + b"\n"), files={"AB": exp})
    if space == "col" and utf8 and b and b"," not in b:
        for op, f in OPS.items():
            expect("verify first " + op, ["verify", "-k", k, "-f", op.encode() + b"," + b, "A"], None, 0 if f(c) else 1)
            expect("verify last " + op, ["verify", "-k", k, "-l", op.encode() + b"," + b, "A"], None, 0 if f(c) else 1)
    if space == "col" and not rev:
        for op in ("<", "=", ">="):
            f = {"<": OPS["LT"], "=": OPS["EQ"], ">=": OPS["GE"]}[op]
            w = {"<": "lt", "=": "eq", ">=": "ge"}[op]
            line = a + b"\t" + b + b"\n"
            expect("cgrep comp " + op, ["cgrep", "-p", "1,comp,%s.2,%s" % (w, kind)], line if f(c) else b"", stdin=line)
    return (kind, rev, tuple((x[0], x[1]) for x in seen))


def run_multi(srv, case):
    """several keys in turn, each with its own comparison and reversal, in every use"""
    _, keys, rows, hdr = case
    fns = []
    for k in keys:
        col, _, m = k.partition(",")
        parts = m.split(".") if m else []
        rev = "rev" in parts
        name = next((p for p in parts if p != "rev"), "plain")
        fns.append((int(col) - 1, ref.KEYFN[ref.ALIAS.get(name, name)], rev))

    def cmp(x, y):
        for c, f, rev in fns:
            s = sgn(f, x[c], y[c], rev)
            if s:
                return s
        return 0
    kk = [x for k in keys for x in ("-k", k)]
    a, b = rows
    h = b" CDX" + b"".join(b"\tc%d" % (i + 1) for i in range(len(a))) + b"\tt\n" if hdr else b""
    la, lb = b"\t".join(a) + b"\tp\n", b"\t".join(b) + b"\tq\n"
    c = cmp(a, b)
    exp = h + (la + lb if c <= 0 else lb + la)
    data = h + la + lb
    fs = {"A": h + la, "B": h + lb}
    uses = [("sort", ["sort"], exp, 0), ("alternate sort", ["sort", "-a"], exp, 0), ("unique", ["sort", "-u"], exp if c else h + la, 0), ("check", ["sort", "-c"], None, 0 if c <= 0 else 1), ("unique check", ["sort", "-c", "-u"], None, 0 if c < 0 else 1), ("verify", ["verify", "-s"], None, 0 if c <= 0 else 1), ("verify unique", ["verify", "-u"], None, 0 if c < 0 else 1), ("uniq", ["uniq"], h + (la + lb if c else la), 0)]
    files = [("merge", ["sort", "-m"], exp, 0), ("alternate merge", ["sort", "-m", "-A"], exp, 0), ("unique merge", ["sort", "-m", "-u"], exp if c else h + la, 0), ("alternate unique merge", ["sort", "-m", "-u", "-A"], exp if c else h + la, 0)]
    for name, args, want, rc in uses + files:
        srv.extra += 1
        f = name.endswith("merge")
        r = srv.run(args + kk + (["A", "B"] if f else []), files=fs if f else None, stdin=b"" if f else data)
        if r.crashed or r.rc != rc or (want is not None and r.out != want):
            raise Violation("%s by %r on %r: %s, expected %r rc=%d" % (name, keys, data, r.brief(), want, rc))
    r = srv.run(["join"] + kk + ["A", "B"])
    srv.extra += 2
    body = r.out[len(r.out.split(b"\n")[0]) + 1:] if r.out.startswith(b" CDX") else r.out
    if r.rc != 0 or bool(body) != (c == 0):
        raise Violation("join by %r of %r: %s, but they compare %d" % (keys, data, r.brief(), c))
    val = b"|".join(b[x] for x, _, _ in fns)
    if not val.startswith(b"-"):
        r = srv.run(["binsearch", "-s", "|"] + kk + [val, "A"])
        if r.rc != 0 or r.out != h + (la if c == 0 else b""):
            raise Violation("binsearch of %r by %r in %r: %s, but they compare %d" % (val, keys, h + la, r.brief(), c))
    return ("multi", keys, c)


def cases(tier):
    th = tier == "thorough"
    for kind, vals in NEAR.items():
        for i, j in itertools.product(range(len(vals)), repeat=2):
            if th or abs(i - j) <= (3 if kind != "length" else 1):
                yield ("col", kind, (i + j) % 4 == 3, vals[i], vals[j], (i + j) % 2 == 0)
    for keys in MULTI:
        vs = [(b"a", b"1", b"x"), (b"a", b"1", b"xx"), (b"A", b"1", b"x"), (b"a", b"1.0", b"x"), (b"a", b"01", b"y"), (b"b", b"1", b"x"), (b"a", b"10", b"x"), (b"a", b"9", b"2"), (b"a", b"-9", b"10"), (b"", b"", b""), (b" a", b" 1", b"x "), (b"a ", b"1 ", b" x")]
        for n, rows in enumerate(itertools.product(vs, repeat=2)):
            for hdr in ((True, False) if th else (n % 2 == 0,)):
                yield ("multi", keys, rows, hdr)
    # many keys, the rows differing in one of them or nowhere
    for n in list(range(5, 21)) + [40]:
        kinds = ("", ",num", ",lower.rev", ",float", ",len")
        for i in range(n + 1):
            for late in (0, 1):
                keys = tuple("%d%s" % (c + 1, kinds[c % 5] if (n + late) % 2 else "") for c in (range(n) if late else reversed(range(n))))
                a = tuple(b"9" if c != i else b"10" for c in range(n))
                b = (b"9",) * n
                yield ("multi", keys, (a, b) if (i + late) % 2 else (b, a), late == 1)
    for key, (kind, rev) in SPELL.items():
        vals = KINDS[kind][:12 if th else 6]
        for a, b in itertools.product(vals, repeat=2):
            yield ("spell", key, a, b)
    for kind, vals in KINDS.items():
        if not th:
            # every comparison on a third of its values with each of all its values
            few = [v for i, v in enumerate(vals) if i % 3 == 1 or i == 0]
            for a, b in itertools.product(vals, few):
                for rev in (False, True):
                    yield ("col", kind, rev, a, b, (len(a) + len(b)) % 2 == 0)
            continue
        vs = vals + [v + b"0" for v in vals if v and th] + ([v + b"." for v in vals[:10] if v] if th and kind in ("float", "numeric", "ip") else [])
        vs = list(dict.fromkeys(vs))
        for a, b in itertools.product(vs, repeat=2):
            for rev in (False, True):
                yield ("col", kind, rev, a, b, (len(a) + len(b)) % 2 == 0)
    for kind in ("plain", "lower", "length", "float", "numeric", "ip"):
        vals = KINDS[kind] if th else KINDS[kind][:14]
        for a, b in itertools.product(list(dict.fromkeys([b"", b"\x01", b"\x0b"] + vals)), repeat=2):
            yield ("last", kind, len(a) > len(b), a, b)
        vals = KINDS[kind] if th else KINDS[kind][:12]
        for a, b in itertools.product(vals, repeat=2):
            yield ("whole", kind, len(a) > len(b), a, b, False)
    for e in EXPRS:
        for a, b in itertools.product(EXPR, repeat=2):
            for rev in (False, True):
                yield ("expr", e, rev, a, b, True)
    for n in range(0, 6 if th else 5):
        for ls in itertools.product((b"a", b"b\tx", b""), repeat=n):
            for extra in ((), ("-a",)):
                yield ("random", ls, extra)
    # values that differ in one place or in length, every length around that of the cached part
    for n in range(1, 19):
        for kind in ("plain", "lower"):
            for i in range(n):
                for x in (b"b", b"\xff", b"\0"):
                    a, b = b"a" * n, b"a" * i + x + b"A" * (n - 1 - i) if kind == "lower" else b"a" * i + x + b"a" * (n - 1 - i)
                    yield ("last", kind, False, a, b)
                    yield ("last", kind, False, b, a)
            for x in (b"a", b"\0", b"\xff"):
                for rev in (False, True):
                    yield ("last", kind, rev, b"a" * n + x, b"a" * n)
                    yield ("last", kind, rev, b"a" * n, b"a" * n + x)
    for n in (18, 19, 20, 37, 38, 39, 40, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000):
        big = b"9" * n
        for a, b in ((big, b"1"), (big, b"1" + b"0" * n), (big[:-1] + b"8", big), (big + b".5", big), (b"0." + b"0" * n + b"1", b"0." + b"0" * n + b"2"), (b"0" * n + b"1", b"1"), (b"0" * n + b"2", b"1"), (b"1." + b"0" * n, b"1"), (b"-" + big, b"-1")):
            yield ("last", "numeric", False, a, b)
            yield ("last", "numeric", False, b, a)
    for n in (1, 2, 3, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000):
        for spec in ("#,num", "x#,num", "#,float", ",expr,x#", ",expr,c#+0", ",expr,[x#-x#]"):
            for a, b in ((b"10", b"9"), (b"9", b"10"), (b"9", b"9")):
                for more in (0, 1, 5):
                    yield ("far", n, spec if "[" not in spec else ",expr,max([x#-x#])", a, b, more)
        for a, b in ((b"10", b"9"), (b"9", b"10"), (b"9", b"9")):
            yield ("far", n, "+1,num", a, b, 0)
            yield ("far", n, "+6,float", a, b, 5)
    for n in (20, 21, 33, 64, 100, 500):
        for extra in ((), ("-a",)):
            yield ("random", tuple(b"v%d" % (i % 50) for i in range(n)), extra)
