"""C25: column transforms compute exactly the named function, applied left to right, value by value."""
import base64
from core import Violation, strings, seqs

BOUNDS = {
    "quick": "every value of up to 4 bytes over {space, tab-like control byte, a, B, z, =} and UTF-8 samples, every transform alone; "
             "every chain of up to 3 transforms over every value of up to 2 bytes; byte ranges with 1..5 bounds and around 2^16, 2^31, 2^32, 2^63; every byte value and 1,000 characters; values of up to 200,000 bytes; chains of up to 12, up to 39 byte ranges; up to 40 columns with a transform each",
    "thorough": "values of up to 5 bytes, chains of up to 4",
}
ASSUMPTIONS = ["locale-independent case mapping is taken from Python's str.lower/upper on the characters explored"]


WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def u8(v):
    return v.decode("utf-8", "replace")


def norm(v):
    out, need = b"", False
    for c in v:
        if c <= 32:
            need = True
        else:
            if need and out:
                out += b" "
            need = False
            out += bytes([c])
    return out


def norm_u(v):
    out, need = "", False
    for c in u8(v):
        if c in WS or c == "\ufffd":
            need = True
        else:
            if need and out:
                out += " "
            need = False
            out += c
    return out.encode()


def low_u(v):
    return "".join(c.lower() for c in u8(v)).encode()


class Bad(Exception):
    pass


def unb64(v):
    try:
        d = base64.b64decode(v, validate=True)
    except Exception:
        raise Bad
    if base64.b64encode(d) != v:
        raise Bad
    return d


def byterange(spec):
    rs = []
    for x in spec.split(","):
        if "-" in x:
            a, b = x.split("-")
            rs.append((int(a) - 1, int(b)))
        else:
            rs.append((int(x) - 1, int(x)))
    return lambda v: b"".join(v[a:b] for a, b in rs)


def func(name):
    if name.startswith("bytes,"):
        return byterange(name[6:])
    return {
        "lower": bytes.lower, "lowercase": bytes.lower, "upper": bytes.upper, "uppercase": bytes.upper,
        "lower.utf8": low_u, "utf8.lower": low_u, "lowercase.utf8": low_u,
        "upper.utf8": lambda v: u8(v).upper().encode(), "uppercase.utf8": lambda v: u8(v).upper().encode(),
        "normspace": norm, "normspace.utf8": norm_u, "to_base64": base64.b64encode, "from_base64": unb64,
    }[name]


def plain(v):
    return v.replace(b"\t", b" ").replace(b"\n", b" ")


def run(srv, case):
    if case[0] == "columns":
        return columns(srv, case)
    space, vals, chain = case
    data = b"".join(b"k\t" + v + b"\tK\n" for v in vals)
    spec = "2+" + "+".join(chain)
    r = srv.run(["cut", "--fields=1", "--fields=x:" + spec, "--fields=3"], stdin=data)
    exp = b""
    bad = False
    for v in vals:
        try:
            for t in chain:
                v = func(t)(v)
        except Bad:
            bad = True
            break
        exp += b"k\t" + plain(v) + b"\tK\n"
    if bad:
        if r.crashed or r.rc == 0 or not (exp + b"k\t").startswith(r.out):
            raise Violation("%s on %r: a value can not be decoded, expected an error and at most %r: %s" % (spec, data, exp, r.brief()))
        return ("refused",)
    if r.rc != 0 or r.out != exp:
        raise Violation("%s on %r: expected %r got %s" % (spec, data, exp, r.brief()))
    return (r.rc, r.out)


def columns(srv, case):
    """several columns, each -f with its own chain or none: (column numbers, chain) ..."""
    _, parts, rows = case
    args = ["cut", "-D", "numeric"]
    group = lambda cols: isinstance(cols[0], str)
    for cols, chain in parts:
        tail = "".join("+" + t for t in chain)
        if group(cols):
            args.append("--group=" + cols[0] + "%d" % len(args) + ":" + cols[1] + tail)
        else:
            args.append("--fields=" + ",".join("%d" % c if isinstance(c, int) else c[0] if isinstance(c[0], str) else "%d-%d" % tuple(c) for c in cols) + tail)
    exp = b""
    for row in rows:
        out = []
        for cols, chain in parts:
            one = []
            for c in cols[2:] if group(cols) else cols:
                for k in ([c] if isinstance(c, int) else c[1:] if isinstance(c[0], str) else range(c[0], c[1] + 1)):
                    v = row[k - 1]
                    for t in chain:
                        v = func(t)(v)
                    one.append(plain(v))
            out += [cols[0][:1].encode().join(x.replace(cols[0][:1].encode(), b" ") for x in one)] if group(cols) else one
        exp += b"\t".join(out) + b"\n"
    r = srv.run(args, stdin=b"".join(b"\t".join(x) + b"\n" for x in rows))
    if r.rc != 0 or r.out != exp:
        raise Violation("%r on %r: expected %r got %s" % (args, rows[:5], exp[:400], r.brief()))
    return (r.rc, r.out)


SIMPLE = ["lower", "lowercase", "upper", "uppercase", "lower.utf8", "utf8.lower", "lowercase.utf8", "upper.utf8",
          "uppercase.utf8", "normspace", "normspace.utf8", "to_base64", "from_base64"]
UTF = ["é", "É", "ß", "Σ", "ñ", "a\u00a0b", "\u3000x", "ABé", "İ", "ﬁ", " é  É ", "日本"]


def cases(tier):
    th = tier == "thorough"
    al = [b" ", b"\x01", b"a", b"B", b"z", b"="]
    allv = list(strings(al, 0, 5 if th else 4))
    u = [x.encode() for x in UTF] + [b"\xff", b"a\xffb", b"\xc3", b" \xc3a"]
    byt = ["bytes,%s" % s for s in ("1", "2", "5", "1-1", "1-2", "2-3", "3-9", "2,1", "1,1", "2-3,1", "1-2,2-3")]
    for t in SIMPLE + byt:
        if t == "from_base64":
            for v in allv:
                yield ("single", (v,), (t,))
            for v in strings([b"Y", b"Q", b"=", b"/", b"9"], 4, 4):
                yield ("decode", (v,), (t,))
            for v in strings([b"Y", b"="], 8, 8):
                yield ("decode", (v,), (t,))
        else:
            for i in range(0, len(allv), 8):
                yield ("single", tuple(allv[i:i + 8]), (t,))
        for v in u:
            yield ("utf8", (v,), (t,))
    short = list(strings(al[:5], 0, 2)) + [b"  Ab  cD "]
    for n in range(2, 5 if th else 4):
        names = SIMPLE + byt[4:6] if n < 4 else ["lower", "upper.utf8", "normspace", "to_base64", "from_base64", "bytes,2-3"]
        for c in seqs(names, n, n):
            # a chain reuses its buffers for every line: several values per run
            yield ("chain", tuple(v for v in short if "from_base64" not in c or len(v) != 1), c)
            if "from_base64" in c:
                yield ("chain64", (b"YWJj", b"", b"QUI=", b"IEEgIGI="), c)
                yield ("chain64", (b" A", b"b ", b"YWJj"), c)
    for n in (3, 4, 5, 30, 31, 32, 33, 1000, 8191, 8192, 20000):
        v = bytes((97 + i % 26) if i % 7 else 32 for i in range(n))
        for t in ("lower", "upper", "upper.utf8", "normspace", "normspace.utf8", "to_base64", "bytes,2-%d" % (n + 5)):
            yield ("ladder", (v, b"x", v), (t,))
        yield ("ladder", (base64.b64encode(v), b"", base64.b64encode(v[1:])), ("from_base64",))
        yield ("ladder", (v, b"", v), ("to_base64", "from_base64"))
        yield ("ladder", (v, b"", v), ("upper", "to_base64", "from_base64", "lower"))
    for n in (65535, 65536, 70000, 200000):
        v = bytes((97 + i % 26) if i % 7 else 32 for i in range(n - 1)) + b"Z"
        for t in ("lower", "upper", "upper.utf8", "lower.utf8", "normspace", "normspace.utf8", "to_base64", "bytes,%d-%d" % (n - 3, n + 5)):
            yield ("ladder", (v, b"x"), (t,))
        yield ("ladder", (v, b"q", v[1:]), ("upper", "to_base64", "from_base64"))
    every = [a + bytes([i]) + b for i in range(256) if i not in (9, 10) for a, b in ((b"", b""), (b"aB", b"Cd"))]
    for t in SIMPLE + byt:
        if t != "from_base64":
            for i in range(0, len(every), 32):
                yield ("bytes", tuple(every[i:i + 32]), (t,))
    chars = [chr(i) for i in list(range(0x80, 0x180)) + list(range(0x386, 0x3d0)) + list(range(0x1e00, 0x2070)) + [0x2126, 0x212a, 0x212b, 0x3000, 0xfb00, 0xfb03, 0x10400, 0x10428, 0x1f600]]
    for t in ("lower.utf8", "upper.utf8", "normspace.utf8", "lower", "upper", "normspace"):
        vs = tuple(("x%sY" % c).encode() for c in chars if c.isprintable() or c.isspace())
        for i in range(0, len(vs), 100):
            yield ("chars", vs[i:i + 100], (t,))
    vals = (b"  Ab  cD ", b"", b"xYz", b"b")
    for n, names in ((4, ["upper", "lower", "normspace", "to_base64", "bytes,1-5"]), (5, ["upper", "to_base64", "bytes,2-9"]), (6, ["to_base64", "lower"]), (7, ["to_base64", "bytes,2-30"]), (8, ["upper", "lower"]), (9, ["to_base64"]), (12, ["to_base64"])):
        for c in seqs(names, n, n):
            yield ("longchain", vals, c)
    for k in range(1, 40):
        yield ("ranges", (b"abcdefghijklmnopqrstuvwxyz0123456789", b"", b"abc"), ("bytes," + ",".join("%d" % (1 + (i * 7) % 36) for i in range(k)),))
        yield ("ranges", (b"abcdefghijklmnopqrstuvwxyz0123456789", b"zz"), ("bytes,%d-%d" % (k, 2 * k),))
    for b in (2 ** 16, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 63, 2 ** 64):
        for d in range(-2, 4):
            for t in ("%d" % (b + d), "1-%d" % (b + d), "2-%d,1" % (b + d), "%d-%d" % (b + d, b + d + 2), "3,%d,1" % (b + d), "%d-%d" % (b - 3, b + 3)):
                if b + d + 2 < 2 ** 64:
                    yield ("ranges", (b"abcdef", b"", b"a"), ("bytes," + t,))
    tr = [(), ("upper",), ("lower",), ("bytes,1-2", "to_base64"), ("normspace", "upper")]
    rows = ((b"aB c", b"  De", b"fG", b"hI"), (b"", b"x", b"Y z ", b""), (b"One", b"tWo", b"thRee", b"fOur"))
    for a in tr:
        for b in tr:
            for c in tr:
                yield ("columns", (((1,), a), ((2,), b), ((3,), c)), rows)
                yield ("columns", (((3, 1), a), (((2, 4),), b), ((1, 1), c)), rows)
        yield ("columns", (((1,), a), ((2,), ("upper",)), ((3,), ("lower",)), ((4,), a), ((1,), ("to_base64",)), ((2,), a), ((3,), ())), rows)
        yield ("columns", tuple(((1 + i % 4,), tr[i % 5]) for i in range(40)), rows)
        # other ways of naming the columns, and groups of them
        ways = [("-", 1, 2, 3, 4), ("+1", 4), ("+3-+1", 2, 3, 4), ("c2", 2), ("c2-c3", 2, 3), ("(exact,c3)", 3), ("(regex,[24])", 2, 4), ("-,~2", 1, 3, 4), ("~c1,2-,~+1", 2, 3), ("q:1", 1), ("1,q:2,1", 1, 2, 1), ("3-,-2", 3, 4, 1, 2)]
        for w in ways:
            yield ("columns", (((w,), a),), rows)
            for b in tr[1:]:
                yield ("columns", (((w,), a), ((ways[0],), b)), rows)
                yield ("columns", (((w,), a), ((",g",) + w, b), ((1,), ())), rows)
    yield ("columns", (((1,), ("upper",)), ((2,), ("bytes,2-3", "lower"))), tuple((b"v%d" % i, b"X" * (i % 50)) for i in range(5000)))
