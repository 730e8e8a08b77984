"""C16: cat: exact concatenation, one header, padding, numbering, skipping and removing."""
import itertools
from core import Violation, strings, seqs

BOUNDS = {
    "quick": "every 1..3 files of up to 3 bytes over {a, tab, newline} (3 files: up to 2), with or without a header, all padding modes; "
             "numbering (start, name, side) x skip x remove over every pair of files of up to 3 lines over 5 line values, last line terminated or not; "
             "size ladder around the 8 KiB and 16 KiB buffer sizes with the newline at and next to each boundary; every byte value; numbering of up to 70,000 lines; odd values and every one-byte value, numbered, skipped and removed; every order of up to three numbering options; starts around 2^31, 2^32, 2^53 and either end of the integers; matchers with modifiers on text that is not UTF-8",
    "thorough": "as quick with files of up to 4 bytes (3 files: 3) and files of up to 4 lines",
}
RULE = "distinct (exit class, output) pairs"
ASSUMPTIONS = ["without numbering, skipping or removing, the header is recognised by ' CDX' only (default text format)"]
HD = b" CDX\tx\ty\n"
PADS = ("yes", "no", "end", None)


def fast(files, pad):
    out, head, seen = b"", None, False
    for f in files:
        if not f:
            continue
        first, nl, rest = f.partition(b"\n")
        first += nl
        cdx = first.startswith(b" CDX")
        if cdx and not nl:
            return None
        if not seen:
            seen, head = True, (first if cdx else None)
            add = f
        else:
            if cdx != (head is not None) or (cdx and first != head):
                return None
            add = rest if cdx else f
        out += add
        if pad in (None, "yes") and out and not out.endswith(b"\n"):
            out += b"\n"
    if pad == "end" and out and not out.endswith(b"\n"):
        out += b"\n"
    return out


def pred(spec, line):
    k, _, p = spec.partition(",")
    *mods, k = k.split(".")
    if mods:
        if "utf8" in mods:
            line, p = line.decode("utf-8", "replace"), p
            if "case" in mods:
                line, p = "".join(c.lower() for c in line), p.lower()
            line, p = line.encode(), p
        elif "case" in mods:
            line, p = line.lower(), p.lower()
        return pred(k + "," + p, line) ^ ("not" in mods)
    p = p.encode()
    return {"exact": line == p, "prefix": line.startswith(p), "empty": line == b"", "infix": p in line}[k]


def slow(files, num, skips, removes):
    out, head, seen = b"", None, False
    n = num[1] if num else 0
    for hdr, lines, nl in files:
        if hdr is None and not lines:
            continue
        h = None
        if hdr is not None:
            cols = hdr.split(b"\t")[1:]
            if num:
                nm = num[0].encode()
                if nm in cols:
                    return None
                cols = cols + [nm] if num[2] else [nm] + cols
            h = b" CDX\t" + b"\t".join(cols) + b"\n"
        if seen and h != head:
            return None
        if not seen:
            seen, head = True, h
            out += h or b""
        for l in lines:
            if any(pred(s, l) for s in removes):
                continue
            if num:
                if any(pred(s, l) for s in skips):
                    v = b""
                else:
                    v = b"%d" % n
                    n += 1
                l = l + b"\t" + v if num[2] else v + b"\t" + l
            out += l + b"\n"
    return out


def body(f):
    hdr, lines, nl = f
    d = (hdr + b"\n" if hdr is not None else b"") + b"".join(l + b"\n" for l in lines)
    return d if nl or not lines or lines[-1] == b"" else d[:-1]


def run(srv, case):
    if case[0] in ("fast", "ladder"):
        _, files, pad = case
        args = ["cat"] + (["--pad", pad] if pad else [])
        exp = fast(files, pad)
        names = []
        for i, f in enumerate(files):
            srv.write_file("f%d" % i, f)
            names.append("f%d" % i)
        r = srv.run(args + names)
        if exp is None:
            if r.rc == 0 or r.crashed:
                raise Violation("cat %s of %r must report the bad header: %s" % (pad, files, r.brief()))
            return ("err",)
        if r.rc != 0 or r.out != exp:
            sh = files if case[0] == "fast" else [(len(f), f[-3:]) for f in files]
            raise Violation("cat --pad %s of %r: expected %r, got %s" % (pad, sh, exp[-60:], r.brief()[-200:]))
        return (len(r.out), r.out[-40:])
    _, files, num, skips, removes = case[:5]
    args = ["cat"]
    if len(case) > 5:
        args += case[5]
    elif num:
        if num == ("number", 1, False):
            args += ["-b"]
        elif num == ("number", 1, True):
            args += ["-e"]
        else:
            args += ["-n", "%s,%d%s" % (num[0], num[1], ",end" if num[2] else ",begin" if num[1] % 2 else "")]
    for s in skips:
        args += ["-s", s]
    for s in removes:
        args += ["-r", s]
    names = []
    for i, f in enumerate(files):
        srv.write_file("f%d" % i, body(f))
        names.append("f%d" % i)
    exp = slow(files, num, skips, removes)
    r = srv.run(args + names)
    if exp is None:
        if r.rc == 0 or r.crashed:
            raise Violation("%s of %r must fail: %s" % (args, files, r.brief()))
        return ("err",)
    if r.rc != 0 or r.out != exp:
        raise Violation("%s of %r: expected %r, got %s" % (args, repr(files)[:400], exp[-400:], r.brief()[-400:]))
    return (r.out[:200], len(r.out))


def cases(tier):
    th = tier == "thorough"
    al = [b"a", b"\t", b"\n"]
    c3 = list(strings(al, 0, 4 if th else 3))
    c2 = list(strings(al, 0, 3 if th else 2))
    one = [h + c for h in (b"", HD) for c in c3] + [HD[:-1], b" CDX\tx\n", b" CDX\tx\nq"]
    for f in one:
        for p in PADS:
            yield ("fast", (f,), p)
    two = [h + c for h in (b"", HD) for c in c2] + [HD[:-1], b" CDX\tx\n", b" CDX\tx\nq"]
    for a in two:
        for b in two:
            for p in PADS:
                yield ("fast", (a, b), p)
    small = [h + c for h in (b"", HD) for c in (b"", b"a", b"\n", b"a\n", b"a\nb", b"a\n\n")]
    for fs in itertools.product(small, repeat=3):
        for p in PADS:
            yield ("fast", fs, p)
    if th:
        for fs in itertools.product(small, repeat=4):
            for p in PADS:
                yield ("fast", fs, p)
    for base in (8192, 16384, 32768, 65536):
        for d in range(-3, 4):
            n = base + d
            for f in (b"a" * n, b"a" * (n - 1) + b"\n", b"q\n" + b"a" * n, b"q\n" + b"a" * (n - 1) + b"\n",
                      b"\n" * n, b"a" * 100 + b"\n" + b"\n" * (n - 102) + b"z", HD + b"a" * n):
                for p in PADS:
                    yield ("ladder", (f,), p)
                    if not f.startswith(b" "):
                        yield ("ladder", (f, b"tail"), p)
    for x in range(256):
        c = bytes([x])
        for f in (c, c + b"\n", b"a" + c, b"\n" + c, c * 3 + b"\n" + c, HD + c):
            for p in PADS:
                yield ("fast", (f,), p)
            yield ("fast", (f, f), None)
    for n in (1, 2, 9, 10, 11, 99, 100, 101, 300) + ((1000, 5000) if th else ()):
        for num in (("number", 1, False), ("number", 1, True), ("n", 0, False), ("x", -5, True), ("y", 99, False)):
            for s, r in (((), ()), (("exact,7",), ()), ((), ("exact,7",)), (("infix,3",), ("infix,2",))):
                yield ("slow", ((None, tuple(b"%d" % i for i in range(n)), True), (None, (b"q", b"7"), False), (None, tuple(b"%d" % i for i in range(n // 3)), True)), num, s, r)
    for n in (1023, 1024, 9999, 10000, 32767, 32768, 65535, 65536, 70000):
        ls = tuple(b"%d" % i for i in range(n))
        for num in (None, ("number", 1, False), ("number", 1, True), ("x", -70000, True), ("y", 2 ** 40, False), ("z", 2 ** 63 - 5, False), ("z", -2 ** 63, True), ("z", 2 ** 32 - 5, True), ("z", 2 ** 63 - 1, True)):
            for s, r in (((), ()), (("exact,7",), ("exact,70000", "exact,65535")), (("infix,9",), ("prefix,1", "infix,8"))):
                if num or s or r:
                    yield ("slow", ((None, ls, True), (None, (b"q", b"7"), False)), num, s, r)
    odd = [bytes([x]) for x in range(1, 256) if x != 10] + [b"a\r", b"\ra", b" CDX", b" CDX\ta", b"\t", b"\t\t", b" ", b"\xff\xfe", "é".encode(), b"a" * 300, b"a" * 9000, b"\t" * 300, b'"a"', b"a\\nb"]
    for v in odd:
        for hd in (None, b" CDX\tx\ty"):
            if hd is None and v.startswith(b" CDX"):
                continue
            for num in (("number", 1, False), ("x", 9, True), None):
                for s, r in (((), ()), (("exact,a",), ("prefix,b",)), (("empty",), ("empty",))):
                    if num or s or r:
                        yield ("slow", ((hd, (v, b"a", v, b"b", v + v), True), (hd, (v,), True)), num, s, r)
            if v not in (b"a", b"b"):
                yield ("slow", ((hd, (v, b"", v + b"b", b"b" + v), True),), ("n", 1, False), ("exact,a", "exact,b"), ("infix,zz",))
    for k in (2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, -2 ** 31, -2 ** 32, -2 ** 53, 2 - 2 ** 63):
        for d in range(-3, 2):
            if -2 ** 63 <= k + d < 2 ** 63:
                for end in (False, True):
                    yield ("slow", ((b" CDX\tx\ty", (b"p\tq", b"r\ts", b"t\tu"), True),) * 2, ("n", k + d, end), ("prefix,r",), ())
    # matchers with modifiers, several of them, on text that is not UTF-8 as well
    mm = ["not.exact,a", "case.exact,A", "not.case.infix,A", "utf8.case.prefix,É", "not.utf8.exact,a", "utf8.not.case.infix,é", "utf8.infix,\ufffd", "not.empty", "not.utf8.prefix,\ufffd"]
    vs = (b"a", b"A", b"", b"\xff", b"\xc3\xa9a", b"\xc3\x89", b"b\xff", b"aa")
    for a in mm:
        for b in [None] + mm:
            for s, r in (((a,), ()), ((), (a,))) if b is None else (((a, b), ()), ((), (a, b)), ((a,), (b,))):
                for num in (("n", 1, False), ("n", 1, True), None):
                    yield ("slow", ((b" CDX\tx", vs, True), (b" CDX\tx", vs[::-1], True)), num, s, r)
    # the last numbering asked for counts
    opts = [(["-b"], ("number", 1, False)), (["-e"], ("number", 1, True)), (["-n", "k,5,end"], ("k", 5, True)), (["--number=m,-3,begin"], ("m", -3, False)), (["-n", "q,7,END"], ("q", 7, True)), (["-n", "q,7,Begin"], ("q", 7, False))]
    for k in (2, 3):
        for os in itertools.product(opts, repeat=k):
            for hd in (None, b" CDX\tx\ty"):
                yield ("slow", ((hd, (b"a", b"b"), True),), os[-1][1], (), (), [y for o in os for y in o[0]])
    vals = (b"a", b"", b"ab", b"b\tc", b"c")
    nums = (None, ("number", 1, False), ("number", 1, True), ("n", 0, False), ("x", -1, True), ("spoo", 9, True))
    mods = [((), ()), (("exact,a",), ()), ((), ("exact,a",)), (("empty",), ("prefix,a",)), (("prefix,a",), ("empty",)),
            (("exact,a", "empty"), ()), ((), ("exact,a", "infix,c")), (("exact,a",), ("exact,a",))]
    files = [(h, ls, nl) for h in (None, b" CDX\tx\ty") for ls in seqs(vals, 0, 4 if th else 3) for nl in (True, False)
             if not (ls == () and not nl) and not (ls and ls[-1] == b"" and not nl)]
    for f in files:
        for num in nums:
            for s, r in mods:
                if num or s or r:
                    yield ("slow", (f,), num, s, r)
    pair = [(h, ls, nl) for h in (None, b" CDX\tx\ty", b" CDX\tz") for ls in ((), (b"a",), (b"", b"a"), (b"ab", b"c\td")) for nl in (True, False)
            if ls or nl]
    for n in (2, 3):
        for fs in itertools.product(pair if n == 2 else pair[::2], repeat=n):
            for num in nums[1:5]:
                for s, r in mods[:5]:
                    yield ("slow", fs, num, s, r)
