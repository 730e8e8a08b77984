"""C13: cut selects exactly the requested columns, in the requested order."""
import itertools
import re
from core import Violation, seqs

BOUNDS = {
    "quick": "tables with 1..4 columns, up to 3 (ragged) rows, with and without header; every column list of up to 3 parts "
             "(2 for the widest alphabet) over numbers, +numbers, names, all forms of range, ~exclusions, renames, matchers; "
             "groups, composites; all duplicate-name modes; two and three files of the same or different columns in all combinations, empty ones among them; up to 1200 columns (repeated names among them), 70,000 rows, values of 200,000 bytes; 28 odd values under 7 lists of odd names; literals of up to 1000 bytes and 130 parts in composites",
    "thorough": "as quick with lists of up to 3 parts over the full part alphabet and 4-part lists over a reduced one",
}
RULE = "distinct (exit class, output) pairs"
ASSUMPTIONS = ["a number beyond the last column is explored only in exclusions"]

HEADS = [("a",), ("a", "b"), ("a", "b", "cc"), ("a", "b", "cc", "b2"), ("b", "a", "ab", "a_1")]
DEFNAMES = tuple("c%d" % i for i in range(1, 2001))


def single(names, s):
    if s.startswith("+"):
        n = int(s[1:]) if s[1:].isdigit() else 0
        if not 1 <= n <= len(names):
            raise LookupError
        return len(names) - n
    if s[:1].isdigit() and s[0] != "0":
        if not s.isdigit():
            raise LookupError
        return int(s) - 1
    return names.index(s) if s in names else (_ for _ in ()).throw(LookupError())


def match(spec, name):
    kind, pat = spec.split(",", 1)
    mods = kind.split(".")
    if len(mods) > 1:
        kind = mods[-1]
        if "case" in mods:
            pat, name = pat.lower(), name.lower()
        return match("%s,%s" % (kind, pat), name) != ("not" in mods)
    return {"exact": name == pat, "prefix": name.startswith(pat), "suffix": name.endswith(pat),
            "infix": pat in name, "regex": kind == "regex" and re.search(pat, name) is not None}[kind]


def part(names, p):
    """-> list of (column, newname)"""
    if p == "":
        raise LookupError
    nn, r = "", p
    if not p.startswith("(") and ":" in p:
        nn, r = p.split(":", 1)
    if r.startswith("("):
        if not r.endswith(")"):
            raise LookupError
        return [(i, nn) for i, x in enumerate(names) if match(r[1:-1], x)]
    v = r.split("-")
    if len(v) > 2:
        raise LookupError
    if len(v) == 1:
        a = b = single(names, r)
    else:
        a = single(names, v[0] or "1")
        b = single(names, v[1] or "+1")
    if a > b:
        raise LookupError
    return [(i, nn) for i in range(a, b + 1)]


def fields(names, parts):
    neg = set()
    pos = []
    anypos = False
    for p in parts:
        if p.startswith("~"):
            neg |= {c for c, _ in part(names, p[1:])}
        else:
            anypos = True
            pos += part(names, p)
    if not anypos:
        pos = [(i, "") for i in range(len(names))]
    return [x for x in pos if x[0] not in neg]


def push(cols, name, dups):
    if name in cols:
        if dups == "Fail":
            raise LookupError
        if dups == "Numeric":
            k = 1
            while name + str(k) in cols:
                k += 1
            name += str(k)
    cols.append(name)


def expect(names, rows, opts, dups, has):
    head = []
    sel = []
    for o, v in opts:
        if o == "-f":
            f = fields(names, v)
            for c, nn in f:
                push(head, nn or names[c], dups)
            sel.append(("f", [c for c, _ in f]))
        elif o == "-g":
            d, nm, parts = v
            f = fields(names, parts)
            push(head, nm, dups)
            sel.append(("g", d, [c for c, _ in f]))
        elif o == "-c":
            nm, pieces = v
            push(head, nm, dups)
            sel.append(("c", [p if isinstance(p, bytes) else single(names, p) for p in pieces]))
    if has and not head:
        raise LookupError  # a header without columns is refused
    sel = [s for s in sel if not (s[0] == "f" and not s[1])]
    out = []
    for r in rows:
        def get(c):
            return r[c] if c < len(r) else b""
        w = []
        for s in sel:
            if s[0] == "f":
                w.append(b"\t".join(get(c) for c in s[1]))
            elif s[0] == "g":
                w.append(s[1].encode().join(get(c).replace(s[1].encode(), b" ") for c in s[2]))
            else:
                w.append(b"".join(p if isinstance(p, bytes) else get(p) for p in s[1]))
        out.append(b"\t".join(w))
    return head, out


def optargs(opts):
    a = []
    for o, v in opts:
        if o == "-f":
            a += ["--fields=" + ",".join(v)]
        elif o == "-g":
            a += ["-g", "%s%s:%s" % (v[0], v[1], ",".join(v[2]))]
        else:
            # braces are needed only before something that could be part of the name
            t = ""
            for i, p in enumerate(v[1]):
                n = v[1][i + 1] if i + 1 < len(v[1]) else "."
                bare = i % 2 == 0 and (isinstance(n, str) or not (n[:1].isalnum() or n[:1] == b"_")) and n != b""
                t += p.decode().replace("^", "^^") if isinstance(p, bytes) else ("^" + p if bare else "^{%s}" % p)
            a += ["-c", v[0] + ":" + t]
    return a


def files(srv, case):
    """several files, each with its own columns; what is selected must agree"""
    _, fs, opts = case
    args, exp, first, differ, fn = ["cut"] + optargs(opts), b"", None, False, {}
    for i, (hd, rows, nl) in enumerate(fs):
        fn["f%d" % i] = (b"" if hd is None else b" CDX\t" + "\t".join(hd).encode() + b"\n") + b"\n".join(b"\t".join(r) for r in rows) + (b"\n" if nl and rows else b"")
        if hd is None and not rows:
            continue
        names = list(hd) if hd is not None else DEFNAMES[:len(rows[0])]
        try:
            head, out = expect(names, rows, opts, "Fail", hd is not None)
        except LookupError:
            differ = True
            break
        h = b" CDX\t" + "\t".join(head).encode() + b"\n" if hd is not None else b""
        if first is None:
            first = h
            exp += h
        elif h != first:
            differ = True
            break
        exp += b"".join(x + b"\n" for x in out)
    r = srv.run(args + list(fn), files=fn)
    if r.crashed or (r.rc != 0) != differ or (not exp.startswith(r.out) if differ else r.out != exp):
        raise Violation("%s on %r: expected %s%r got %s" % (args, fn, "an error after at most " if differ else "", exp, r.brief()))
    return (r.rc, r.out)


def run(srv, case):
    if case[0] == "files":
        return files(srv, case)
    space, hd, rows, opts, dups = case
    if hd is not None:
        names = hd
        data = b" CDX\t" + "\t".join(hd).encode() + b"\n"
    else:
        names = DEFNAMES[:len(rows[0])]
        data = b""
    data += b"".join(b"\t".join(r) + b"\n" for r in rows)
    args = ["cut"] + optargs(opts) + (["-D", dups] if dups != "Fail" else [])
    r = srv.run(args, stdin=data)
    try:
        head, out = expect(list(names), rows, opts, dups, hd is not None)
    except LookupError:
        if r.crashed or r.rc == 0:
            raise Violation("%s on %r should be refused: %s" % (args, data, r.brief()))
        if r.out:
            raise Violation("%s on %r wrote output although refused: %s" % (args, data, r.brief()))
        return ("refused",)
    exp = b""
    if hd is not None:
        exp = b" CDX\t" + "\t".join(head).encode() + b"\n"
    exp += b"".join(x + b"\n" for x in out)
    if r.rc != 0 or r.out != exp:
        raise Violation("%s on %r: expected %r got %s" % (args, data, exp, r.brief()))
    return (r.rc, r.out)


def mkrows(n, k):
    """k rows for an n column table, one short and one long among them"""
    full = tuple(b"%d%s" % (i, c) for i, c in zip(range(n), (b"w", b"", b"y y", b"z,")))
    rows = [full, full[: n - 1] or (b"",), full + (b"extra",)]
    return tuple(rows[:k])


def parts_for(names, rich):
    n = len(names)
    p = []
    for i in range(1, n + 1):
        p += [str(i), "+%d" % i, names[i - 1]]
    p += ["-", "nosuch", "+0", "+%d" % (n + 1), "2-1" if n > 1 else "1-1"]
    if rich:
        ends = [str(i) for i in (1, n)] + ["+1", "+2", names[0], names[-1], ""]
        p += ["%s-%s" % (x, y) for x in ends for y in ends]
        p += ["~1", "~+1", "~" + names[-1], "~1-+1", "~%d" % (n + 1), "~%d-%d" % (n, n + 3), "q:1", "q:" + names[0], "q:+1", "q:1-", "a:2" if n > 1 else "a:1",
              "(prefix,a)", "(suffix,b)", "(exact,b)", "(infix,a)", "(exact,zz)", "~(prefix,a)", "~(exact,b)", "q:(exact,a)", "", "(regex,^((a)|(b(2)?))$)", "(not.exact,a)", "~(not.prefix,a)", "(case.exact,A)", "(not.case.prefix,B)", "q:(not.infix,zz)", "~(regex,(((c)+)))", "1-2-3", "(prefix,a", "1x", "+", "+x", "0", "-0", "1--2", "1- ", "A"]
    else:
        p += ["2-", "~1", "~+1", "q:1", "(prefix,a)", "~(exact,b)", "-2" if n > 1 else "-1"]
    seen, out = set(), []
    for x in p:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def usable(n, names, v):
    """keep numbers within the table"""
    for p in v:
        if p.startswith("~"):
            continue
        q = p
        q = q.split(":", 1)[1] if ":" in q and not q.startswith("(") else q
        if q.startswith("("):
            continue
        for e in q.split("-"):
            if e.isdigit() and e[0] != "0" and int(e) > n:
                return False
    return True


def cases(tier):
    th = tier == "thorough"
    hs = [("a", "b", "cc"), ("cc", "a", "b"), ("b", "cc", "q", "a"), ("a", "cc"), ("x", "b", "a", "y", "cc", "z")]
    kinds = [(None, (), True)]
    for h in hs:
        v = tuple(b"%s%d" % (n.encode(), len(h)) for n in h)
        kinds += [(h, (), True), (h, (v, v[:-1], (b"",)), True)]
    kinds += [(hs[0], ((b"1", b"2", b"3"),), False), (hs[1], ((b"", b"p"),), False)]
    po = [(("-f", ("a",)),), (("-f", ("cc", "a")),), (("-f", ("q:a", "cc")),), (("-g", (",", "g", ("cc", "a"))),), (("-c", ("z", ("a", b"/", "cc"))),),
          (("-f", ("cc",)), ("-c", ("z", ("a",))), ("-g", (";", "g", ("a", "cc")))), (("-f", ("(exact,cc)", "(regex,^a$)")),), (("-f", ("a-cc",)),), (("-f", ("+1",)),), (("-f", ("~b",)),)]
    for n in (2, 3) + ((4,) if th else ()):
        for fs in itertools.product(kinds, repeat=n):
            for o in po:
                try:
                    for f in fs:
                        if f[0]:
                            expect(list(f[0]), (), o, "Fail", True)
                except LookupError:
                    continue
                yield ("files", fs, o)
    kinds = [(None, (), True)] + [(None, rs, nl) for w in (1, 2, 3, 5) for rs in (((b"p%d" % w,) + (b"",) * (w - 2) + (b"r",) * (w > 1), (b"", b"s"), (b"t",) * (w + 1)), ((b"u",) * w,)) for nl in (True, False)]
    for n in (2, 3):
        for fs in itertools.product(kinds, repeat=n):
            if n == 3 and not th and not all(f[2] for f in fs):
                continue
            for o in ((("-f", ("1",)),), (("-f", ("+1",)),), (("-f", ("-",)),), (("-f", ("+1", "1")),), (("-g", (",", "g", ("-",))),), (("-c", ("z", ("+1", b"-", "1"))),), (("-f", ("c1", "+1")), ("-f", ("1-",)))):
                yield ("files", fs, o)
    for hd in HEADS:
        n = len(hd)
        rows = mkrows(n, 3)
        for has in (True, False):
            names = hd if has else DEFNAMES[:n]
            h = hd if has else None
            P = parts_for(names, True)
            for v in seqs(P, 1, 3 if th and n == 3 else 2):
                if usable(n, names, v):
                    yield ("list", h, rows, (("-f", v),), "Fail")
            R = parts_for(names, False)
            if n == 3 or th:
                for v in seqs(R, 3, 4 if th and n == 2 else 3):
                    if usable(n, names, v):
                        yield ("list3", h, rows, (("-f", v),), "Fail")
            base = [str(i) for i in range(1, n + 1)]
            for dm in ("Fail", "Allow", "Numeric"):
                for v in seqs(base + ["q:1", "a1:1", names[0] + "1:+1"], 1, 4):
                    if len(set(v)) < len(v) or any(":" in x for x in v):
                        yield ("dups", h, rows[:2], (("-f", v),), dm)
            G = ["1", "+1", "-", names[0], "~1", "(prefix,a)", "nosuch"]
            for d in (",", ".", ";"):
                for v in seqs(G, 1, 2):
                    yield ("group", h, rows, (("-g", (d, "gg", v)),), "Fail")
                    yield ("group", h, rows, (("-f", ("1",)), ("-g", (d, "gg", v)), ("-f", ("q:+1",))), "Fail")
            for v in seqs(["1", "q:+1", "r:" + names[0], "(exact,zz)", "~1", "~-"], 2, 3):
                yield ("several", h, rows, tuple(("-f", (x,)) for x in v), "Fail")
            C = ["1", "+1", names[0], names[-1], b"x", b"^", b"1", b" "]
            for bad in ("+%d" % (n + 1), "+%d" % (n + 2), "nosuch"):
                for v in ((bad,), (b"x", bad), ("1", bad, b"y"), (bad, "1")):
                    yield ("composite", h, rows, (("-c", ("cmp", v)),), "Fail")
            for k in (7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000):
                t = b"".join(b"%d." % i for i in range(k))[:k]
                for v in ((t,), (t, "1"), ("1", t), ("1", t, "+1", t[1:]), (t, "1", b"-", "1", t)):
                    yield ("composite", h, rows, (("-c", ("cmp", v)),), "Fail")
            for k in (4, 5, 8, 9, 16, 17, 33, 65, 130):
                yield ("composite", h, rows, (("-c", ("cmp", tuple("%d" % (1 + i % n) if i % 2 else b"%d" % i for i in range(k)))),), "Fail")
                yield ("composite", h, rows, (("-c", ("cmp", tuple("+%d" % (1 + i % n) for i in range(k)))),), "Fail")
            for v in seqs(C, 0, 3):
                yield ("composite", h, rows, (("-c", ("cmp", v)),), "Fail")
            for v in seqs(C[:5], 1, 2):
                yield ("composite", h, rows, (("-f", ("1",)), ("-c", ("cmp", v))), "Fail")
                yield ("composite", h, rows, (("-c", ("cmp", v)), ("-f", ("1",)), ("-g", (",", "g", ("-",)))), "Fail")
    # odd values and odd names, by every way of selecting them
    odd = [b"a\r", b"\r", b"\ra", b"\0", b"a\0", b"\x0b", b" ", b" a ", b"\"", b"\"a\"", b"\\", b"a\\n", b"\xff", b"\xc3", b"\xc3\xa9", b"\x7f", b"\x01", b"CDX", b" CDX", b"#", b"-", b"~1", b"^1", b"^{1}", b"%", b"'", b"a\x85", b"\xef\xbb\xbf"]
    for names in (("a__b", "a_b", "a_"), ("A", "a", "aA"), ("\u00e9\u00e9", "e", "\u4e2d9_\u00df"), ("n" * 300, "n" * 299, "n"), ("x1", "x10", "x1_"), ("CDX", "cdx", "Cdx"), ("a___", "a__", "a____b__c")):
        for i, v in enumerate(odd):
            rows = ((v, b"m", odd[i - 1]), (b"1", v, b"2"), (b"3", b"4", v), (v, v, v), (b"5", v))
            for o in ((("-f", names[::-1]),), (("-f", ("q:" + names[0],)),), (("-f", (names[0] + "-" + names[1], "q:+1")),), (("-g", (",", "g", names)),), (("-c", ("z", (names[0], b".", names[2], b"-", names[1]))),),
                      (("-c", ("z", (names[1], b"x", names[0]))), ("-f", (names[2],))), (("-f", ("(exact,%s)" % names[1],)), ("-c", ("z", ("1", "2", "3")))), (("-f", ("~" + names[1],)),)):
                yield ("odd", names, rows, o, "Fail")
    # size ladder: number of columns and of rows, long lists, long values
    for n in (1, 2, 3, 5, 8, 9, 10, 11, 12, 16, 33, 130, 300, 1200):
        for k in (0, 1, 2, 7, 100, 2000, 70000):
            if n * k > 300000 and (n, k) != (5, 70000):
                continue
            rows = tuple(tuple(b"%d.%d" % (i, j) for j in range(n)) for i in range(k))
            for names in (tuple("n%d" % i for i in range(1, n + 1)), None):
                if names is None and not k:
                    continue
                m = names or DEFNAMES[:n]
                for v in (("-",), ("+1",), (m[-1], "1") if n > 1 else ("1",), ("~+1",), ("2-+2",) if n > 3 else ("1",), ("%d" % n,), (m[0] + "-" + m[-1],), ("+%d-+1" % n,), tuple("%d" % i for i in range(n, 0, -1)),
                          tuple(m[n // 2:] + m[:n // 2]), ("~1-+2", "-") if n > 2 else ("1",)):
                    if k < 70000 or v[0] in ("-", "+1"):
                        yield ("ladder", names, rows, (("-f", v),), "Fail")
                if k == 2 and n < 200:
                    yield ("ladder", names, rows, (("-f", tuple("1" for _ in range(n))),), "Numeric")
                    yield ("ladder", names, rows, tuple(("-f", ("r%d:%d" % (i, i),)) for i in range(1, min(n, 30) + 1)), "Fail")
                    yield ("ladder", names, rows, (("-g", (";", "gg", ("-",))), ("-c", ("cc", tuple(m[::-1])))), "Fail")
    # many columns of the same names, several tables side by side
    for n in (9, 10, 11, 99, 100, 101, 254, 255, 256, 257, 300, 1100):
        for hd in (tuple("n%d" % i for i in range(1, n + 1)), ("a", "a1") + tuple("a%d" % i for i in range(3, n + 1)), tuple("x" * (n - i) for i in range(n))):
            rows = (tuple(b"%d" % j for j in range(n)),)
            for dm in ("Fail", "Allow", "Numeric"):
                for v in ((("-",), ("1",)), (("-",), ("+1",)), (("-",), ("-",)), (("-",), ("%d" % (n // 2),), ("%d" % (n // 2),))):
                    if n <= 300 or len(v[1][0]) < 2 and v[1] != ("-",):
                        yield ("many", hd, rows, tuple(("-f", x) for x in v), dm)
            yield ("many", hd, rows, (("-f", ("~1-%d" % (n - 1),)),), "Fail")
            yield ("many", hd, rows, (("-f", ("~%d-" % (n // 2),)),), "Fail")
            yield ("many", hd, rows, (("-f", ("~(not.exact,%s)" % hd[-1],)),), "Fail")
            yield ("many", hd, rows, (("-f", tuple("~%d" % i for i in range(2, n + 1))),), "Fail")
            yield ("many", hd, rows, (("-f", ("(prefix,%s)" % hd[n // 2],)),), "Fail")
    for size in (255, 256, 4095, 8191, 8192, 8193, 65535, 65536, 65537, 200000):
        rows = tuple((b"x" * (size if i == j else 1), b"y" * (size if i == j + 1 else 0), b"z") for i in range(3) for j in range(2))
        for v in (("2",), ("1",), ("3", "1"), ("+1", "2"), ("~2",)):
            for h in (("a", "b", "cc"), None):
                yield ("ladder", h, rows, (("-f", v),), "Fail")
        yield ("ladder", ("a", "b", "cc"), rows, (("-g", (";", "gg", ("-",))), ("-c", ("q", ("2", b"-", "1")))), "Fail")
