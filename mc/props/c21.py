"""C21: wc counts exactly what is in each file, each column and in all."""
import itertools
from core import Violation, strings

BOUNDS = {
    "quick": "every content of up to 6 bytes over {a, space, tab, newline, e-acute} and every pair of 9 contents (with header, without final newline, without lines), every subset and order of counters, file/header/total options; per-column counts of 1..2 tables; every byte value and pair of 24 byte values; up to 12 files, 300 columns, 70,000 lines, lines of 70,000 bytes; column names that differ in case only; files and columns named like the words of the report; up to 65 counters in every order (up to 3 and 5 at a time), including sums of numbers above 2^24 and 2^53, with totals; every file/header/total option for per-column counts",
    "thorough": "as quick with contents of up to 7 bytes, triples of files",
}
RULE = "distinct outputs"
ASSUMPTIONS = ["a file without data lines may be left out of the report", "a missing final newline is counted as present", "numbers are compared by value, not by notation"]
OPT = {"l": "lines", "b": "bytes", "c": "chars", "w": "words"}
CONT = [b"a\n", b"a b\nc", b"\n\n", b"  x  y \n\tz\n", "é ü\n".encode(), b" CDX\tk\tv\n1\ttwo words\n3\t4\n", b" CDX\tk\tv\n", b"", b"long " * 300 + b"\nmore\n"]


def body(c):
    if c.startswith(b" CDX"):
        c = c[c.index(b"\n") + 1:]
    if c and not c.endswith(b"\n"):
        c += b"\n"
    return c


def words(s):
    return len([w for w in "".join(chr(x) if x > 32 else " " for x in s).split(" ") if w])


def counts(c, which):
    b = body(c)
    return [{"l": b.count(b"\n"), "b": len(b), "c": len(b.decode("utf-8", "replace")), "w": words(b)}[x] for x in which]


def same(row, exp):
    """row of text against row of text and numbers"""
    if len(row) != len(exp):
        return False
    for r, e in zip(row, exp):
        if isinstance(e, bytes):
            if r != e:
                return False
        else:
            try:
                if float(r) != e:
                    return False
            except ValueError:
                return False
    return True


def aggregate(x, lines):
    """One counter over lines, each with its newline"""
    if x == "sum":
        return sum(float(l) for l in lines)
    if x == "long":
        return float(sum(len(l) for l in lines))
    if x == "greatest":
        return max(float(l) for l in lines)
    return {"l": len(lines), "b": sum(len(l) for l in lines), "c": sum(len(l.decode("utf-8", "replace")) for l in lines), "w": sum(words(l) for l in lines)}[x]


ARG = {"sum": "sum", "long": "asum,chars", "l": "count", "b": "asum,chars", "c": "asum,utf8.chars", "w": "asum,swords"}


def run_aggs(srv, case):
    _, conts, seq, topt = case
    fn = {"f%02d" % i: b"".join(b"%s\n" % x for x in c) for i, c in enumerate(conts)}
    args, head = ["wc"], []
    for i, x in enumerate(seq):
        if x not in OPT or x in seq[:i]:
            args += ["-a", "n%d,%s" % (i, ARG[x])]
            head.append(b"n%d" % i)
        else:
            args.append("-" + x)
            head.append(OPT[x].encode())
    r = srv.run(args + ([] if topt is None else ["-t", topt]) + sorted(fn), files=fn)
    many = len(fn) > 1
    rows = [([b"f%02d" % i] if many else []) + [aggregate(x, [b"%s\n" % l for l in c]) for x in seq] for i, c in enumerate(conts)]
    k0 = 1 if many else 0
    tot = ([b"totals"] if many else []) + [sum(q[k0 + k] for q in rows) for k in range(len(seq))]
    if topt == "only":
        rows, k0 = [tot[k0:]], 0
    elif topt == "yes" or topt is None and many:
        rows.append(tot)
    got = [l.split(b"\t") for l in r.out.split(b"\n")]
    ok = r.rc == 0 and got.pop() == [b""]
    if ok and (len(seq) > 1 or k0):
        ok = got.pop(0) == [b" CDX"] + ([b"file"] if k0 else []) + head
    if not ok or len(got) != len(rows) or not all(same(a, b) for a, b in zip(got, rows)):
        raise Violation("%r on %s: expected %r got %s" % (args, repr(fn)[:600], rows, r.brief()))
    return (r.out[:200],)


def run_coptions(srv, case):
    _, names, fopt, hopt, topt, which = case
    rows = ((b"1 2",) * len(names), (b"xyz",) * len(names))
    fn = {"f": b" CDX\t" + b"\t".join(names) + b"\n" + b"".join(b"\t".join(r) + b"\n" for r in rows)}
    args = ["wc", "-C"] + ["-" + x for x in which]
    for o, v in (("-f", fopt), ("-h", hopt), ("-t", topt)):
        if v:
            args += [o, v]
    r = srv.run(args + ["f"], files=fn)
    one = [{"l": 2, "b": 6, "c": 6, "w": 3}[x] for x in which]
    only = topt == "only"
    many = len(names) > 1
    show = fopt == "yes" or fopt != "no" and not only
    exp = [] if only else [([n] if show else []) + one for n in names]
    if only or topt == "yes" or topt != "no" and many:
        exp.append(([b"totals"] if show else []) + [x * len(names) for x in one])
    got = [l.split(b"\t") for l in r.out.split(b"\n")]
    ok = r.rc == 0 and got.pop() == [b""]
    hd = [b" CDX"] + ([b"column"] if show else []) + [OPT[x].encode() for x in which]
    if ok and (got[:1] == [hd] or hopt == "yes" or hopt != "no" and len(which) > 1):
        ok = hopt != "no" and got and got.pop(0) == hd
    if not ok or len(got) != len(exp) or not all(same(a, b) for a, b in zip(got, exp)):
        raise Violation("%r on %r: expected %r got %s" % (args, fn, exp, r.brief()))
    return (r.out,)


def run_names(srv, case):
    _, names, topt = case
    fn = {n: b"%s w%d\n" % (b"x" * i, i) * (i + 1) for i, n in enumerate(names)}
    args = ["wc", "-l", "-b"] + (["-t", topt] if topt else []) + list(names)
    r = srv.run(args, files=fn)
    rows = [[n.encode()] + counts(fn[n], "lb") for n in names]
    tot = [b"totals"] + [sum(x[k] for x in rows) for k in (1, 2)]
    if topt == "only":
        rows = [tot[1:]]
    elif len(names) > 1:
        rows.append(tot)
    else:
        rows = [x[1:] for x in rows]
    got = [l.split(b"\t") for l in r.out.split(b"\n")]
    ok = r.rc == 0 and got.pop() == [b""] and got.pop(0) == [b" CDX"] + ([b"file"] if len(rows[0]) == 3 else []) + [b"lines", b"bytes"]
    if not ok or len(got) != len(rows) or not all(same(a, b) for a, b in zip(got, rows)):
        raise Violation("%r on %r: expected %r got %s" % (args, fn, rows, r.brief()))
    return (r.out,)


def run(srv, case):
    space = case[0]
    if space == "names":
        return run_names(srv, case)
    if space == "aggs":
        return run_aggs(srv, case)
    if space == "coptions":
        return run_coptions(srv, case)
    if space == "columns":
        _, tabs, which = case
        fn, agg, order = {}, {}, []
        for i, (names, rows) in enumerate(tabs):
            fn["f%d" % i] = b" CDX\t" + b"\t".join(names) + b"\n" + b"".join(b"\t".join(r) + b"\n" for r in rows)
            for n in names:
                if n not in agg:
                    agg[n] = [0] * len(which)
                    order.append(n)
            for r in rows:
                for n, v in zip(names, r):
                    for k, x in enumerate(which):
                        agg[n][k] += {"l": 1, "b": len(v), "c": len(v.decode("utf-8", "replace")), "w": words(v)}[x]
        args = ["wc", "-C"] + ["-" + x for x in which] + sorted(fn)
        r = srv.run(args, files=fn)
        if any(len(x) > len(names) for names, rows in tabs for x in rows):
            if r.rc == 0 or r.crashed or not r.err:
                raise Violation("%r on %r: a line has too many columns, got %s" % (args, fn, r.brief()))
            return (r.rc,)
        exp = [[n] + agg[n] for n in order]
        if len(order) > 1:
            exp.append([b"totals"] + [sum(agg[n][k] for n in order) for k in range(len(which))])
        got = [l.split(b"\t") for l in r.out.split(b"\n")]
        ok = r.rc == 0 and got.pop() == [b""]
        if ok and (len(order) > 1 or len(which) > 1):
            ok = got.pop(0) == [b" CDX", b"column"] + [OPT[x].encode() for x in which]
        if not ok or len(got) != len(exp) or not all(same(a, b) for a, b in zip(got, exp)):
            raise Violation("%r on %s: expected %r got %s" % (args, repr(fn)[:600], exp[:20], r.brief()))
        return (r.out[:300],)
    _, conts, which, fopt, hopt, topt = case
    if space == "size":
        conts = tuple(b"%d some words\n" % i * k for i, k in conts)
    fn = {"f%02d" % i: c for i, c in enumerate(conts)}
    names = sorted(fn)
    args = ["wc"] + ["-" + x for x in which]
    if fopt:
        args += ["-f", fopt]
    if hopt:
        args += ["-h", hopt]
    if topt:
        args += ["-t", topt]
    r = srv.run(args + names, files=fn)
    wh = which or ("l",)
    tonly = topt == "only"
    f = (fopt or "maybe").split(",")[0]
    show = f == "yes" or (f == "maybe" and len(conts) > 1 and not tonly)
    head = hopt == "yes" or (hopt in (None, "maybe") and (len(wh) > 1 or show))
    tot = tonly or topt == "yes" or (topt in (None, "maybe") and len(conts) > 1)
    must, exp = [], []
    for n in names:
        c = counts(fn[n], wh)
        if not tonly:
            exp.append(([n.encode()] if show else []) + c)
            must.append(bool(body(fn[n])))
    if tot:
        exp.append(([b"totals"] if show else []) + [sum(counts(fn[n], wh)[k] for n in names) for k in range(len(wh))])
        must.append(True)
    got = [l.split(b"\t") for l in r.out.split(b"\n")]
    ok = r.rc == 0 and got.pop() == [b""]
    hd = [b" CDX"] + ([(fopt.split(",")[1] if fopt and "," in fopt else "file").encode()] if show else []) + [OPT[x].encode() for x in wh]
    if ok and got and got[0][:1] == [b" CDX"]:
        ok = head and got.pop(0) == hd
    elif head and any(c for c in conts):
        ok = False
    fits = False
    for keep in itertools.product(*[(True,) if m else (True, False) for m in must]):
        want = [e for e, k in zip(exp, keep) if k]
        fits |= len(want) == len(got) and all(same(x, y) for x, y in zip(got, want))
    if not ok or not fits:
        raise Violation("%r on %r: expected %r (header %r) got %s" % (args, {k: v[:80] for k, v in fn.items()}, exp, hd if head else None, r.brief()))
    return (r.out[:200],)


def cases(tier):
    th = tier == "thorough"
    al = [b"a", b" ", b"\t", b"\n", "é".encode()]
    for c in strings(al, 1, 7 if th else 6):
        yield ("content", (c,), ("l", "b", "c", "w"), None, None, None)
    sets = [()] + [p for n in range(1, 5) for p in itertools.permutations("lbcw", n)]
    for c in CONT[:6] + CONT[8:]:
        for s in sets:
            for f in (None, "no", "yes", "yes,NN"):
                yield ("options", (c,), s, f, None, None)
    for fs in itertools.product(CONT, repeat=2):
        for s in ((), ("l", "b"), ("w",)):
            for f, h, t in itertools.product((None, "no", "yes", "maybe,X"), (None, "no", "yes"), (None, "no", "yes", "only")):
                yield ("files", fs, s, f, h, t)
    for fs in itertools.product(CONT[:8] if th else (CONT[1], CONT[5], CONT[7], CONT[8]), repeat=3):
        for s in ((), ("c", "w")):
            for t in (None, "no", "only"):
                yield ("files", fs, s, None, None, t)
    cells = (b"", b"x y", "é".encode())
    for w in (1, 2, 3):
        for n in (0, 1, 2):
            for cs in itertools.product(cells, repeat=w * n):
                t = (tuple(b"abc"[i:i + 1] for i in range(w)), tuple(cs[i * w:(i + 1) * w] for i in range(n)))
                if w * n > 4 and not th:
                    if cs[0] != b"x y":
                        continue
                for s in (("b",), ("l", "w", "c"), ("c", "b")):
                    yield ("columns", (t,), s)
                    yield ("columns", (t, ((b"b", b"d"), ((b"1", b"2 3"),))), s)
    for rows in itertools.product([(b"x",), (b"x", b"y"), (b"x", b"y", b"z")], repeat=2):
        yield ("columns", (((b"a", b"b"), rows),), ("b", "l"))
    for k in (999, 1000, 1001, 1024, 3000, 6554, 20000):
        yield ("size", ((0, k),), ("l", "b", "c", "w"), None, None, None)
        yield ("size", ((1, k), (2, 7)), ("l", "b"), None, None, None)
    A = ("l", "b", "c", "w")
    for x in range(256):
        c = bytes([x])
        for v in (c, b"a" + c, c + b"a", b"a" + c + b"b\n", c * 3, b"\n" + c, b" " + c + b" x\n", c * 300):
            if not v.startswith(b" CDX"):
                yield ("content", (v,), A, None, None, None)
        if x not in (9, 10):
            yield ("columns", (((b"a", b"b"), ((c, b"x" + c), (c + b" ", c * 300))),), A)
    few = [bytes([x]) for x in (0, 1, 9, 10, 11, 12, 13, 31, 32, 33, 65, 127, 128, 133, 160, 191, 194, 195, 226, 239, 240, 244, 254, 255)]
    for a in few:
        for b in few:
            for c in few if th else (b"", b"z", b"\xa9", b"\x80"):
                yield ("content", (a + b + c,), A, None, None, None)
    for u in ("\u0301", "e\u0301", "\u3000", "\u00a0x", "\u2028y", "\ufeffz", "\U0001f600", "\u65e5\u672c", "\u0085", "a\u200bb"):
        yield ("content", (u.encode() + b" x\n",), A, None, None, None)
        yield ("columns", (((b"a", u.encode()), ((u.encode(), b"x"),)),), A)
    for n in (4, 5, 8, 9, 10, 11, 12):
        for fs in (tuple(CONT[i % 6] for i in range(n)), tuple(CONT[(i * i) % 9] for i in range(n))):
            for s in ((), ("w",), A):
                for t in (None, "no", "only"):
                    yield ("files", fs, s, None, None, t)
    for w in (9, 10, 11, 26, 100, 255, 256, 257, 300):
        for names in (tuple(b"n%d" % i for i in range(w)), tuple(b"x" * (i + 1) for i in range(w))):
            for n in (0, 1, 3):
                t = (names, tuple(tuple(b"y" * ((i * j) % 5) for j in range(w)) for i in range(n)))
                for s in (("b",), ("w", "l")):
                    yield ("columns", (t,), s)
                    yield ("columns", (t, (names[::-1], t[1])), s)
    # wide tables with one line that is shorter or longer, anywhere
    for w in list(range(3, 13)) + [16, 17, 32, 33, 63, 64, 65, 66, 100, 128, 129, 256, 257, 300]:
        names = tuple(b"n%d" % i for i in range(w))
        for d in (-w + 1, -2, -1, 1, 2, w):
            for at in range(4):
                rows = tuple(tuple(b"y" * (1 + (i * j) % 5) for j in range(w + (d if i == at else 0))) for i in range(4))
                if w + d > 0:
                    yield ("columns", ((names, rows),), ("b", "l"))
                    if at == 1:
                        yield ("columns", (((b"a",), ((b"1",),)), (names, rows)), ("b",))
    for ns in itertools.permutations((b"a", b"A", b"aa", b"b"), 3):
        yield ("columns", ((ns, ((b"1", b"22", b"333"),)), (ns[::-1], ((b"4444", b"5 5", b""),))), ("b", "w"))
    for ns in itertools.permutations((b"totals", b"total", b"column", b"file", b"lines", b"c1"), 3):
        for s in (("b",), ("l", "w"), A):
            yield ("columns", ((ns, ((b"1", b"22", b"333"), (b"4 4", b"", b"x"))),), s)
            yield ("columns", ((ns, ((b"1", b"22", b"333"),)), (ns[::-1], ((b"4444", b"5 5", b""),))), s)
    NAMES = ("totals", "total", "Totals", "file", "lines", "a b", "x=y", "./f", "d/f", "only", "yes", "f,l", "c1", "\u00e9")
    for n in (1, 2, 3):
        for ns in itertools.permutations(NAMES, n):
            if n < 3 or ns[0] in ("totals", "f,l"):
                for t in (None, "only") if n < 3 else (None,):
                    yield ("names", ns, t)
    for ns in (("f", "f"), ("f", "g", "f"), ("totals",) * 3):
        yield ("names", ns, None)
    for n in (2, 3, 4, 5, 6):
        yield ("columns", tuple(((b"a", b"b%d" % (i % 3), b"c"), ((b"1" * i, b"2" * 7, b"3 3"),)) for i in range(n)), A)
    for k in (255, 256, 32768, 65535, 65536, 70000):
        yield ("size", ((0, k),), A, None, None, None)
        yield ("size", ((1, k), (2, 7), (3, k)), A, None, None, None)
        for v in (b"x" * k, b"x " * k, b"\n" * k, "\u00e9".encode() * k, b"x" * k + b"\ny", b" " * k + b"\n", b"\xff" * k):
            yield ("content", (v,), A, None, None, None)
        yield ("columns", (((b"a", b"b"), tuple((b"%d" % i, b"q r") for i in range(k))),), A)
        yield ("columns", (((b"a", b"b"), ((b"x" * k, b"y " * k),)),), A)
    NUM = [(b"1", b"2"), (b"16777217", b"1", b"3"), (b"99999999", b"-7"), (b"4294967295", b"4294967297"), (b"9007199254740990", b"1"), (b"0.5", b"0.25"), (b"-16777219",)]
    K = ("l", "b", "c", "w", "sum", "long")
    for n in (1, 2, 3) if th else (1, 2):
        for fs in itertools.product(NUM, repeat=n):
            for seq in (("sum",), ("long", "sum"), ("sum", "l", "sum"), K, K[::-1]):
                for t in (None, "only", "yes", "no"):
                    yield ("aggs", fs, seq, t)
    for n in (2, 3, 4, 5, 6) if th else (2, 3, 5):
        for seq in itertools.product(K, repeat=n) if n < 5 else itertools.permutations(K, n):
            yield ("aggs", (NUM[1], NUM[2], NUM[0]), seq, None)
    for n in (7, 8, 9, 16, 17, 33, 65):
        for t in (None, "only"):
            yield ("aggs", (NUM[1], NUM[2], NUM[0]), tuple(K[i % 6] for i in range(n)), t)
    for ns in ((b"a",), (b"a", b"b"), (b"a", b"b", b"c")):
        for f, h, t in itertools.product((None, "no", "yes", "maybe"), (None, "no", "yes", "maybe"), (None, "no", "yes", "maybe", "only")):
            for s in (("b",), ("l", "w"), A):
                yield ("coptions", ns, f, h, t, s)
