"""C24: text formats: values survive being written and read back; decoding follows the documented rules."""
import itertools

from core import Violation, strings, seqs

BOUNDS = {
    "quick": "every raw input of up to 7 bytes over {a , \" newline} in quote mode and over {a , \\ n newline} in backslash mode (up to 6), "
             "every 1- and 2-value table of values of up to 3 bytes over {a, delimiter, quote, backslash, newline, t} through every pair of "
             "input and output formats and three delimiters; every byte value, bare, escaped and quoted; every punctuation character as delimiter, also without --text-out; groups, composites and aggregates of 18 x 18 values through 30 pairs of formats; every pair of shortened format letters; values of up to 65 kB, 1000 lines within quotes, 1000 columns; groups of lines in every way of choosing and counting them",
    "thorough": "raw inputs up to 8 bytes, values up to 4 bytes",
}
ASSUMPTIONS = ["a quote that is not closed runs to the end of the file, a backslash at the end of a line is itself",
               "the fifth format character (line delimiter) stays a newline"]
Q, B = ord('"'), ord("\\")
UN = {ord("n"): 10, ord("r"): 13, ord("t"): 9}


def read_quote(data, delim):
    """documented: the delimiter is ignored between double quotes; two quotes within a value mean one"""
    rows, row, cur, inq, started = [], [], bytearray(), False, False
    i = 0
    while i < len(data):
        c = data[i]
        started = True
        if inq:
            if c == Q:
                if i + 1 < len(data) and data[i + 1] == Q:
                    cur.append(Q)
                    i += 1
                else:
                    inq = False
            else:
                cur.append(c)
        elif c == Q:
            if cur and i + 1 < len(data) and data[i + 1] == Q:
                cur.append(Q)
                i += 1
            else:
                inq = True
        elif c == delim:
            row.append(bytes(cur))
            cur = bytearray()
        elif c == 10:
            row.append(bytes(cur))
            rows.append(row)
            row, cur, started = [], bytearray(), False
        else:
            cur.append(c)
        i += 1
    if started:
        if inq and cur.endswith(b"\n"):
            cur.pop()       # the newline that ends the file
        row.append(bytes(cur))
        rows.append(row)
    return rows


def read_back(data, delim):
    rows = []
    if data.endswith(b"\n"):
        data = data[:-1]
    elif not data:
        return []
    for line in data.split(b"\n"):
        row, cur, i = [], bytearray(), 0
        while i < len(line):
            c = line[i]
            if c == B and i + 1 < len(line):
                i += 1
                cur.append(UN.get(line[i], line[i]))
            elif c == delim:
                row.append(bytes(cur))
                cur = bytearray()
            else:
                cur.append(c)
            i += 1
        row.append(bytes(cur))
        rows.append(row)
    return rows


def read_plain(data, delim):
    if data.endswith(b"\n"):
        data = data[:-1]
    elif not data:
        return []
    return [l.split(bytes([delim])) for l in data.split(b"\n")]


READ = {"q": read_quote, "b": read_back, "p": read_plain}


def write_val(v, mode, delim, repl):
    d = bytes([delim])
    if mode == "p":
        return v.replace(d, repl).replace(b"\n", repl)
    if mode == "q":
        if Q in v or d in v or b"\n" in v:
            return b'"' + v.replace(b'"', b'""') + b'"'
        return v
    return v.replace(b"\\", b"\\\\").replace(b"\n", b"\\n").replace(d, b"\\t" if delim == 9 else b"\\" + d)


def dchar(d):
    return {9: "t", 32: "s"}.get(d, chr(d))


def fmt(mode, d, repl="~"):
    return "n" + dchar(d) + mode + repl


NOTREAD = {
    "sort": (["sort", "--text-in", "n,", "-k", "2"], {"f": b"a,3\nb,1\n"}, ["f"], b"b,1\na,3\n"),
    "join": (["join", "--text-in", "n,", "-k", "1"], {"f": b"a,3\n", "g": b"a,7\n"}, ["f", "g"], b"a,3,7\n"),
    "binsearch": (["binsearch", "--text-in", "n,", "b"], {"f": b"a,3\nb,1\n"}, ["f"], b"b,1\n"),
}
# header and lines of one output are in one format: all in the one asked for, or all as read
MIXED = {
    "cgrep": (["cgrep", "--text-out", "y,", "-p", "k,exact,a"], (b"k,v\na,1\n", b" CDX\tk\tv\na\t1\n")),
    "uniq": (["uniq", "--text-out", "y,", "-k", "k", "-c", "n"], (b"n,k,v\n1,a,1\n1,b,2\n", b" CDX\tn\tk\tv\n1\ta\t1\n1\tb\t2\n")),
    "paste": (["paste", "--text-out", "y,"], (b"k,v\na,1\nb,2\n", b" CDX\tk\tv\na\t1\nb\t2\n")),
    "cat": (["cat", "--text-out", "y,", "-b"], (b"number,k,v\n1,a,1\n2,b,2\n", b" CDX\tnumber\tk\tv\n1\ta\t1\n2\tb\t2\n")),
}


def run(srv, case):
    if case[0] == "mixed":
        args, want = MIXED[case[1]]
        r = srv.run(args + ["f"], files={"f": b" CDX\tk\tv\na\t1\nb\t2\n"})
        if r.crashed or r.rc != 0 or r.out not in want:
            raise Violation("%r: header and lines are in different formats: %s" % (args, r.brief()))
        return (r.out,)
    if case[0] == "notread":
        args, files, names, want = NOTREAD[case[1]]
        r = srv.run(args + names, files=files)
        if r.crashed or r.rc != 0 or r.out != want:
            raise Violation("%r on %r: %s, expected %r" % (args, files, r.brief(), want))
        return (r.out,)
    space = case[0]
    if space == "raw":
        _, mode, delim, data = case
        rows = READ[mode](data, delim)
        r = srv.run(["cut", "--text-in", fmt(mode, delim), "--text-out", "n|p~", "--fields=-"], stdin=data)
        w = len(rows[0]) if rows else 0
        exp = b"".join(b"|".join((x + [b""] * w)[i].replace(b"\n", b"~") for i in range(w)) + b"\n" for x in rows)
        if r.rc != 0 or r.out != exp:
            raise Violation("reading %r in mode %s: expected columns %r, got %s" % (data, mode, rows, r.brief()))
        return (r.out,)
    if space == "same":
        _, mode, delim, data, args = case
        r = srv.run([args[0], "--text-in", fmt(mode, delim)] + list(args[1:]), stdin=data)
        exp = data if not data or data.endswith(b"\n") else data + b"\n"
        if r.rc != 0 or r.out != exp:
            raise Violation("%s in mode %s must copy %r as is: %s" % (args, mode, data, r.brief()))
        return (r.out,)
    if space == "select":
        # a matcher or key sees decoded values; the lines written are the lines read
        _, mode, delim, rows, want = case
        enc = [bytes([delim]).join(write_val(v, mode, delim, b"~") for v in row) + b"\n" for row in rows]
        r = srv.run(["cgrep", "--text-in", fmt(mode, delim), "-p", b"c2,exact," + want], stdin=b"".join(enc))
        exp = b"".join(e for e, row in zip(enc, rows) if row[1] == want)
        if r.rc != 0 or r.out != exp:
            raise Violation("cgrep for %r in %r mode %s: expected %r got %s" % (want, b"".join(enc), mode, exp, r.brief()))
        return (r.out,)
    if space == "groups":
        _, mode, delim, rows = case
        enc = [bytes([delim]).join(write_val(v, mode, delim, b"~") for v in row) + b"\n" for row in rows]
        r = srv.run(["uniq", "--text-in", fmt(mode, delim), "-k", "2"], stdin=b"".join(enc))
        exp = b"".join(e for i, (e, row) in enumerate(zip(enc, rows)) if i == 0 or row[1] != rows[i - 1][1])
        if r.rc != 0 or r.out != exp:
            raise Violation("uniq on %r mode %s: expected %r got %s" % (b"".join(enc), mode, exp, r.brief()))
        # whichever line of a group is written, it is written as it was read
        gs = []
        for e, row in zip(enc, rows):
            if not gs or gs[-1][0] != row[1]:
                gs.append((row[1], []))
            gs[-1][1].append(e)
        dd = bytes([delim])
        for extra, f in ((["-w", "last"], lambda g: g[-1]), (["-w", "min,1"], lambda g: g[0]), (["-w", "max,1"], lambda g: g[-1]),
                         (["-c", "n"], lambda g: b"%d" % len(g) + dd + g[0]), (["-c", "n,end", "-w", "last"], lambda g: g[-1][:-1] + dd + b"%d\n" % len(g)),
                         (["-c", "n", "-w", "max,1"], lambda g: b"%d" % len(g) + dd + g[-1]), (["-c", "n,end", "-w", "min,1,rev"], lambda g: g[-1][:-1] + dd + b"%d\n" % len(g))):
            srv.extra += 1
            a = ["uniq", "--text-in", fmt(mode, delim), "-k", "2", *extra]
            r = srv.run(a, stdin=b"".join(enc))
            if r.rc != 0 or r.out != b"".join(f(g) for _, g in gs):
                raise Violation("%r on %r: expected %r got %s" % (a, b"".join(enc), b"".join(f(g) for _, g in gs), r.brief()))
        return (exp,)
    if space == "computed":
        # columns made of several values are one value of the output format
        _, im, idl, om, odl, a, b = case
        dd = bytes([idl])
        rows = [(a, b), (a, b + b"z")] if om != "p" else [(a, b)]
        data = b"".join(dd.join(write_val(v, im, idl, b"~") for v in row) + b"\n" for row in rows)
        fin = [[v.replace(dd, b"~").replace(b"\n", b"~") if im == "p" else v for v in row] for row in rows]
        same = (im, idl) == (om, odl)
        to = [] if same else ["--text-out", fmt(om, odl)]
        r1 = srv.run(["cut", "--text-in", fmt(im, idl)] + to + ["-g", ";g:1-2", "-c", "z:<^{2}^{1}>", "-f", "2"], stdin=data)
        g = lambda v: v.replace(b";", b" ").replace(b"\n", b" ")
        e1 = [[g(x) + b";" + g(y), b"<" + y + x + b">", y] for x, y in fin]
        r2 = srv.run(["uniq", "--text-in", fmt(im, idl)] + to + ["-k", "1", "-a", "2,max", "--agg-post", "p,2,prefix", "--agg-pre", "m,2,min", "--agg-post", "n,1,count"], stdin=data)
        ys = [y for _, y in fin]
        e2 = [[min(ys), fin[0][0], max(ys), ys[0][:len(ys[0])] if len(ys) == 1 or ys[1].startswith(ys[0]) else b"", b"%d" % len(ys)]]
        for r, e in ((r1, e1), (r2, e2)):
            e = [[v.replace(bytes([odl]), b"~").replace(b"\n", b"~") if om == "p" else v for v in row] for row in e]
            if r.rc != 0 or READ[om](r.out, odl) != e:
                raise Violation("computed columns, %s -> %s on %r: expected %r got %s" % (fmt(im, idl), fmt(om, odl), data, e, r.brief()))
        return (r1.out, r2.out)
    if space == "wc":
        # names, counts and totals are columns of the output format
        _, im, idl, om, odl, names, cols = case
        dd = bytes([idl])
        files = {n: dd.join([b"a b", b"c"]) + b"\n" + dd.join([b"d", b"e%d" % i]) + b"\n" for i, n in enumerate(names)}
        to = [] if (im, idl) == (om, odl) else ["--text-out", fmt(om, odl)]
        r = srv.run(["wc", "--text-in", fmt(im, idl)] + to + ["-l", "-w"] + (["-C"] if cols else []) + ["-f", "yes", "-t", "yes"] + list(names), files=files)
        n = len(names)
        if cols:
            exp = [[b"c1", b"%d" % (2 * n), b"%d" % (3 * n)], [b"c2", b"%d" % (2 * n), b"%d" % (2 * n)], [b"totals", b"%d" % (4 * n), b"%d" % (5 * n)]]
        else:
            # the delimiter is no white space unless it is a blank or tab
            w = 5 if idl in (9, 32) else 3
            exp = [[x.encode(), b"2", b"%d" % w] for x in names] + [[b"totals", b"%d" % (2 * n), b"%d" % (w * n)]]
            if om == "p":
                exp = [[v.replace(bytes([odl]), b"~") for v in row] for row in exp]
        exp = [[b"column" if cols else b"file", b"lines", b"words"]] + exp
        got = READ[om](r.out, odl)
        if r.rc != 0 or got != exp and got != exp[1:]:
            raise Violation("wc%s %s -> %s on %r: expected %r got %s" % (" -C" if cols else "", fmt(im, idl), fmt(om, odl), files, exp, r.brief()))
        return (r.out,)
    if space == "default":
        # without --text-out the output is in the format of the input
        _, m, dl, rows = case
        dd = bytes([dl])
        data = b"".join(dd.join(write_val(v, m, dl, b"~") for v in row) + b"\n" for row in rows)
        vals = [[v.replace(dd, b"~").replace(b"\n", b"~") if m == "p" else v for v in row] for row in rows]
        r = srv.run(["cut", "--text-in", fmt(m, dl), "-f", "2,1"], stdin=data)
        exp = b"".join(dd.join(write_val(v, m, dl, b"~") for v in row[::-1]) + b"\n" for row in vals)
        if r.rc != 0 or r.out != exp:
            raise Violation("cut --text-in %s on %r: expected %r got %s" % (fmt(m, dl), data, exp, r.brief()))
        return (r.out,)
    if space == "short":
        # letters left out of a format mean tab, plain and a space for what plain can not show
        _, ti, to = case
        fi, fo = "ntps", "ntps"
        fi, fo = ti + fi[len(ti):], to + fo[len(to):]
        d = {"t": 9, "s": 32, "r": 13}
        di, do = (d.get(f[1], ord(f[1])) for f in (fi, fo))
        rows = [[b"a", b'x"y', b"p\\q"], [b"", b"\t,", b"; |"], [b"1 2", b"n", b"t"]]
        data = b"".join(bytes([di]).join(write_val(v, fi[2], di, b"_") for v in r) + b"\n" for r in rows)
        vals = READ[fi[2]](data, di)
        rp = {"s": b" ", "t": b"\t"}.get(fo[3], fo[3].encode())
        exp = b"".join(bytes([do]).join(write_val(v, fo[2], do, rp) for v in r) + b"\n" for r in vals)
        r = srv.run(["cut", "--text-in", ti, "--text-out", to, "--fields=-"], stdin=data)
        if r.rc != 0 or r.out != exp:
            raise Violation("cut %s -> %s on %r: expected %r got %s" % (ti, to, data, exp, r.brief()))
        return (r.out,)
    _, im, idl, om, odl, rows, hdr = case
    dd = bytes([idl])
    data = b"".join(dd.join(write_val(v, im, idl, b"~") for v in row) + b"\n" for row in rows)
    head = b""
    if hdr:
        n = len(rows[0])
        head = b" CDX" + dd + dd.join(b"h%d" % i for i in range(n)) + b"\n"
        ti, to = "m" + fmt(im, idl)[1:], "m" + fmt(om, odl)[1:]
    else:
        ti, to = fmt(im, idl), fmt(om, odl)
    r = srv.run(["cut", "--text-in", ti, "--text-out", to, "--fields=-"], stdin=head + data)
    if r.rc != 0:
        raise Violation("cut %s -> %s on %r failed: %s" % (ti, to, data, r.brief()))
    out = r.out
    if hdr:
        od = bytes([odl])
        h = b" CDX" + od + od.join(b"h%d" % i for i in range(n)) + b"\n"
        if not out.startswith(h):
            raise Violation("cut %s -> %s on %r: header: %s" % (ti, to, head + data, r.brief()))
        out = out[len(h):]
    got = READ[om](out, odl)
    exp = [[v.replace(bytes([odl]), b"~").replace(b"\n", b"~") if om == "p" else v for v in row] for row in
           ([[v.replace(dd, b"~").replace(b"\n", b"~") if im == "p" else v for v in row] for row in rows])]
    if got != exp or (out and not out.endswith(b"\n")):
        raise Violation("cut %s -> %s on %r: values %r came back as %r: %s" % (ti, to, data, exp, got, r.brief()))
    return (r.out,)


def cases(tier):
    for t in NOTREAD:
        yield ("notread", t)
    for t in MIXED:
        yield ("mixed", t)
    th = tier == "thorough"
    for d in strings(b'a,"\n', 0, 8 if th else 7):
        yield ("raw", "q", 44, d)
        if d.count(b'"') % 2 == 0:
            if len(d) <= 5:
                for a in (("cgrep", "-p", ",glob,*"), ("cat", "--pad", "yes"), ("cgrep", "-p", ",yes"), ("cgrep", "-p", "1,length,0")):
                    yield ("same", "q", 44, d, a)
    for d in strings(b"a,\\n\n", 0, 7 if th else 6):
        yield ("raw", "b", 44, d)
    for d in strings(b"a\t\\\n", 0, 6):
        yield ("raw", "b", 9, d)
        if len(d) <= 5:
            yield ("same", "b", 9, d, ("cgrep", "-p", ",glob,*"))
        yield ("raw", "p", 9, d)
    # every byte, alone, within a value, escaped and quoted; every printable delimiter
    for x in range(256):
        if x in (10, 124):
            continue  # newline; '|' is what the columns are shown with
        c = bytes([x])
        for pre, post in ((b"", b""), (b"a", b"b"), (b"c,", b""), (b"", b",d"), (b"a", b"\nb,c")):
            yield ("raw", "p", 44, pre + c + post)
            if x != Q:
                yield ("raw", "q", 44, pre + c + post)
                yield ("raw", "q", 44, pre + b'"' + c + b'"' + post)
            if x != B:
                yield ("raw", "b", 44, pre + c + post)
            yield ("raw", "b", 44, pre + b"\\" + c + post)
        for im in "qb":
            for om in "qbp":
                for odl in (44, 9, 32):
                    yield ("trip", im, 44, om, odl, ((c, b"x" + c, c + b"x"),), False)
    for dl in range(33, 127):
        if chr(dl) in "~nrts\\\"abcdvwxyz0|" or chr(dl).isalnum():
            continue
        for m in "qbp":
            for v in (b"a", b"", bytes([dl]), b"a" + bytes([dl]), b"\n", b"\\", b'"'):
                yield ("trip", m, dl, m, dl, ((v, b"z"), (b"", v)), False)
                yield ("trip", m, dl, "b", 44, ((b"y", v),), False)
    for dl in [9, 32] + list(range(33, 127)):
        if chr(dl) in "~nrts\\\"" or chr(dl).isalnum():
            continue
        for im in "qb":
            for om in "pqb":
                for v in (b"\n", b"a\nb", b"\n\n", bytes([dl]) + b"\n", b"x" + bytes([dl]) * 2 + b"y", b"\t\n \n,"):
                    yield ("trip", im, 44 if dl != 44 else 9, om, dl, ((v, b"z"), (b"q" + v, v)), False)
    for dl in [9, 32] + list(range(33, 127)):
        if chr(dl) in "~\\\"" or chr(dl).isalnum():
            continue
        for m in "qbp":
            for v in (b"a", b"", bytes([dl]), b"a" + bytes([dl]) + b"b", b"\n", b"\\", b'"', b"q\\nr"):
                if dl == 92 or m == "q" and dl == Q:
                    continue
                yield ("default", m, dl, ((v, b"z"), (b"y", v), (v, v)))
    cv = [b"a", b"", b",", b"\t", b'"', b"\\", b"\n", b";", b'""', b'a"b', b"a,b", b'",', b'"\n"', b"\\n", b"n", b'a"', b'"a', b"x\ty;z"]
    for im, idl in (("q", 44), ("b", 9), ("q", 9), ("b", 44), ("p", 9)):
        for om, odl in (("q", 44), ("b", 9), ("q", 9), ("b", 44), ("p", 9), ("p", 44)):
            for a in cv:
                for b in cv:
                    yield ("computed", im, idl, om, odl, a, b)
    for im, idl, om, odl in itertools.product("pqb", (9, 44, 124), "pqb", (9, 44, 59, 124)):
        for names in (("f",), ("f", "g"), ("f,x", "g|y", "h;z"), ('a"b', "c"), ("a\\n", "b,\"c")):
            for cols in (False, True):
                yield ("wc", im, idl, om, odl, names, cols)
    delims = (9, 44, 124)
    fmts = [(m, d) for m in "qbp" for d in delims]
    for im, idl in fmts:
        for om, odl in fmts:
            al = [b"a", b'"', b"\\", b"\n", b"t"] + sorted({bytes([idl]), bytes([odl])})
            for v in strings(al, 0, 3 if not th else 4):
                yield ("trip", im, idl, om, odl, ((v,),), False)
            short = list(strings(al, 0, 1)) + [b'""', b'\\"', b'"\n', b'\n\n']
            for a in short:
                for b in short:
                    yield ("trip", im, idl, om, odl, ((a, b),), False)
                    yield ("trip", im, idl, om, odl, ((a, b"x"), (b"", b)), True)
    specs = [("n" + d + q + x)[:k] for d in ("t", ",", ";", "s") for q in "pqb" for x in ("s", "_", "t") for k in (1, 2, 3, 4)]
    for ti in sorted(set(specs)):
        for to in sorted(set(specs)):
            yield ("short", ti, to)
    # long values with something special anywhere near a buffer boundary, many lines within quotes, many columns and rows
    for n in (100, 4096, 8192, 16384, 65536):
        for off in (-3, -2, -1, 0, 1, 2):
            for x in (b'"', b"\\", b"\n", b",", b'""', b"\\n", b"\n\n", b'"\n"'):
                v = b"x" * (n + off) + x + b"y"
                for im, om in (("q", "q"), ("b", "b"), ("q", "b"), ("b", "p")):
                    yield ("trip", im, 44, om, 44, ((v, b"z"), (b"", b"w")), False)
    for k in (3, 10, 100, 1000):
        v = b"\n".join(b'l%d "q" \\' % i for i in range(k))
        for im in "qb":
            for om in "qbp":
                yield ("trip", im, 44, om, 9, ((v, b"z"), (b"", v), (v, v)), True)
                yield ("trip", im, 44, om, 44, tuple((b"%d" % i, b'"%d' % i, b"\n" * (i % 3), b",") for i in range(k)), False)
                yield ("trip", im, 44, om, 44, (tuple(b'"%d,' % i for i in range(k)),) * 2, k > 10)
    for mode in "qb":
        for delim in (44, 9):
            al = [b"a", b'"', b"\\", bytes([delim])]
            vals = list(strings(al, 0, 2))
            for v in vals:
                if not v:
                    continue
                for w in vals[:9]:
                    yield ("select", mode, delim, ((b"1", v), (b"2", w), (b'"', v), (b"4", w)), v)
            for c in seqs(vals[:8], 1, 3):
                yield ("groups", mode, delim, tuple((b"%d" % i, v) for i, v in enumerate(c)))
