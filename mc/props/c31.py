"""C31: options mean the same wherever they stand and however they are spelled."""
import itertools
import os

from core import Violation

BOUNDS = {
    "quick": "40 command lines of 14 tools with up to 5 options: every order of the options (kept for options whose order counts) with every placing of the files between them, every combination of spellings (-x V, -xV, --long V, --long=V, grouped flags), with and without --; for 15 tools every set of 2 or 3 options of a pool of 3 to 13 in every order on 1 to 3 inputs; every option given twice with and without a third between; up to 300 column options of 7 kinds of cut and filegen in one command",
    "thorough": "as quick with every order x placing in every uniform spelling and sets of 4 options",
}
RULE = "distinct (tool, output) pairs"
ASSUMPTIONS = ["values that begin with a minus sign are only given as --long=V"]

FILES = {
    "A": b" CDX\tk\tv\tn\na\tx\t1\nb\ty\t2\nb\tz\t30\nd\tx\t4\n",
    "B": b" CDX\tk\tw\tm\nb\tq\t5\nc\tr\t6\nd\ts\t7\n",
    "C": b" CDX\tk\tv\tn\nb\tx\t2\nc\ty\t1\n",
    "U": b" CDX\tk\tv\nc\t1\na\t2\nb\t2\na\t1\n",
}
# tool, [(long, short, value, class)], positional arguments before the files, files, status, output
# options of one class keep their order; class "" may stand anywhere
BASE = [
    ("sort", [("key", "k", "v", "k"), ("key", "k", "k", "k"), ("unique", "u", None, "")], [], ["U"]),
    ("sort", [("key", "k", "v", "k"), ("key", "k", "k,rev", "k"), ("alt-sort", "a", None, "")], [], ["U", "U"]),
    ("sort", [("merge", "m", None, ""), ("key", "k", "k", ""), ("unique", "u", None, ""), ("alt-merge", "A", None, "")], [], ["A", "C"]),
    ("sort", [("check", "c", None, ""), ("key", "k", "k", "")], [], ["A", "C"]),
    ("sort", [("Check", "C", "1", ""), ("key", "k", "v", ""), ("unique", "u", None, "")], [], ["C"]),
    ("cut", [("fields", "f", "n", "c"), ("fields", "f", "k", "c"), ("expr", "e", "x:n*2", "c")], [], ["A"]),
    ("cut", [("group", "g", ",g:k-v", "c"), ("composite", "c", "z:^{k}/^{v}", "c"), ("fields", "f", "n", "c"), ("dups", "D", "numeric", "")], [], ["A"]),
    ("cut", [("dups", "D", "numeric", ""), ("fields", "f", "k,k", "c"), ("fields", "f", "k", "c")], [], ["A", "A"]),
    ("cut", [("expr", "e", "x:n+1", "c"), ("group", "g", ";g:n,k", "c"), ("expr", "e", "y:n", "c"), ("composite", "c", "q:-^{v}-", "c"), ("text-out", "", "y,", "")], [], ["A"]),
    ("cgrep", [("pattern", "p", "k,exact,b", ""), ("pattern", "p", "v,exact,y", "")], [], ["A", "A"]),
    ("cgrep", [("pattern", "p", "k,exact,b", ""), ("pattern", "p", "v,exact,x", ""), ("or", "o", None, ""), ("invert", "v", None, "")], [], ["A"]),
    ("cgrep", [("pattern", "p", "k,exact,b", ""), ("location", "l", "name", "l"), ("location", "l", "n2:line", "l"), ("invert", "v", None, "")], [], ["A", "C"]),
    ("cat", [("number", "n", "num,5,begin", ""), ("skip", "s", "prefix,b", ""), ("remove", "r", "prefix,d", ""), ("pad", "p", "yes", "")], [], ["A", "C"]),
    ("cat", [("end", "e", None, ""), ("remove", "r", "infix,x", ""), ("remove", "r", "infix,z", "")], [], ["A", "C"]),
    ("cat", [("begin", "b", None, ""), ("skip", "s", "infix,y", "")], [], ["A"]),
    ("join", [("key", "k", "1", ""), ("output", "o", "2.3,1.1-2", ""), ("also", "a", "1,u1", ""), ("also", "a", "2,u2", "")], [], ["A", "B"]),
    ("join", [("key", "k", "1", ""), ("file", "f", "out", ""), ("also", "a", "2,-", "")], [], ["A", "B"]),
    ("paste", [("end", "e", "late", ""), ("default", "d", "zz", ""), ("dups", "D", "numeric", "")], [], ["A", "C"]),
    ("paste", [("end", "e", "late", ""), ("last", "l", None, ""), ("rename", "r", "k.k2,v.v2", ""), ("rename", "r", "n.n2,q.r", ""), ("rename-sloppy", "R", None, "")], [], ["A", "C"]),
    ("paste", [("end", "e", "early", ""), ("dups", "D", "allow", "")], [], ["B", "C"]),
    ("sample", [("range", "r", "2,4-", "")], [], ["A", "A"]),
    ("sample", [("for", "f", "2,1,9", "")], [], ["A", "C"]),
    ("sample", [("sample", "s", "2", "")], [], ["A"]),
    ("transpose", [("head", "h", None, ""), ("lines", "n", "2", "")], [], ["A"]),
    ("tabs", [("end", "e", None, "")], [], ["A", "B"]),
    ("uniq", [("key", "k", "k", ""), ("agg", "a", "n,sum", "a"), ("agg", "a", "v,merge", "a"), ("count", "c", "cnt,end", "")], [], ["A"]),
    ("uniq", [("key", "k", "k", ""), ("agg-pre", "", "p,n,max", "a"), ("agg-pre", "", "q,v,count", "a"), ("agg-post", "", "r,v,suffix", "")], [], ["A"]),
    ("uniq", [("which", "w", "max,n,float", ""), ("key", "k", "k", ""), ("count", "c", "cnt,begin", "")], [], ["A"]),
    ("verify", [("sort", "s", None, ""), ("key", "k", "k", "k"), ("first", "f", "LT,b", ""), ("last", "l", "GT,c", ""), ("pattern", "p", "n,integer", "")], [], ["A"]),
    ("verify", [("unique", "u", None, ""), ("key", "k", "k", ""), ("report", "r", "2", "")], [], ["A", "C"]),
    ("wc", [("lines", "l", None, "w"), ("bytes", "b", None, "w"), ("words", "w", None, "w"), ("chars", "c", None, "w")], [], ["A", "B"]),
    ("wc", [("agg", "a", "q,count", "w"), ("bytes", "b", None, "w"), ("file", "f", "yes,nm", ""), ("total", "t", "yes", ""), ("with-header", "h", "yes", "")], [], ["A", "B"]),
    ("wc", [("words", "w", None, "w"), ("columns", "C", None, ""), ("total", "t", "only", ""), ("format", "F", "float", "")], [], ["A", "A"]),
    ("filegen", [("lines", "n", "3", ""), ("column", "c", "grid", "c"), ("multi", "m", "2,count", "c"), ("column", "c", "null", "c"), ("with-header", "h", None, "")], [], []),
    ("binsearch", [("key", "k", "k", ""), ("filename", "H", "f:1", ""), ("context", "C", "0,1", "")], ["b"], ["A", "C"]),
    ("binsearch", [("key", "k", "k", "k"), ("key", "k", "v", "k"), ("sub-delim", "s", ":", "")], ["b:y"], ["A"]),
    ("calc", [("fmt", "f", "float", "")], [], ["E"]),
    ("cut", [("text-in", "", "n;", ""), ("text-out", "", "n|", ""), ("fields", "f", "2,1", "")], [], ["S"]),
    ("cgrep", [("text-in", "", "n;", ""), ("pattern", "p", "2,exact,b", ""), ("invert", "v", None, "")], [], ["S"]),
    ("uniq", [("text-in", "", "n;", ""), ("key", "k", "2", ""), ("count", "c", "n,end", "")], [], ["S"]),
]
# option pools: every set of options (one value per option unless its class orders them) in every order gives one result
N = None
POOL = {
    "sort": ([("key", "k", "k", "k"), ("key", "k", "v,rev", "k"), ("unique", "u", N, ""), ("merge", "m", N, ""), ("check", "c", N, "C"), ("Check", "C", "2", "C"), ("Check", "C", "1", "C"),
              ("alt-sort", "a", N, ""), ("alt-merge", "A", N, ""), ("text-in", "", "n;", "ti")], [], [["U"], ["A", "C"], ["D"]]),
    "cut": ([("fields", "f", "n", "c"), ("fields", "f", "1-2", "c"), ("group", "g", ",g:k-v", "c"), ("expr", "e", "x:n*2", "c"), ("composite", "c", "k:^{v}", "c"),
             ("dups", "D", "Numeric", "D"), ("dups", "D", "Allow", "D"), ("dups", "D", "Fail", "D"), ("text-out", "", "y,q", "to"), ("text-in", "", "ytb", "ti")], [], [["A"], ["A", "A"]]),
    "cgrep": ([("pattern", "p", "k,exact,b", ""), ("pattern", "p", "v,exact,x", ""), ("pattern", "p", "expr,n>2", ""), ("or", "o", N, ""), ("invert", "v", N, ""), ("location", "l", "line", "l"),
               ("location", "l", "f:name.1", "l"), ("text-in", "", "mt", "ti"), ("text-out", "", "y,", "to")], [], [["A"], ["A", "C"]]),
    "cat": ([("pad", "p", "Yes", "p"), ("pad", "p", "No", "p"), ("pad", "p", "End", "p"), ("remove", "r", "infix,x", ""), ("remove", "r", "prefix,c", ""), ("skip", "s", "infix,y", ""), ("skip", "s", "prefix,b", ""),
             ("number", "n", "num,5,end", "n"), ("begin", "b", N, "n"), ("end", "e", N, "n"), ("text-in", "", "mt", "ti")], [], [["A", "C"], ["P", "C"]]),
    "join": ([("key", "k", "1", "k"), ("key", "k", "2.v,1.k", "k"), ("also", "a", "1,u1", ""), ("also", "a", "2,u2", ""), ("also", "a", "2,-", ""), ("file", "f", "out", "f"), ("output", "o", "2.3,1.1-2", "o"),
              ("output", "o", "1.2", "o"), ("text-out", "", "y,", "to")], [], [["A", "B"], ["A", "C"]]),
    "paste": ([("end", "e", "Late", "e"), ("end", "e", "Early", "e"), ("default", "d", "zz", "d"), ("default", "d", "qq,v", "d"), ("last", "l", N, ""), ("rename", "r", "k.k2", ""), ("rename", "r", "q.r", ""),
               ("rename-sloppy", "R", N, ""), ("dups", "D", "Numeric", "D"), ("dups", "D", "Allow", "D"), ("text-out", "", "y,", "to")], [], [["A", "C"], ["A", "B", "C"]]),
    "sample": ([("for", "f", "2,1,9", ""), ("sample", "s", "3", "s"), ("range", "r", "2-3", ""), ("range", "r", "1", ""), ("text-in", "", "n;", "ti")], [], [["A", "C"], ["S"]]),
    "transpose": ([("head", "h", N, ""), ("lines", "n", "2", "n"), ("lines", "n", "3", "n"), ("text-in", "", "nt", "ti"), ("text-out", "", "n,", "to")], [], [["A"], ["C"]]),
    "uniq": ([("key", "k", "k", "k"), ("key", "k", "v", "k"), ("agg", "a", "n,sum", "a"), ("agg-pre", "", "p,n,max", "a"), ("agg-post", "", "q,v,suffix", "a"), ("count", "c", "cnt,end", "c"), ("count", "c", "cnt", "c"),
              ("which", "w", "last", "w"), ("which", "w", "max,n,float", "w"), ("text-out", "", "y,", "to")], [], [["A"], ["U2"]]),
    "verify": ([("sort", "s", N, ""), ("unique", "u", N, ""), ("key", "k", "k", "k"), ("key", "k", "v", "k"), ("first", "f", "LT,b", "f"), ("first", "f", "GT,b", "f"), ("last", "l", "LE,c", "l"),
                ("pattern", "p", "n,glob,?", "p"), ("pattern", "p", "v,exact,x", "p"), ("report", "r", "2", "r"), ("report", "r", "9", "r")], [], [["A"], ["U2"]]),
    "wc": ([("lines", "l", N, "w"), ("bytes", "b", N, "w"), ("words", "w", N, "w"), ("chars", "c", N, "w"), ("agg", "a", "q,asum,chars", "w"), ("file", "f", "yes,nm", "f"), ("file", "f", "no", "f"),
            ("with-header", "h", "yes", "h"), ("with-header", "h", "no", "h"), ("total", "t", "yes", "t"), ("total", "t", "only", "t"), ("format", "F", "float", "F"), ("columns", "C", N, "")], [], [["A", "B"], ["A"]]),
    "filegen": ([("lines", "n", "3", "n"), ("lines", "n", "2", "n"), ("column", "c", "grid", "c"), ("column", "c", "count", "c"), ("multi", "m", "2,count", "c"), ("with-header", "h", N, ""), ("text-out", "", "n,", "to")], [], [[]]),
    "binsearch": ([("key", "k", "k", "k"), ("key", "k", "v", "k"), ("filename", "H", "f:1", "H"), ("context", "C", "0,1", "C"), ("context", "C", "1", "C"), ("sub-delim", "s", ":", "s")], ["b:y"], [["A"], ["A", "C"]]),
    "calc": ([("fmt", "f", "float", "f"), ("fmt", "f", "power2", "f"), ("text-in", "", "nt", "ti"), ("text-out", "", "nt", "to")], [], [["E"]]),
    "tabs": ([("end", "e", N, ""), ("text-in", "", "nt", "ti"), ("text-out", "", "n,", "to")], [], [["A"]]),
}
FILES["D"] = b"b\t1\nb\t1\na\t1\na\t2\n"
FILES["P"] = b" CDX\tk\tv\tn\na\tx\t1\nb\ty\t2"
FILES["U2"] = b" CDX\tk\tv\tn\na\tx\t1\na\tx\t5\nc\ty\t2\nb\tz\t30\nb\tz\t4\nb\ty\t1\n"
FILES["E"] = b"1+1\n2*3\n"
FILES["S"] = b"a;b;1\nc;b;2\nd;e;3\n"


def orders(opts):
    n = len(opts)
    for p in itertools.permutations(range(n)):
        if all(not (opts[p[i]][3] and opts[p[i]][3] == opts[p[j]][3] and p[i] > p[j]) for i in range(n) for j in range(i + 1, n)):
            yield p


def spell(o, form):
    l, s, v, _ = o
    if v is None:
        return ["-" + s] if s and form % 2 == 0 else ["--" + l]
    if not s:
        form = 2 + form % 2
    return [["-" + s, v], ["-" + s + v], ["--" + l, v], ["--%s=%s" % (l, v)]][form % 4]


def observe(srv, args, names):
    for n in ("out", "u1", "u2"):
        if os.path.exists(os.path.join(srv.wd, n)):
            os.unlink(os.path.join(srv.wd, n))
    r = srv.run(args, files={k: FILES[k] for k in names if k in FILES})
    extra = tuple((n, srv.read_file(n)) for n in ("out", "u1", "u2"))
    return r, (r.rc, r.out, extra, r.err.split(b"Command\t")[0])


def canonical(i):
    tool, opts, pos, files = BASE[i]
    return [tool] + ["--%s=%s" % (o[0], o[2]) if o[2] is not None else "--" + o[0] for o in opts] + pos + files


def run(srv, case):
    if case[0] == "pool":
        _, tool, ids, k = case
        opts, pos, fss = POOL[tool]
        opts, files = [opts[i] for i in ids], fss[k]
        first, canon = None, None
        for f, p in enumerate(orders(opts)):
            args = [tool] + [y for a, i in enumerate(p) for y in spell(opts[i], f + a)] + pos + files
            r, o = observe(srv, args, files)
            if r.rc not in (0, 1):
                raise Violation("%r: status %r %r" % (args, r.rc, r.err[:300]))
            # messages of commands that fail may name either of two mistakes
            o = o if o[0] == 0 or tool in ("sort", "verify") else (o[0], b"")
            if first is None:
                first, canon = o, args
            elif o != first:
                raise Violation("%r does not do what %r does: %r instead of %r" % (args, canon, o, first))
        return (tool, first[1])
    if case[0] == "many":
        _, tool, n = case
        args, head, row = [tool], [], []
        for i in range(n):
            j = i * 5 % 7
            if tool == "cut":
                o, h, v = [(["-f", "k"], b"k", b"a"), (["-e", "e%d:n+%d" % (i, i)], b"e%d" % i, b"%d" % (i + 1)), (["--composite=z%d:^{v}" % i], b"z%d" % i, b"x"), (["-fv"], b"v", b"x"), (["--fields", "n,k"], b"n\tk", b"1\ta"),
                           (["--group", ",g%d:v,n" % i], b"g%d" % i, b"x,1"), (["--expr=f%d:n-%d" % (i, i)], b"f%d" % i, b"%d" % (1 - i))][j]
            else:
                c = len(row) + 1
                o, v = [(["-c", "grid"], b"1_%d" % c), (["-m", "2,count,%d" % i], b"%d\t%d" % (i, i)), (["--column=null"], b""), (["-m1,grid"], b"1_%d" % c), (["--multi", "0,null"], None), (["--column", "count,%d" % i], b"%d" % i),
                        (["--multi=3,null"], b"\t\t")][j]
                h = None
            args += o
            if h:
                head.append(h)
            if v is not None:
                row += v.split(b"\t")
        if tool == "cut":
            args += ["-D", "allow", "M"]
            want = b" CDX\t" + b"\t".join(head) + b"\n" + b"\t".join(row) + b"\n"
        else:
            args += ["-n", "1"]
            want = b"\t".join(row) + b"\n"
        r = srv.run(args, files={"M": b" CDX\tk\tv\tn\na\tx\t1\n"})
        if r.rc or r.out != want:
            raise Violation("%r: expected %r got %r %r" % (args, want, r.out, r.err[:200]))
        return (tool, r.out)
    if case[0] == "twice":
        # one option replaces an earlier of its kind; a flag given twice is given
        _, tool, a, b, c, k = case
        opts, pos, fss = POOL[tool]
        files = fss[k]
        rest = [] if c is None else spell(opts[c], 3)
        want, got = [tool] + spell(opts[b], 3) + rest + pos + files, [tool] + spell(opts[a], 3) + rest + spell(opts[b], 3) + pos + files
        x, y = observe(srv, want, files)[1], observe(srv, got, files)[1]
        if x != y:
            raise Violation("%r does not do what %r does: %r instead of %r" % (got, want, y, x))
        return (tool, x[1])
    space, i, args = case
    tool, opts, pos, files = BASE[i]
    key = (i,)
    memo = srv.__dict__.setdefault("memo31", {})
    if key not in memo:
        r, o = observe(srv, canonical(i), files)
        from props import golden31
        if golden31.G[i] != (o[0], o[1], o[2]):
            raise Violation("%r: expected %r got %r %r" % (canonical(i), golden31.G[i], o[:3], r.err[:200]))
        memo[key] = o
    r, o = observe(srv, list(args), files)
    if o != memo[key]:
        raise Violation("%r does not do what %r does: %r instead of %r" % (args, canonical(i), o, memo[key]))
    return (tool, o[1])


# kinds where each further option adds to what was given rather than replacing it
ADDS = {("sort", "k"), ("cut", "c"), ("cgrep", "l"), ("join", "k"), ("join", "o"), ("paste", "d"), ("uniq", "k"), ("uniq", "a"), ("verify", "k"), ("wc", "w"), ("filegen", "c"), ("binsearch", "k"), ("binsearch", "H"), ("sample", "s"), ("verify", "p")}


def cases(tier):
    th = tier == "thorough"
    for n in list(range(1, 70 if th else 42)) + [63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 300]:
        yield ("many", "cut", n)
        yield ("many", "filegen", n)
    for tool, (opts, pos, fss) in POOL.items():
        for n in range(2, 5 if th else 4):
            for ids in itertools.combinations(range(len(opts)), n):
                cl = [opts[i][3] for i in ids]
                if len(set(c for c in cl if c)) + cl.count("") > 1:
                    for k in range(len(fss)):
                        yield ("pool", tool, ids, k)
        for a, x in enumerate(opts):
            for b, y in enumerate(opts):
                if (tool, x[3]) not in ADDS and (x[3] == y[3] != "" or a == b and x[2] is None):
                    for c in [None] + [i for i, z in enumerate(opts) if z[3] != y[3] or z[3] == "" and i != b]:
                        for k in range(len(fss)):
                            yield ("twice", tool, a, b, c, k)
    for i, (tool, opts, pos, files) in enumerate(BASE):
        n, m = len(opts), len(pos) + len(files)
        tail = pos + files
        forms = range(4) if th else (0,)
        yield ("order", i, tuple(canonical(i)))
        for k, p in enumerate(orders(opts)):
            for places in itertools.combinations(range(n + m), m):
                for f in forms:
                    out, a, b = [tool], 0, 0
                    for x in range(n + m):
                        if x in places:
                            out.append(tail[b])
                            b += 1
                        else:
                            out += spell(opts[p[a]], (f if th else k + a + sum(places)))
                            a += 1
                    yield ("order", i, tuple(out))
        for fs in itertools.product(range(4), repeat=n):
            if any(o[2] is None and f > 1 for o, f in zip(opts, fs)):
                continue
            o = [y for x, f in zip(opts, fs) for y in spell(x, f)]
            yield ("spelling", i, tuple([tool] + o + tail))
            yield ("spelling", i, tuple([tool] + o + ["--"] + tail))
        # flags grouped, the last letter may be an option with a value
        flags = [o for o in opts if o[2] is None and o[1]]
        rest = [o for o in opts if o not in flags]
        if flags and len({o[3] for o in flags} - {""}) == 0 or all(o[3] == "w" for o in opts):
            for p in itertools.permutations(flags) if all(o[3] == "" for o in flags) else [flags]:
                g = "-" + "".join(o[1] for o in p)
                yield ("grouped", i, tuple([tool, g] + [y for o in rest for y in spell(o, 2)] + tail))
                for q in rest:
                    if q[1] and not q[3]:
                        others = [y for o in rest if o is not q for y in spell(o, 3)]
                        yield ("grouped", i, tuple([tool, g + q[1], q[2]] + others + tail))
                        yield ("grouped", i, tuple([tool] + others + tail + [g + q[1] + q[2]]))
