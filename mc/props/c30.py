"""C30: whatever the options and the input, cdx ends by itself: success, or an error with a message."""
import itertools
import os
import re

from core import Violation, plan

RULE = "distinct (tool, option, exit status) triples with the kind of message"
BOUNDS = {
    "quick": "61 options of 15 tools with every string of one of 36 characters and of two of 16, with every deletion, doubling and truncation and a quarter of all insertions and replacements of a character in 1..14 valid specifications each, "
             "37 odd and huge numbers for every number, on an input with a header (the shorter ones also without and on nothing); 56 command lines on every input of up to 2 of 18 pieces and 3 of 7, with and without header, wide, long and many lines; "
             "missing and repeated files, folders, every option without value, twice, unknown, every pair of options of a tool",
    "thorough": "as quick with strings of three characters, all insertions and replacements, all specifications on three inputs, inputs of 4 pieces",
}
ASSUMPTIONS = ["arguments are UTF-8", "no ranges of more than 70,000 columns and no more than 70,000 lines are asked for", "no claim about which strings are accepted, only that the answer is success or a reported error", "sizes that would take long are not asked for"]

H = b" CDX\ta\tb\tc1\n1\tx\t2.5\n2\t\xc3\xa9\t-1\n2\tx y\t\n10\t\xff\t1e3\n"
N = b"1\tx\t2.5\n2\ty\n\n10\tzz\t1e3\t7\n"
INPUTS = {"h": H, "n": N, "e": b""}
AL = ["a", "1", "0", "9", ",", ".", ":", ";", "-", "+", "~", "(", ")", "[", "]", "{", "}", "<", ">", "=", "^", "*", "%", "!", "|", "\\", "\"", " ", "\u00e9", "c", "$", "#", "@", "_", "?", "'"]
COMP = ["1", "a,rev", "b,lower", "1,float.rev", "2,expr,a+1", ",len", "1,numeric.strict.low", "a.b,plain", "3,ip.trail"]
MATCH = ["a,exact,x", "1,glob,*x*", "2,regex,^x$", "1,range,<3", "1,range,>=1,float", "b,length,1,3", "1,not.case.utf8.prefix,x", "1,or,prefix,/a/b", "a.b,any,exact,1", "1,comp,lt.2,float", ",expr,a*2>1", "1,and.infix,:x:y", "1,num-gt.2", "2,null.trim.empty"]
MVAL = ["exact,x", "glob,*x*", "regex,^x$", "range,<3", "length,1,3", "or.prefix,/a/b", "not.case.utf8.prefix,x", "comment,#", "blank", "integer"]
COLS = ["1", "a-b", "b,a", "~a", "+1", "2-", "(range,<b)", "1:q", "n:a", "a+upper", "1+bytes,1-2.lower", "-", "<*a>", "c+from_base64"]
AGG = ["a,sum", "b,merge,sort.uniq.D;,", "1,min,float", "c1,mean", "2,merge,max_len:3.comp:lower", "b,asum,chars", "b,prefix", "1,expr,a+b", "2,utf8.amax,chars", "1,count"]
OPTS = {
    ("binsearch", "-k"): (COMP, ["x", "@"]), ("binsearch", "-H"): (["file:2", "name", "1"], ["x", "@"]), ("binsearch", "-C"): (["1", "1.2,3", "0,2.1"], ["x", "@"]), ("binsearch", "-s"): ([",", ";"], ["-k", "1", "-k", "2", "x,y", "@"]),
    ("calc", "-f"): (["plain", "float", "short", "power2", "power10"], ["@"]),
    ("cat", "-p"): (["yes", "no", "end"], ["@", "@"]), ("cat", "-r"): (MVAL, ["@"]), ("cat", "-s"): (MVAL, ["@"]), ("cat", "-n"): (["num,1,begin", "n,5", "x,0,end"], ["@"]),
    ("cgrep", "-p"): (MATCH, ["@"]), ("cgrep", "-l"): (["name", "q:file.2", "line,bytes", "n:name:2"], ["-p", "1,yes", "@"]),
    ("cut", "-f"): (COLS, ["@"]), ("cut", "-g"): ([";n:a,b", ",:1-2", "-g:~a"], ["@"]), ("cut", "-e"): (["n:a+1", "x:max(a,c1)", "plain,y:[a]*2!", "z:a<1"], ["@"]), ("cut", "-c"): (["n:^{a}-^{2}", "x:^^^a^{1-2}"], ["@"]), ("cut", "-D"): (["fail", "allow", "numeric"], ["-f", "1,1", "@"]),
    ("filegen", "-n"): (["3", "07"], ["-c", "grid"]), ("filegen", "-c"): (["grid", "count,5", "decimal,-12.34", "expr,plain,line*col", "normal,3,1,short", "n:null", "decimal,007.10", "normal,1"], ["-n", "3"]), ("filegen", "-m"): (["2,grid", "3,count,1", "2,n,decimal,5"], ["-n", "3"]),
    ("join", "-k"): (COMP, ["@", "@"]), ("join", "-a"): (["1,u", "2,u"], ["@", "@"]), ("join", "-f"): (["u"], ["@", "@"]), ("join", "-o"): (["1.1,2.2", "1.a-b,2.~a", "2.1,2,1.1"], ["@", "@"]),
    ("paste", "-e"): (["early", "exact", "late"], ["@", "@"]), ("paste", "-d"): (["x", "x,1", "0,a-b", "^:,c^1,2"], ["-e", "late", "@", "@"]), ("paste", "-r"): (["a.x", "a.x,b.y", "1.q,2.r"], ["-D", "numeric", "@", "@"]), ("paste", "-D"): (["fail", "allow", "numeric"], ["@", "@"]),
    ("sample", "-f"): (["1,1,3", "2,0,9", "2"], ["@"]), ("sample", "-s"): (["2", "3"], ["@"]), ("sample", "-r"): (["1-2", "2,+1", "1,3-", "-2"], ["@"]),
    ("sort", "-k"): (COMP, ["@"]), ("sort", "-C"): (["3"], ["@"]),
    ("tabs", "-e"): (None, ["@"]),
    ("transpose", "-n"): (["3"], ["@"]),
    ("uniq", "-a"): (AGG, ["-k", "1", "@"]), ("uniq", "--agg-pre"): (["n," + x for x in AGG], ["-k", "1", "@"]), ("uniq", "--agg-post"): (["n," + x for x in AGG[:5]], ["-k", "1", "@"]), ("uniq", "-k"): (COMP, ["@"]), ("uniq", "-c"): (["n,end", "x,begin", "n"], ["@"]), ("uniq", "-w"): (["min,2", "max,a,float", "last"], ["-k", "1", "@"]),
    ("verify", "-r"): (["3"], ["-p", "1,exact,z", "@"]), ("verify", "-f"): (["LT,5", ">=,x", "eq,1"], ["@"]), ("verify", "-l"): (["LT,5", "!=,x"], ["-k", "2,float", "@"]), ("verify", "-k"): (COMP, ["-s", "@"]), ("verify", "-p"): (MATCH, ["@"]),
    ("wc", "-a"): (["n,awords", "x,utf8.asum,chars", "y,max,length"], ["@"]), ("wc", "-f"): (["yes,n", "maybe", "no"], ["@"]), ("wc", "-h"): (["yes", "maybe"], ["@"]), ("wc", "-t"): (["yes", "only", "maybe"], ["@"]), ("wc", "-F"): (["float", "power2"], ["@"]),
    ("cut", "--text-in"): (["y,qs", "ntb_n", "m;p"], ["-f", "1", "@"]), ("cut", "--text-out"): (["y,qs", "ntb_n", "m;p"], ["-f", "1-2", "@"]), ("cgrep", "--text-in"): (["n,q", "mtb"], ["-p", "2,exact,x", "@"]), ("uniq", "--text-in"): (["n,q", "mtb"], ["-k", "2", "@"]),
}


CORE = ["a", "1", "0", ",", ".", ":", "-", "+", "~", "(", ")", "[", "<", "^", "*", "\u00e9"]
NUMS = ["0", "00", "3", "4", "-1", "+1", "1.5", "65535", "65536", "70000", "1e400", "1e-400", "nan", "inf", "1K", ""]
BIG = [str(b + d) for b in (2 ** 31, 2 ** 32, 10 ** 18, 2 ** 63, 2 ** 64) for d in (-2, -1, 0, 1)] + ["9" * 25]
SIGNED = {("cat", "-n"), ("filegen", "-c"), ("verify", "-f"), ("calc", "-f")}
SLOW = {("filegen", "-n"), ("filegen", "-m")}

# command lines for odd input; @ is the file, = a second one
LINES = [["binsearch", "-k", "1", "a", "@"], ["binsearch", "-k", "2,float", "-C", "1", "1", "@"], ["calc", "@"], ["cat", "@", "@"], ["cat", "-b", "@"], ["cat", "-e", "-s", "blank", "@"], ["cat", "-r", "length,2", "@"], ["cgrep", "-p", "1,exact,a", "@"], ["cgrep", "-p", "1,utf8.case.prefix,A", "-p", "2,regex,.", "-o", "@"],
         ["cgrep", "-p", ",expr,c1>c2", "-l", "name,line", "@"], ["cgrep", "--text-in", "mtq", "-p", "2,glob,*", "@"], ["cgrep", "--text-in", "mtb", "-p", "2,glob,*", "@"], ["cut", "-f", "1", "@"], ["cut", "-f", "2-", "-g", ",n:1-2", "@"], ["cut", "-e", "n:c1*2!", "@"], ["cut", "-c", "n:^{1}^{2}", "@"],
         ["cut", "-f", "1+bytes,1-2.upper", "@"], ["cut", "-f", "1+from_base64", "@"], ["cut", "-f", "1+utf8.lower", "@"], ["cut", "-f", "1+normspace", "@"], ["cut", "--text-in", "mtq", "--text-out", "mtb", "--fields=-", "@"], ["cut", "--text-in", "mtb", "--text-out", "m,q", "--fields=-", "@"], ["join", "-k", "1", "@", "="], ["join", "-k", "2,lower", "-a", "1,u", "-a", "2,v", "=", "@"],
         ["paste", "@", "="], ["paste", "-e", "late", "-l", "@", "="], ["sample", "-s", "2", "@"], ["sample", "-r", "1,+1", "@"], ["sample", "-f", "1,1,9", "@"], ["sort", "@"], ["sort", "-k", "1,float", "-a", "@"], ["sort", "-k", "2,numeric", "-k", "1,ip.rev", "-u", "@"], ["sort", "-k", "1,expr,c1+1", "@"], ["sort", "-k", "1,random", "@"], ["sort", "-m", "-k", "1", "@", "="], ["sort", "-m", "-A", "-k", "2", "@", "="], ["sort", "-C", "9", "-k", "1,len", "@"],
         ["tabs", "@"], ["tabs", "-e", "@", "="], ["transpose", "@"], ["transpose", "-h", "@"], ["uniq", "@"], ["uniq", "-k", "1", "-c", "n,end", "-w", "max,2", "@"], ["uniq", "-k", "1,lower", "-a", "2,merge,sort.uniq", "@"], ["uniq", "-k", "1", "--agg-pre", "n,1,prefix", "--agg-post", "m,2,mean", "@"], ["uniq", "-k", "1", "-a", "2,utf8.asum,chars", "@"], ["uniq", "-k", "1", "-a", "2,suffix", "@"], ["uniq", "-k", "1", "-a", "2,max,numeric", "@"],
         ["verify", "-s", "@"], ["verify", "-u", "-k", "1,float", "-f", "GT,0", "-l", "LT,9", "@"], ["verify", "-p", "1,integer", "-p", "2,not.empty", "-r", "9", "@"], ["wc", "@"], ["wc", "-C", "@", "="], ["wc", "-l", "-b", "-c", "-w", "-t", "yes", "@", "="], ["wc", "-a", "n,awords", "-a", "m,max,length", "@"], ["cat", "-p", "yes", "@", "="]]
BYTES = [b"a", b"1", b"\t", b"\n", b"\xff", b"\0", b'"', b"\\", b" ", b"\xc3\xa9", b"-", b".", b"\r", b"x" * 300, b"\t" * 20, b" CDX", b"\xe2\x82", b"YQ=="]
SMALL = [b"a", b"\t", b"\n", b"\xff", b'"', b"\\", b"1"]
OTHER = b" CDX\ta\tb\na\t1\nb\t2\n"


def edits(s, all):
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        yield s[:i] + s[i] + s[i:]
        yield s[:i]
    for i in range(len(s) + 1):
        for j, c in enumerate(AL):
            if all or (i + j) % 4 == 0:
                yield s[:i] + c + s[i:]
            if i < len(s) and (all or (i + j) % 4 == 1):
                yield s[:i] + c + s[i + 1:]


def specs(o, th):
    valid = OPTS[o][0]
    seen = {""}
    seen.update(AL)
    for n in range(2, 4 if th else 3):
        seen.update("".join(t) for t in itertools.product(AL if th and n == 2 else CORE, repeat=n))
    for v in valid:
        seen.add(v)
        seen.update(edits(v, th))
        for m in re.finditer(r"\d+", v):
            for b in NUMS:
                if o not in SLOW or len(b) < 4:
                    seen.add(v[:m.start()] + b + v[m.end():])
            if o not in SLOW and v[:m.start()][-1:] != "-":
                for b in BIG:
                    seen.add(v[:m.start()] + b + v[m.end():])
            if o in SIGNED:
                for b in BIG:
                    seen.add(v[:m.start()].rstrip("-") + "-" + b + v[m.end():])
        seen.add(v + "," + v)
        seen.add(v * 3)
        seen.add(v.upper())
        seen.add(v + "x" * 300)
    return sorted(seen)


def look(srv, args, files):
    r = srv.run(args, files=files, pl=plan(timeout=20))
    srv.extra += 1
    if r.crashed:
        raise Violation("%r on %r: %s" % (args, files, r.brief()))
    if r.rc != 0 and not r.err:
        raise Violation("%r on %r fails without a message: %s" % (args, files, r.brief()))
    return (r.rc, bool(r.err), bool(r.out))


def run(srv, case):
    if case[0] == "opt":
        _, tool, opt, inp, chunk = case
        seen = set()
        for spec in chunk:
            files = {"f": INPUTS[inp]}
            args = [tool] + ([opt] if spec is None else [opt + "=" + spec] if opt[1] == "-" else [opt, spec] if not spec.startswith("-") else [opt + spec]) + ["f" if x == "@" else x for x in OPTS[(tool, opt)][1]]
            seen.add(look(srv, args, files))
        srv.clean()
        return (tool, opt, inp, tuple(sorted(seen)))
    if case[0] == "input":
        _, k, chunk = case
        seen = set()
        for data in chunk:
            seen.add(look(srv, [{"@": "f", "=": "g"}.get(x, x) for x in LINES[k]], {"f": data, "g": OTHER}))
        srv.clean()
        return (k, tuple(sorted(seen)))
    _, args = case
    srv.clean()
    os.makedirs(srv.wd + "/dir")
    o = look(srv, list(args), {"f": H, "g": N})
    srv.clean()
    return (args[0] if args else None, o)


def chunks(l, n):
    for k in range(0, len(l), n):
        yield tuple(l[k:k + n])


def cases(tier):
    th = tier == "thorough"
    for o, (valid, _) in OPTS.items():
        sp = [None] if valid is None else specs(o, th)
        for inp in INPUTS:
            for c in chunks(sp if inp == "h" or th else [x for x in sp if x is None or len(x) < 2 or x in valid], 60):
                yield ("opt",) + o + (inp, c)
    data = [b""] + [b"".join(t) for n in (1, 2) for t in itertools.product(BYTES, repeat=n)] + [b"".join(t) for n in ((3, 4) if th else (3,)) for t in itertools.product(SMALL, repeat=n)]
    data += [b" CDX\ta\tb\n" + d for d in data if d] + [b"a\t1\n" + d + b"\tz\n" for d in data[:120]]
    data += [b"a\t" * n + b"b\n" for n in (9, 10, 255, 256, 300, 1000)] + [b"a\tb\n" * n for n in (255, 256, 300, 1000, 3000)] + [b"x" * n + b"\tb\n" for n in (255, 256, 4096, 8192, 65535, 65536, 70000)]
    for k in range(len(LINES)):
        for c in chunks(data, 60):
            yield ("input", k, c)
    # files that are not there, are folders, are named twice; options missing, repeated, without value, unknown
    for t in sorted({o[0] for o in OPTS} | {"tooltest"}):
        yield ("odd", (t,))
        for a in (["nosuch"], ["dir"], ["f", "nosuch"], ["nosuch", "f"], ["f", "dir"], ["f", "f", "g", "g"], ["-Z"], ["--nosuch", "f"], ["--nosuch=3"], ["--"], ["--", "f"], ["-"], ["f", "-", "-"], [""], ["--help"], ["--version"], ["--std-help"], ["--text-in", "?", "f"], ["--text-out=?", "f"]):
            yield ("odd", (t, *a))
        for (t2, opt), (valid, rest) in OPTS.items():
            if t2 == t:
                r = ["f" if x == "@" else x for x in rest]
                v = valid[0] if valid else None
                for a in ([opt], r + [opt], [opt, v, opt, v] + r, [opt, v] + r + [opt, v, "g"], [opt, v, "nosuch"], [opt, v, "dir"], [opt, v], [opt, v] + r + ["dir"], r[-1:] + [opt, v] + r):
                    if None not in a:
                        yield ("odd", (t, *a))
                for (t3, o3), (v3, _) in OPTS.items():
                    if t3 == t and o3 != opt and v and v3:
                        for x in (valid if th else valid[:1]):
                            for y in v3[:3]:
                                yield ("odd", (t, opt, x, o3, y, *r))
    for a in ([], ["nosuch"], ["-h"], ["--help"], ["--version"], [""], ["cat cat"], ["version"], ["help"]):
        yield ("odd", tuple(a))
    for t in ("const", "func", "agg", "comp", "gen", "match", "text", "trans"):
        yield ("odd", ("cat", "--std-" + t))
