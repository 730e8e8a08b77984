"""C27: tooltest passes a test exactly if the command did what the test file says."""
import itertools
import os
import re
from core import Violation

BOUNDS = {
    "quick": "every actual x expected stdout and stderr over 5 outputs and 13 expectations (block, block without newline, empty, missing, 6 matchers) x 4 actual (one a signal) x 4 expected statuses; outfiles: every actual x expected pair of sets of up to two files over 3 contents; every order of the sections; stdin and infiles delivered byte for byte over 7 contents; every sequence of up to 3 test files over 12 kinds; bad test files; 10 unknown lines after each section; files with odd names left behind or missing; outputs, inputs and files of up to 300,000 bytes that differ in one place or not at all, on both streams at once; up to 30 output files and 300 tests; every byte value; 12 x 17 outputs and expectations with blank lines; 14 actual x 24 expected statuses (signals, beyond a byte, negative); up to 300 words per command with $TMP anywhere; 28 matchers with blanks, commas and modifiers on each stream and on files",
    "thorough": "as quick with all stdout x stderr x status combinations and sequences of 4 test files",
}
RULE = "distinct (space, verdict, reasons) triples"
ASSUMPTIONS = ["commands have no double spaces (each gives an empty argument)", "a file is not both #infile and #outfile", "tests do not share a persistent directory"]

# out err status file=content...   (contents are printf formats, '@' is nothing)
HELPER = b"""#!/bin/sh
case "$1" in @) ;; *) printf "$1" ;; esac
case "$2" in @) ;; *) printf "$2" >&2 ;; esac
st=$3
shift 3
for x in "$@"; do
  case "$x" in
    copy=*) cat > "${x#copy=}" ;;
    del=*) rm "${x#del=}" ;;
    cp=*) y=${x#cp=}; cat "${y%%:*}" ;;
    dir=*) mkdir "${x#dir=}" ;;
    *) printf "${x#*=}" > "${x%%=*}" ;;
  esac
done
case "$st" in sig*) kill -${st#sig} $$ ;; esac
exit $st
"""


def fmt(b):
    return b"@" if not b else b.replace(b"\\", b"\\\\").replace(b"\n", b"\\n").replace(b" ", b"\\040").replace(b"\t", b"\\t").replace(b"\r", b"\\r").replace(b"%", b"%%")


ACT = [b"", b"a\n", b"a", b"a\nb\n", b"ab\n"]
# expectation: (text for tag, predicate)
EXP = {
    "none": (None, lambda x: x == b""),
    "empty": ((b"", b""), lambda x: x == b""),
    "a": ((b"", b"a\n"), lambda x: x == b"a\n"),
    "a-": ((b"", b"a\n#nonewline\n"), lambda x: x == b"a"),
    "ab": ((b"", b"a\nb\n"), lambda x: x == b"a\nb\n"),
    "ab-": ((b"", b"a\nb\n#nonewline\n"), lambda x: x == b"a\nb"),
    "A": ((b"", b"A\n"), lambda x: x == b"A\n"),
    "nl": ((b"", b"\n"), lambda x: x == b"\n"),
    "prefix": ((b" prefix,a", b""), lambda x: x.startswith(b"a")),
    "infix": ((b" infix,b", b""), lambda x: b"b" in x),
    "notinfix": ((b" infix.not,b", b""), lambda x: b"b" not in x),
    "emptym": ((b" empty", b""), lambda x: x == b""),
    "glob": ((b" glob,*b*", b""), lambda x: b"b" in x),
    "exact": ((b" exact,a", b""), lambda x: x == b"a"),
}
STAT = ["0", "1", "3", "sig9"]
ESTAT = [None, "0", "1", "3"]


def block(tag, e):
    t = EXP[e][0]
    return b"" if t is None else tag + t[0] + b"\n" + t[1]


def status(e):
    return b"" if e is None else b"#status " + e.encode() + b"\n"


def code(e):
    return 0 if e is None else int(e)


def execute(srv, files, args=(), tests=None):
    names = list(tests if tests is not None else sorted(x for x in files if x.startswith("t")))
    srv.clean()
    srv.write_file("bin/helper", HELPER)
    os.chmod(os.path.join(srv.wd, "bin/helper"), 0o755)
    r = srv.run(["tooltest", "-b", os.path.join(srv.wd, "bin"), *args, *names], files=files)
    return r


def judge(r, wants, files, what):
    """wants: test name -> should pass"""
    npass = sum(1 for _, w in wants if w)
    nfail = len(wants) - npass
    line = b"%d test run, %d pass, %d failed\n" % (len(wants), npass, nfail)
    if r.crashed or r.out != line or (r.rc != 0) != (nfail > 0):
        raise Violation("%s: expected %r, got %s with %r" % (what, line, r.brief(), files))
    for n, w in wants:
        said = re.search(rb"Test " + n.encode() + rb" failed", r.err) is not None
        if said == w:
            raise Violation("%s: test %s should %s, but stderr is %r with %r" % (what, n, "pass" if w else "be reported", r.err[:500], files))


def spec(out, err, st, files=()):
    return b"#command helper " + b" ".join([fmt(out), fmt(err), st.encode()] + [b"$TMP/" + n + b"=" + fmt(c).replace(b"@", b"") for n, c in files]) + b"\n"


CONT = [b"", b"a\n", b"a\nb"]
STDIN = [b"", b"x\n", b"x", b"x\ny\n", b"\n", b"x\n\ny\n", b" CDX\ta\n1\n", b"a\tb\n", b"\xff\n"]


def blockof(b):
    if b == b"":
        return b""
    return b if b.endswith(b"\n") else b + b"\n#nonewline\n"


KINDS = {
    "ok": (spec(b"a\n", b"", "0") + b"#stdout\na\n", True),
    "okfile": (spec(b"", b"", "0", [(b"o", b"x\n")]) + b"#infile i\nz\n#outfile o\nx\n", True),
    "okstatus": (spec(b"", b"e", "3") + b"#stderr\ne\n#nonewline\n#status 3\n", True),
    "badout": (spec(b"b\n", b"", "0") + b"#stdout\na\n", False),
    "badstatus": (spec(b"", b"", "1") + b"#infile i\nz\n", False),
    "missing": (spec(b"", b"", "0", [(b"p", b"y\n")]) + b"#outfile o\nx\n#outfile p\ny\n", False),
    "extra": (spec(b"", b"", "0", [(b"o", b"x\n"), (b"q", b"1")]) + b"#outfile o\nx\n", False),
    "dir": (b"#command helper @ @ 0 dir=$TMP/d\n#infile i\nz\n", False),
    "deleted": (b"#command helper @ @ 0 $TMP/p=1 del=$TMP/i\n#infile i\nz\n#outfile p\n1\n#nonewline\n", None),
    "noexec": (b"#command nosuchhelper\n#infile i\nz\n#stdin\nx\n", False),
    "bad": (b"#command helper @ @ 0\n#wrong\n", False),
    "absent": (None, False),
}


def run(srv, case):
    space = case[0]
    if space == "verdict":
        _, out, oe, err, ee, st, se, order = case
        parts = [spec(out, err, st), block(b"#stdout", oe), block(b"#stderr", ee), status(se)]
        text = b"".join(parts[i] for i in order)
        ok = EXP[oe][1](out) and EXP[ee][1](err) and not st.startswith("sig") and int(st) == code(se)
        files = {"t": text}
        r = execute(srv, files)
        judge(r, [("t", ok)], files, "verdict")
        return (space, ok, oe, ee)
    if space == "files":
        _, actual, expected, comment, final = case
        text = spec(b"", b"", "0", actual)
        for n, c in expected:
            text += b"#outfile " + n + b"\n" + blockof(c)
            if comment:
                text += b"# a comment\n"
        if not final and text.endswith(b"\n"):
            text = text[:-1]
        # without its final newline the last line of a block has none either
        exp = dict(expected)
        if not final and expected and not comment and expected[-1][1].endswith(b"\n"):
            exp[expected[-1][0]] = exp[expected[-1][0]][:-1]
        files = {"t": text}
        r = execute(srv, files)
        ok = dict(actual) == exp
        judge(r, [("t", ok)], files, "output files")
        return (space, ok, len(actual), len(expected))
    if space == "matchfile":
        _, content, m = case
        t, f = EXP[m]
        files = {"t": spec(b"", b"", "0", [(b"o", content)]) + b"#outfile o" + t[0] + b"\n"}
        r = execute(srv, files)
        judge(r, [("t", f(content))], files, "output file matcher")
        return (space, f(content))
    if space == "input":
        _, stdin, infiles, pos = case
        secs = [b"#command helper @ @ 0 copy=$TMP/c\n"] if stdin is not None else [b"#command helper @ @ 0 " + b" ".join(b"cp=$TMP/%s:" % n for n, _ in infiles) + b"\n"]
        body = []
        if stdin is not None:
            body.append(b"#stdin\n" + blockof(stdin))
        for n, c in infiles:
            body.append(b"#infile " + n + b"\n" + blockof(c))
        secs[pos % 2:pos % 2] = body
        want = stdin if stdin is not None else b"".join(c for _, c in infiles)
        # the persistent directory shows what the command really saw
        files = {"t": b"".join(secs)}
        r = execute(srv, files, ["-t", os.path.join(srv.wd, "keep")])
        got = srv.read_file("keep/c") if stdin is not None else srv.read_file("keep/stdout")
        if got != want:
            raise Violation("input: the command saw %r rather than %r with %r (%s)" % (got, want, files, r.brief()))
        return (space, got)
    if space == "sequence":
        _, kinds = case
        files, wants = {}, []
        for i, k in enumerate(kinds):
            n = "t%d" % i
            if KINDS[k][0] is not None:
                files[n] = KINDS[k][0]
            wants.append((n, KINDS[k][1]))
        r = execute(srv, files, tests=[n for n, _ in wants])
        if any(w is None for _, w in wants):
            # whether a command may delete its input is open, but it must not matter to other tests
            said = [(n, (b"Test " + n.encode() + b" failed") not in r.err) for n, w in wants]
            wants = [(n, w if w is not None else s[1]) for (n, w), s in zip(wants, said)]
        judge(r, wants, {k: files.get("t%d" % i) for i, k in enumerate(kinds)}, "sequence %r" % (kinds,))
        left = os.listdir(srv.tmp)
        if left:
            raise Violation("sequence %r leaves %r in the temporary directory" % (kinds, left))
        return (space, tuple(w for _, w in wants))
    if space == "large":
        # the helper copies its input file to stdout or stderr or a file; what is expected differs at one place
        _, n, where, stream, nl = case
        data = bytearray(b"".join(b"line %d of many\n" % i for i in range(n // 16 + 2))[:n])
        if data:
            data[-1] = 10 if nl else 120
        exp = bytearray(data)
        if where is not None:
            if where == "cut":
                exp = exp[:-2] + b"\n"
            elif where == "more":
                exp += b"more\n" if nl else b"\nmore"
            elif where == "line":
                exp = b"first\n" + exp
            else:
                exp[where] = 33 if exp[where] != 10 else 10
        good = bytes(exp) == bytes(data)
        cmd = {"stdout": b"cat $TMP/i", "stderr": b"cat $TMP/i >&2", "both": b"cat $TMP/i $TMP/i >&2 & cat $TMP/i; wait", "file": b"cat $TMP/i > $TMP/o", "stdin": b"cat > $TMP/o"}[stream]
        srv.clean()
        srv.write_file("bin/run", b"#!/bin/sh\nTMP=$1\n" + cmd.replace(b"$TMP", b'"$TMP"') + b"\n")
        os.chmod(os.path.join(srv.wd, "bin/run"), 0o755)
        text = b"#command run $TMP\n" + (b"#stdin\n" if stream == "stdin" else b"#infile i\n") + blockof(bytes(data))
        e = blockof(bytes(exp))
        text += {"stdout": b"#stdout\n" + e, "stderr": b"#stderr\n" + e, "file": b"#outfile o\n" + e, "stdin": b"#outfile o\n" + e,
                 "both": b"#stderr\n" + blockof(bytes(data) * 2) + b"#stdout\n" + e}[stream]
        r = srv.run(["tooltest", "-b", os.path.join(srv.wd, "bin"), "t"], files={"t": text})
        judge(r, [("t", good)], "%d bytes, %r" % (n, where), "large " + stream)
        return (space, n, where, stream, good)
    if space == "many":
        _, n, bad, kind = case
        if kind == "tests":
            files = {"t%03d" % i: KINDS["badout" if i in bad else "ok"][0] for i in range(n)}
            r = execute(srv, files)
            judge(r, [(k, int(k[1:]) not in bad) for k in sorted(files)], "%d tests, %r bad" % (n, bad), "many tests")
        else:
            fs = [(b"o%d" % i, b"%d\n" % i) for i in range(n)]
            act = [(a, b"x" + b if i in bad else b) for i, (a, b) in enumerate(fs)]
            if kind == "missing":
                act = [x for i, x in enumerate(fs) if i not in bad]
            want = fs if kind != "extra" else [x for i, x in enumerate(fs) if i not in bad]
            if kind == "extra":
                act = fs
            text = spec(b"", b"", "0", act) + b"".join(b"#outfile " + a + b"\n" + blockof(b) for a, b in want)
            r = execute(srv, {"t": text})
            judge(r, [("t", not bad)], "%d files, %r %s" % (n, bad, kind), "many files")
        return (space, n, bad, kind)
    if space == "blanks":
        # outputs and expectations that end in several newlines or none
        _, act, exp, stream = case
        tail = exp[:-1] if exp.endswith(b"|") else exp
        b = tail if not exp.endswith(b"|") else tail + b"\n#nonewline\n"
        if stream == "file":
            text = spec(b"", b"", "0", [(b"o", act)]) + b"#outfile o\n" + b
        elif stream == "stdout":
            text = spec(act, b"", "0") + b"#stdout\n" + b
        else:
            text = spec(b"", act, "0") + b"#stderr\n" + b
        r = execute(srv, {"t": text})
        judge(r, [("t", act == tail)], text, "blank lines, " + stream)
        return (space, act, exp, stream)
    if space == "words":
        # the command gets exactly its words, $TMP replaced wherever it stands
        _, sep, words, infiles = case
        srv.clean()
        srv.write_file("bin/show", b"#!/bin/sh\nfor x in \"$@\"; do printf \"[%s]\\n\" \"$x\"; done\nexit 0\n")
        os.chmod(os.path.join(srv.wd, "bin/show"), 0o755)
        keep = os.path.join(srv.wd, "keep")
        text = b"#command show" + b"".join(sep + w for w in words) + b"\n" + b"".join(b"#infile " + n + b"\n" + n + b" body\n" for n in infiles)
        r = srv.run(["tooltest", "-b", os.path.join(srv.wd, "bin"), "-t", keep, "t"], files={"t": text})
        want = b"".join(b"[" + w.replace(b"$TMP", os.fsencode(keep) + b"/") + b"]\n" for w in words)
        got = srv.read_file("keep/stdout")
        if got != want:
            got = got or b"nothing"
            raise Violation("the command saw %r rather than %r with %r (%s)" % (got[:2000], want[:2000], text[:2000], r.brief()))
        for n in infiles:
            if srv.read_file("keep/" + n.decode()) != n + b" body\n":
                raise Violation("no input file %r with %r (%s)" % (n, text, r.brief()))
        return (space, hash(got))
    if space == "matchers":
        # a matcher on a section's own line takes the rest of the line, blanks and commas included
        _, tag, matcher, act, ok = case
        if tag == b"#outfile o":
            text = spec(b"", b"", "0", [(b"o", act)])
        else:
            text = spec(act, b"", "0") if tag == b"#stdout" else spec(b"", act, "0")
        files = {"t": text + tag + b" " + matcher + b"\n"}
        r = execute(srv, files)
        judge(r, [("t", ok)], files, "matcher")
        return (space, ok, matcher)
    if space == "syntax":
        _, text, ok = case
        files = {"t": text}
        r = execute(srv, files)
        judge(r, [("t", ok)], files, "syntax")
        return (space, ok, text)
    if space == "kept":
        # with a directory of its own that is kept, the verdict is the same; only files left behind are allowed
        _, actual, expected = case
        text = spec(b"", b"", "0", actual) + b"".join(b"#outfile " + n + b"\n" + blockof(c) for n, c in expected)
        files = {"t": text}
        r = execute(srv, files, ["-t", os.path.join(srv.wd, "keep")])
        ok = all(dict(actual).get(n) == c for n, c in expected)
        judge(r, [("t", ok)], files, "kept files")
        return (space, ok, len(actual), len(expected))
    raise AssertionError(space)


def cases(tier):
    th = tier == "thorough"
    base = (0, 1, 2, 3)
    # every actual with every expected output on one stream, the other stream right or wrong, all statuses
    for a, e in itertools.product(ACT, EXP):
        for (a2, e2) in ((b"", "none"), (b"a\n", "a"), (b"a", "a")) if not th else itertools.product(ACT, ("none", "a", "ab", "prefix", "a-")):
            for st, se in (("0", None), ("1", "1"), ("1", None)):
                yield ("verdict", a, e, a2, e2, st, se, base)
                yield ("verdict", a2, e2, a, e, st, se, base)
    for st, se in itertools.product(STAT, ESTAT):
        for a, e in ((b"", "none"), (b"a\n", "a"), (b"a\n", "nl")):
            yield ("verdict", a, e, b"", "none", st, se, base)
            yield ("verdict", b"", "none", a, e, st, se, base)
    for order in itertools.permutations(base):
        for (a, e), (a2, e2), (st, se) in itertools.product(((b"a\n", "a"), (b"a", "a-"), (b"ab\n", "prefix"), (b"a\n", "ab")), ((b"a\n", "a"), (b"a", "a-"), (b"", "a")), (("3", "3"), ("0", "3"))):
            yield ("verdict", a, e, a2, e2, st, se, order)
    sets = [()] + [((b"o", c),) for c in CONT] + [((b"o", c), (b"p", d)) for c in CONT for d in CONT] + [((b"p", c),) for c in CONT]
    for x, y in itertools.product(sets, repeat=2):
        yield ("kept", x, y)
        for comment in (False, True):
            yield ("files", x, y, comment, True)
        if y and y[-1][1].endswith(b"\n"):
            yield ("files", x, y, False, False)
            yield ("files", x, y, True, False)
    for c in ACT:
        for m in ("prefix", "infix", "notinfix", "glob", "exact"):
            yield ("matchfile", c, m)
    for s in STDIN:
        for pos in (0, 1):
            yield ("input", s, (), pos)
            yield ("input", None, ((b"i", s),), pos)
            for s2 in STDIN:
                yield ("input", None, ((b"i", s), (b"j", s2)), pos)
                yield ("input", s, ((b"j", s2),), pos)
    for n in range(0, 5 if th else 4):
        if n == 0:
            continue
        for ks in itertools.product(KINDS, repeat=n):
            if n == 4 and not {"ok", "okfile"} & set(ks[2:]):
                continue
            yield ("sequence", ks)
    ok = spec(b"", b"", "0")
    for t, good in ((ok, True), (ok[:-1], True), (b"# c\n" + ok, True), (ok + b"# c", True), (ok + b"#status 0", True), (ok + b"#status 00\n", True), (ok + b"#status x\n", False),
                    (ok + b"#status 0x\n", False), (ok + b"#stdin extra\n", False), (ok + b"junk\n", False), (ok + b"\n", False), (ok + b"#comment\n", False), (ok + b"#stdout nosuchmatcher\n", False),
                    (ok + b"#stderr regex,(\n", False), (ok + b"#nonewline\n", False), (b"#stdout\n" + ok, True), (b"#stdout\na\n" + ok, False), (b"#status 1\n" + ok, False)):
        yield ("syntax", t, good)
    # a line that starts with # ends a section, and must be one of those documented
    for tag, act in ((b"#stdout", b"o"), (b"#stderr", b"e"), (b"#outfile o", b"f"), (b"#stdin", b""), (b"#infile i", b"")):
        for bad in (b"##x", b"##", b"#", b"#!", b"#x", b"#\tx", b"#Stdout", b"#STATUS 0", b"#nonewlin", b"# nonewline"):
            good = bad.startswith(b"# ")
            for body, real in ((b"", b""), (b"a\n", b"a\n"), (b"a\nb\n", b"a\nb\n")):
                for after in (b"", b"# c\n"):
                    for extra in (b"", bad + b"\n"):
                        sp = spec(real + extra if act == b"o" else b"", real + extra if act == b"e" else b"", "0", [(b"o", real + extra)] if act == b"f" else ())
                        yield ("syntax", sp + tag + b"\n" + body + bad + b"\n" + after, good and not (extra and act))
    # files left behind, whatever they are called; files expected to be empty that are not there
    for n in (b".hidden", b".", b"..x", b"x", b"stdin2", b"#x", b"~", b"Stdin"):
        if n != b".":
            for more in ((), ((b"o", b"x\n"),)):
                yield ("syntax", spec(b"", b"", "0", [(n, b"1")] + list(more)) + b"".join(b"#outfile %s\n%s" % m for m in more), False)
                yield ("syntax", spec(b"", b"", "0", [(n, b"1")] + list(more)) + b"#outfile %s\n1\n#nonewline\n" % n + b"".join(b"#outfile %s\n%s" % m for m in more), True)
            yield ("syntax", ok + b"#outfile %s\n" % n, False)
            yield ("syntax", spec(b"", b"", "0", [(n, b"")]) + b"#outfile %s\n" % n, True)
    for n in (2, 100, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 100000, 300000):
        for stream in ("stdout", "stderr", "file", "stdin", "both"):
            for nl in (True, False):
                at = {0, 1, n // 2, n - 2} | {x for x in (255, 256, 8191, 8192, 65535, 65536) if x < n - 2}
                at = sorted(at) if n in (8193, 65537, 300000) or th else [0, n - 2]
                for w in [None, "cut", "more", "line"] + at:
                    if n > 2 and not (isinstance(w, int) and w >= n - 1):
                        yield ("large", n, w, stream, nl)
    for n in (1, 2, 9, 10, 11, 30):
        for kind in ("differs", "missing", "extra"):
            for bad in [()] + [(i,) for i in range(n)] + [(0, n - 1)]:
                yield ("many", n, bad, kind)
    for n in (9, 10, 11, 100, 255, 256, 257, 300):
        for bad in ((), (0,), (n - 1,), (n // 2,), tuple(range(n)), tuple(range(0, n, 2)), tuple(range(min(n, 256)))):
            yield ("many", n, bad, "tests")
    for x in range(256):
        c = bytes([x])
        if x == 0:
            continue
        for s in (b"a" + c + b"b\n", b"a" + c, b"a\n" + b"b" + c + b"\n"):
            yield ("input", s, (), 0)
            yield ("input", None, ((b"i", s),), 1)
    ends = [b"a\n", b"a", b"a\n\n", b"a\n\n\n", b"\n", b"\n\n", b"", b"\na\n", b"a\n\nb\n", b"a\n \n", b"a \n", b"a\r\n"]
    for a in ends:
        for e in [x for x in ends if x.endswith(b"\n") or not x] + [b"a|", b"a\n|", b"a\n\n|", b"a\n\n\n|", b"\n|", b"|", b"a |", b"a\r|"]:
            for stream in ("stdout", "stderr", "file"):
                yield ("blanks", a, e, stream)
    for st in ("0", "1", "2", "126", "127", "128", "129", "130", "254", "255", "sig1", "sig15", "sig9", "sig11"):
        for se in (None, "0", "1", "2", "126", "127", "128", "129", "130", "137", "143", "254", "255", "256", "257", "-1", "-2", "-128", "-255", "-256", "65536", "65537", "4294967296", "4294967297"):
            yield ("verdict", b"", "none", b"", "none", st, se, base)
            if th or se in (None, st):
                for e, a in (("a", b"b\n"), ("prefix", b""), ("none", b"x")):
                    yield ("verdict", a, e, b"", "none", st, se, base)
                    yield ("verdict", b"", "none", a, e, st, se, base)
    W = [b"x", b"$TMP", b"$TMP/a", b"a=$TMP$TMP", b"-v", b"--", b"x,y", b"'q'", b'"d', b"\\n", b"$HOME", b"*", b"\xc3\xa9", b"#stdout", b"$TM", b"TMP", b"w" * 5000]
    for sep in (b" ", b"\t"):
        for n in (1, 2):
            for ws in itertools.product(W, repeat=n):
                yield ("words", sep, ws, (b"Input",) if n == 1 else ())
        for n in (3, 5, 10, 100, 300):
            for w in W[:4]:
                yield ("words", sep, (w,) * n, (b"A", b"a"))
                yield ("words", sep, tuple(b"%s%d" % (w, i) for i in range(n)), ())
    yield ("words", b" ", (b"x",), (b"a.b", b"UPPER", b"\xc3\xa9t\xc3\xa9", b"x-1", b"_", b"n" * 200))
    for tag in (b"#stdout", b"#stderr", b"#outfile o"):
        for m, a, ok in ((b"exact,a b", b"a b", True), (b"exact,a b", b"a", False), (b"exact,a b", b"b", False), (b"prefix,a b", b"a bc", True), (b"prefix,a b", b"a cb", False), (b"infix,x y z", b"+x y z+", True),
                         (b"infix,x y z", b"+x y  z+", False), (b"exact,a,b", b"a,b", True), (b"exact,a,b", b"a", False), (b"exact.case,AB", b"ab", True), (b"exact,AB", b"ab", False), (b"regex,^a.*b$", b"a - b", True),
                         (b"regex,^a.*b$", b"a - bc", False), (b"regex,^a$", b"x\na\ny", False), (b"regex,^a$", b"a\n", False), (b"regex,a.b", b"a\nb", False), (b"regex,^x\\na$", b"x\na", True), (b"infix.not,x", b"y", True), (b"infix.not,x", b"x", False), (b"length,3,5", b"abcd", True), (b"length,3,5", b"ab", False), (b"length,3,5", b"abcdef", False),
                         (b"prefix.trim,a", b"  a", True), (b"prefix,a", b"  a", False), (b"glob,a?c", b"abc", True), (b"glob,a?c", b"abbc", False), (b"yes", b"anything", True), (b"multi.and,/prefix,a/suffix,c/", b"abc", None),
                         (b"length.utf8,2,2", b"\xc3\xa9x", True), (b"length.utf8,2,2", b"\xc3\xa9", False), (b"exact.utf8.case,\xc3\x89", b"\xc3\xa9", True), (b"integer", b"42", True), (b"integer", b"4x", False)):
            if ok is not None:
                yield ("matchers", tag, m, a, ok)
