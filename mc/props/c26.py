"""C26: output goes to the files asked for, replacing what was there."""
import itertools
import os
from core import Violation

BOUNDS = {
    "quick": "join with matched and unmatched output to every assignment of stdout, stderr and files (3 outputs), onto files absent, empty, shorter, equally long, longer and read-only directories; 5 x 5 inputs, with and without headers; outputs of up to 40,000 lines around the sizes of buffers, over older files of any size, also through symbolic and hard links; tooltest -t: input files, stdin, stdout and stderr of 1..3 consecutive tests over 5 contents",
    "thorough": "as quick with 9 x 9 inputs and 9 contents",
}
RULE = "distinct (assignment, contents of all outputs) pairs"
ASSUMPTIONS = ["outputs are different files, and not input files"]

KEYS = ["a", "b", "c"]
BIG = b"old line that is quite long\n" * 40


def lines(mask, tag, hdr):
    s = b" CDX\tk\t%s\n" % tag if hdr else b""
    return s + b"".join(b"%s\t%s%d\n" % (k.encode(), tag, i) for i, k in enumerate(KEYS) if mask >> i & 1)


def join_model(ma, mb, hdr):
    y = b" CDX\tk\tx\ty\n" if hdr else b""
    a = b" CDX\tk\tx\n" if hdr else b""
    b = b" CDX\tk\ty\n" if hdr else b""
    for i, k in enumerate(KEYS):
        k = k.encode()
        if ma >> i & 1 and mb >> i & 1:
            y += b"%s\tx%d\ty%d\n" % (k, i, i)
        elif ma >> i & 1:
            a += b"%s\tx%d\n" % (k, i)
        elif mb >> i & 1:
            b += b"%s\ty%d\n" % (k, i)
    return y, a, b


HELPER = b"""#!/bin/sh
case "$1" in @) ;; *) printf "$1" ;; esac
case "$2" in @) ;; *) printf "$2" >&2 ;; esac
"""


def run(srv, case):
    space = case[0]
    if space == "join":
        _, ma, mb, hdr, dest, olds = case
        srv.clean()
        srv.write_file("A", lines(ma, b"x", hdr))
        srv.write_file("B", lines(mb, b"y", hdr))
        want = join_model(ma, mb, hdr)
        args = ["join", "-k", "1"]
        exp = {"-": b"", "--": b""}
        untouched = {}
        for i, (d, old) in enumerate(zip(dest, olds)):
            if d is None:
                continue
            name = d if d.startswith("-") else "out%d" % i
            if i == 0:
                args += ["-f", name] if name != "--" else ["--file=--"]
            else:
                args += ["-a", "%d,%s" % (i, name)]
            exp[name] = exp.get(name, b"") + want[i]
            if not name.startswith("-") and old is not None:
                srv.write_file(name, old if old != "same" else b"#" * len(want[i]))
        if dest[0] is None:
            exp["-"] += want[0]
        srv.write_file("other", b"untouched")
        r = srv.run(args + ["A", "B"])
        got = {"-": r.out, "--": r.err}
        for n in exp:
            if not n.startswith("-"):
                got[n] = srv.read_file(n)
        if r.rc != 0 or got != exp or srv.read_file("other") != b"untouched" or srv.read_file("A") != lines(ma, b"x", hdr):
            raise Violation("%r with previous contents %r: expected %r, got %r (rc %r)" % (args, [o if o != BIG else "big" for o in olds], exp, got, r.rc))
        names = set(os.listdir(srv.wd)) - {"A", "B", "other"} - set(exp)
        if names:
            raise Violation("%r leaves %r" % (args, names))
        return (dest, tuple(sorted(got.items())))
    if space == "large":
        _, n, width, which, old = case
        srv.clean()
        pad = b"z" * width
        A = [b"%06d\tx%s\n" % (i, pad) for i in range(n) if i % 3 != 1]
        B = [b"%06d\ty%s\n" % (i, pad) for i in range(n) if i % 3 != 2]
        want = (b"".join(b"%06d\tx%s\ty%s\n" % (i, pad, pad) for i in range(0, n, 3)), b"".join(b"%06d\tx%s\n" % (i, pad) for i in range(2, n, 3)), b"".join(b"%06d\ty%s\n" % (i, pad) for i in range(1, n, 3)))
        srv.write_file("A", b"".join(A))
        srv.write_file("B", b"".join(B))
        args = ["join", "-k", "1"]
        for i in which:
            name = "out%d" % i
            args += ["-f", name] if i == 0 else ["-a", "%d,%s" % (i, name)]
            if old >= 0:
                # 4: through a symbolic link to an older file, 5: a second name (hard link) of one, 6: a dangling link
                real = os.path.join(srv.wd, "real%d" % i)
                if old != 6:
                    srv.write_file("real%d" % i if old in (4, 5) else name, b"#" * (len(want[i]) + (-1, 0, 1, 100000, 77, 77)[old]))
                if old in (4, 6):
                    os.symlink(real, os.path.join(srv.wd, name))
                elif old == 5:
                    os.link(real, os.path.join(srv.wd, name))
        r = srv.run(args + ["A", "B"])
        got = [srv.read_file("out%d" % i) for i in which]
        if r.rc or r.err or got != [want[i] for i in which] or r.out != (b"" if 0 in which else want[0]):
            raise Violation("%r of %d lines of %d bytes: %r bytes written, expected %r (%s)" % (args, n, width, [None if g is None else len(g) for g in got], [len(want[i]) for i in which], r.brief()))
        if old in (4, 5, 6) and [srv.read_file("real%d" % i) for i in which] != got:
            raise Violation("%r: an output that is a link has replaced the link rather than the file's contents" % (args,))
        return (n, width, which)
    if space == "refuse":
        _, which, name = case
        srv.clean()
        os.mkdir(os.path.join(srv.wd, "dir"))
        srv.write_file("A", lines(5, b"x", False))
        srv.write_file("B", lines(6, b"y", False))
        args = ["join"] + (["-f", name] if which == 0 else ["-a", "%d,%s" % (which, name)]) + ["A", "B"]
        r = srv.run(args)
        if r.crashed or r.rc == 0 or not r.err:
            raise Violation("%r can not be written, but %s" % (args, r.brief()))
        return (which, r.rc)
    if space == "keep":
        _, tests = case
        srv.clean()
        srv.write_file("bin/helper", HELPER)
        os.chmod(os.path.join(srv.wd, "bin/helper"), 0o755)
        os.mkdir(os.path.join(srv.wd, "keep"))
        srv.write_file("keep/other", b"untouched")

        def enc(b):
            return b.replace(b"\n", b"\\n").replace(b" ", b"\\040") or b"@"

        def blk(b):
            return b if b.endswith(b"\n") or not b else b + b"\n#nonewline\n"
        for i, (out, err, stdin, infile) in enumerate(tests):
            t = b"#command helper " + enc(out) + b" " + enc(err) + b"\n#stdin\n" + blk(stdin) + b"#infile in\n" + blk(infile) + b"#stdout\n" + blk(out) + b"#stderr\n" + blk(err)
            srv.write_file("t", t)
            r = srv.run(["tooltest", "-b", os.path.join(srv.wd, "bin"), "-t", os.path.join(srv.wd, "keep"), "t"])
            exp = {"stdout": out, "stderr": err, "stdin": stdin, "in": infile, "other": b"untouched"}
            got = {n: srv.read_file("keep/" + n) for n in exp}
            if r.rc != 0 or got != exp:
                raise Violation("tooltest -t, test %d of %r: kept %r rather than %r (%s)" % (i, tests, got, exp, r.brief()))
        return (tests,)
    raise AssertionError(space)


def cases(tier):
    th = tier == "thorough"
    masks = range(8) if th else (0, 1, 3, 5, 6, 7)
    dests = [d for d in itertools.product((None, "-", "--", "file"), repeat=3) if d[1:] != (None, None) or d[0]]
    for ma, mb in itertools.product(masks, repeat=2):
        for hdr in (False, True):
            if not hdr and not (ma and mb):
                continue    # a file of no bytes has no columns at all
            for d in dests:
                # several outputs to one stream come out in an order that depends on buffering
                n = [x for x in (d[0] or "-", d[1], d[2]) if x in ("-", "--")]
                if len(set(n)) != len(n):
                    continue
                yield ("join", ma, mb, hdr, d, (None, None, None))
            for olds in itertools.product((None, b"", b"o", "same", BIG), repeat=3):
                if th or (ma, mb) in ((3, 5), (0, 1), (7, 7), (1, 6), (5, 5)):
                    yield ("join", ma, mb, hdr, ("file",) * 3, olds)
    for which in (0, 1, 2):
        for name in ("dir", "nodir/x", "A/x"):
            yield ("refuse", which, name)
    conts = [b"", b"a\n", b"a", b"a b\nc\n", b"a\n" * 30] + ([b"\n", b"b\n", b"abc", b"a\n" * 3000] if th else [])
    for n in (1, 2) if not th else (1, 2, 3):
        for t in itertools.product(conts[:5 if n < 3 else 4], repeat=n):
            for rot in range(4):
                ts = []
                for i, c in enumerate(t):
                    four = [c, conts[(i + 1) % 5], c if i % 2 else b"", conts[(i + 3) % 5]]
                    ts.append(tuple(four[rot:] + four[:rot]))
                yield ("keep", tuple(ts))
        if th and n == 1:
            for t in itertools.product(conts, repeat=4):
                yield ("keep", (t,))
    for n, width in ((100, 0), (800, 0), (1700, 1), (1000, 50), (9, 4000), (9, 8180), (9, 70000), (5000, 7), (40000, 0)):
        for which in ((0,), (1,), (2,), (1, 2), (0, 1), (0, 1, 2), (2, 1, 0)):
            for old in (-1, 0, 1, 2, 3, 4, 5, 6):
                yield ("large", n, width, which, old)
