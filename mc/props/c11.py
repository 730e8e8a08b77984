"""C11: a failed read or write is never taken for success, and leaves no wrong output."""
import errno
import os
import gzip
import itertools
from core import Violation, plan
import scen

BOUNDS = {
    "quick": "32 command lines x inputs with and without header x reads of 1, 3, 7 bytes or whole x a read error (of 8 kinds) at every read; a write failing (no space, I/O error, broken pipe; would block, quota, file too big, invalid) after every possible number of bytes, and at every write, of standard output, of other files, and of both; outputs and inputs larger than the buffers; inputs and outputs that cannot be opened (9 kinds) in every position; truncated and corrupt gzip at every byte",
    "thorough": "as quick with reads of 1, 2, 3, 5, 7 bytes, longer inputs and every corrupted bit of a gzip file",
}
RULE = "distinct (command, exit status, output) triples"
ASSUMPTIONS = ["a broken pipe counts as success: the reader of the output has gone, by design", "after a failure, output is a prefix of the right output (nothing is promised about its length)"]
ALL = scen.TOOLS + scen.FORMATTED
BYNAME = {s[0]: s for s in ALL + [scen.CALC, scen.TOOLTEST]}
BASE = {}
BIG = scen.H + b"".join(b"%d\tvalue%d\n" % (i, i % 7) for i in range(10000, 13000))


def data_of(c):
    return BIG if c == "big" else c


def observe(srv, sc, c, pl=None):
    if sc[0] == "calc":
        r = srv.run(sc[1], stdin=c, pl=pl)
        return r, (r.rc, r.out, r.err, ())
    return scen.observe(srv, sc, c, pl)


def base(srv, sc, c, rchunk):
    k = (sc[0], c, rchunk)
    if k not in BASE:
        if len(BASE) > 500:
            BASE.clear()
        r, o = observe(srv, sc, data_of(c), plan(rchunk=rchunk) if rchunk else plan())
        if r.crashed:
            raise Violation("%r on %r: %s" % (sc[1], data_of(c)[:200], r.brief()))
        BASE[k] = (r.nread, r.nwrite, r.wbytes, o)
    return BASE[k]


def is_prefix(got, exp, untouched=b"old contents that must go away\n"):
    return exp.startswith(got) or got == untouched


def judge(sc, c, how, r, o, exp, failed, pipe=False):
    def bad(why):
        raise Violation("%s %r on %r, %s: %s: undisturbed %r, got %r" % (
            sc[0], sc[1], c[:200], how, why, tuple(x[:300] if isinstance(x, bytes) else x for x in exp),
            tuple(x[:300] if isinstance(x, bytes) else x for x in o)))
    if r.crashed:
        bad("crash")
    if not failed:
        if o != exp:
            bad("nothing failed, but the result differs")
        return
    if pipe:
        if o[0] not in (0, exp[0]):
            bad("a broken pipe is not an error")
    elif o[0] == 0:
        bad("exit status 0 after a failure")
    elif not o[2]:
        bad("no message")
    if sc[0] == "tooltest" and b" failed\n" in o[1]:
        return      # reports the failure of the test
    if not is_prefix(o[1], exp[1]):
        bad("output is not a prefix of the right output")
    for a, b in zip(o[3], exp[3]):
        if a is not None and b is not None and not is_prefix(a, b):
            bad("an output file is not a prefix of the right one")


def run(srv, case):
    space, scn = case[:2]
    if space == "open":
        return run_open(srv, case)
    if space == "gz":
        return run_gz(srv, case)
    sc = BYNAME[scn]
    c, rchunk = case[2:4]
    data = data_of(c)
    nread, nwrite, wbytes, exp = base(srv, sc, c, rchunk)
    seen = []
    if space == "read":
        # one injected failure at each read, until none is left to fail
        k = case[4]
        while True:
            kw = dict(rfail=k)
            if rchunk:
                kw["rchunk"] = rchunk
            if len(case) > 6:
                kw["rerr"] = case[6]
            r, o = observe(srv, sc, data, plan(**kw))
            srv.extra += 1
            judge(sc, data, "read %d fails" % k, r, o, exp, r.rfailed)
            seen.append(o[:2])
            if not r.rfailed:
                break
            k += case[5]
        return (scn, len(seen), seen[0])
    if space == "write":
        err, fds, mode = case[4:7]
        top = wbytes + 1 if mode == "bytes" else nwrite
        step = max(1, top // 400)
        for b in range(0, top, step):
            kw = dict(wfd=fds, werr=err)
            if mode == "bytes":
                kw["wbudget"] = b + 1
            else:
                kw["wfail"] = b + 1
                kw["wchunk"] = case[7]
            r, o = observe(srv, sc, data, plan(**kw))
            srv.extra += 1
            judge(sc, data, "write fails with %s after %d %s on %s" % (errno.errorcode[err], b, mode, ("any file", "stdout", "files")[fds]),
                  r, o, exp, r.wfailed, err == errno.EPIPE)
            seen.append(o[0])
        return (scn, tuple(seen[:50]))


def run_open(srv, case):
    _, scn, which, what = case
    sc = BYNAME[scn]
    args, fn = scen.concrete(sc, scen.TAB)
    bad = {"missing": "nosuchfile", "directory": "adir", "nodir": "nosuchdir/x", "noname": "", "notdir": "afile/x", "long": "x" * 300, "loop": "aloop", "dangling": "alink", "gz": "nosuch.gz"}[what]
    srv.write_file("afile", b"a\tb\n")
    for n, t in (("aloop", "aloop"), ("alink", "nosuchtarget")):
        if not os.path.lexists(os.path.join(srv.wd, n)):
            os.symlink(t, os.path.join(srv.wd, n))
    srv.write_file("adir/x", b"")
    r0, o0 = observe(srv, sc, scen.TAB)
    args = [bad if (a in fn and which == ("in", a)) else a for a in args]
    for o in sc[3]:
        if which == ("out", o):
            args = [a.replace(o, bad) if a.endswith("," + o) or a == o else a for a in args]
    r = srv.run(args, files=fn)
    if r.crashed or r.rc == 0 or not r.err:
        raise Violation("%r: %s file cannot be opened: %s" % (args, which, r.brief()))
    if which[0] == "in" and not r0.out.startswith(r.out):
        # several inputs: what was written is what the ones before gave
        one = srv.run([a for a in args if a != bad], files=fn)
        if not one.out.startswith(r.out):
            raise Violation("%r: %s file cannot be opened: output is not that of the other files: %s" % (args, which, r.brief()))
    return (scn, which, what, r.rc)


def run_gz(srv, case):
    """a damaged compressed file is an error, never a shorter file"""
    _, scn, how, k = case
    sc = BYNAME[scn]
    data = scen.NUMS
    z = gzip.compress(data, 6, mtime=0)
    if how == "short":
        bad = z[:k]
    else:
        bad = z[:k] + bytes([z[k] ^ how]) + z[k + 1:]
    args, fn = scen.concrete(sc, data)
    fn = {n: bad if n == "f" else v for n, v in fn.items()}
    base(srv, sc, data, 0)
    exp = BASE[(sc[0], data, 0)][3]
    for o in sc[3]:
        srv.write_file(o, b"old contents that must go away\n")
    r = srv.run(args, files=fn)
    if r.crashed:
        raise Violation("%r with gzip %s %d: %s" % (args, how, k, r.brief()))
    try:
        plain = gzip.decompress(bad)
        good = bad == z or plain == data
    except Exception:
        good = False
    o = (r.rc, r.out, r.err, tuple(srv.read_file(x) for x in sc[3]))
    if good and (how == "short" or r.rc == 0):
        if how == "short" and o != exp:
            raise Violation("%r with gzip: expected %r got %s" % (args, exp, r.brief()))
        if o != exp:
            raise Violation("%r with gzip changed at %d: expected %r got %s" % (args, k, exp, r.brief()))
    elif not good and k >= 3 and bad.startswith(b"\x1f\x8b\x08"):
        if r.rc == 0 or not r.err:
            raise Violation("%r with gzip %s at %d of %d: damage not noticed: %s" % (args, how, k, len(z), r.brief()))
        if not exp[1].startswith(r.out) and how == "short":
            raise Violation("%r with gzip %s at %d of %d: output not a prefix: %s" % (args, how, k, len(z), r.brief()))
    return (scn, r.rc, len(r.out))


def cases(tier):
    th = tier == "thorough"
    names = [s[0] for s in ALL]
    ins = [scen.SMALL, scen.TAB, b'1\t"a\nb"\n2\t"c"\n']
    if th:
        ins += [scen.NUMS, scen.TINY, b"1\n"]
    for n in names + ["calc", "tooltest"]:
        cc = {"calc": [b"1+2\n3*4\n2^10\n"], "tooltest": [scen.TEST]}.get(n, ins)
        for c in cc:
            for rc in ((0, 1, 2, 3, 5, 7) if th else (0, 1, 3, 7)):
                yield ("read", n, c, rc, 1, 1)
                if rc in (0, 7):
                    for e in (errno.EAGAIN, errno.ENOENT, errno.EISDIR, errno.EINVAL, errno.ECONNRESET, errno.ETIMEDOUT, errno.ENOTCONN):
                        yield ("read", n, c, rc, 1, 1, e)
            for e in (errno.EAGAIN, errno.EDQUOT, errno.EFBIG, errno.EINVAL):
                for fds in (0, 1):
                    yield ("write", n, c, 0, e, fds, "calls", 0)
                    if th:
                        yield ("write", n, c, 0, e, fds, "calls", 5)
            for e in (errno.ENOSPC, errno.EIO, errno.EPIPE):
                for fds in (0, 1, 2):
                    yield ("write", n, c, 0, e, fds, "bytes")
                    if fds == 0 or th:
                        for w in (1, 2, 5):
                            yield ("write", n, c, 0, e, fds, "calls", w)
        if n not in ("calc", "tooltest"):
            yield ("read", n, "big", 0, 1, 1)
            yield ("read", n, "big", 1000, 1, 1 if th else 5)
            for e in (errno.ENOSPC, errno.EPIPE):
                for fds in (0, 1):
                    yield ("write", n, "big", 0, e, fds, "calls", 0)
                    yield ("write", n, "big", 0, e, fds, "calls", 1000)
                    if th:
                        yield ("write", n, "big", 0, e, fds, "bytes")
    for s in ALL:
        for a in [x for x in s[1] if x == "@"] + list(s[2]):
            for what in ("missing", "directory", "nodir", "noname", "notdir", "long", "loop", "dangling", "gz"):
                yield ("open", s[0], ("in", "f" if a == "@" else a), what)
        for o in s[3]:
            for what in ("directory", "nodir", "notdir", "long", "loop"):
                yield ("open", s[0], ("out", o), what)
    n = len(gzip.compress(scen.NUMS, 6, mtime=0))
    for s in ("sort", "cut", "cat", "uniq", "join", "paste", "wc", "cgrep") if not th else [x for x in names if x not in ("sample-f", "sample-r", "tabs")]:   # those need not read to the end
        for k in range(n + 1):
            yield ("gz", s, "short", k)
            if k < n:
                for bit in ((1, 2, 4, 8, 16, 32, 64, 128) if th else (1, 128)):
                    yield ("gz", s, bit, k)
