"""Exhaustive bounded exploration of the real cdx binary.

A *case* is one point of a finite, stated space: command line(s), input bytes and the
environment's answers (read sizes, interrupted calls, failing writes).  Every case of
the space is executed on the real binary through a fork server (shim/shim.c) and the
observable result is compared with a reference model written in Python.
"""
import hashlib
import itertools
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
NPLAN = 19
(P_TIMEOUT, P_RCHUNK, P_RFIRST, P_REINTR, P_RFAIL, P_WCHUNK, P_WEINTR, P_WFAIL, P_WERR,
 P_WBUDGET, P_WFD, P_RFD, P_RPAT, P_RPATN, P_CUTS, P_CUTBASE, P_WSCOL, P_WSROW, P_RERR) = range(NPLAN)


class Violation(Exception):
    pass


class Infra(Exception):
    """The machinery itself failed; never reported as a violation of a property."""


def plan(**kw):
    p = [0] * NPLAN
    names = dict(timeout=P_TIMEOUT, rchunk=P_RCHUNK, rfirst=P_RFIRST, reintr=P_REINTR,
                 rfail=P_RFAIL, wchunk=P_WCHUNK, weintr=P_WEINTR, wfail=P_WFAIL, werr=P_WERR,
                 wbudget=P_WBUDGET, wfd=P_WFD, rfd=P_RFD, rpat=P_RPAT, rpatn=P_RPATN,
                 cuts=P_CUTS, cutbase=P_CUTBASE, wscol=P_WSCOL, wsrow=P_WSROW, rerr=P_RERR)
    for k, v in kw.items():
        p[names[k]] = v
    return tuple(p)


class Result:
    __slots__ = ("rc", "sig", "out", "err", "nread", "nwrite", "wbytes", "rfailed", "wfailed")

    def __init__(self, st, out, err, sh):
        self.sig = st & 0x7f
        self.rc = (st >> 8) & 0xff if self.sig == 0 else -self.sig
        self.out, self.err = out, err
        self.nread, self.nwrite, self.wbytes, self.rfailed, self.wfailed, _ = sh

    @property
    def crashed(self):
        # Rust panics exit with 101; signals are crashes or (SIGALRM) hangs.
        return self.sig != 0 or self.rc == 101

    def brief(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[:400], self.err[:300])


class Server:
    def __init__(self, binary, so, d):
        self.binary, self.so, self.d = binary, so, d
        os.makedirs(d, exist_ok=True)
        self.fin, self.fout, self.ferr = d + "/.in", d + "/.out", d + "/.err"
        self.wd = d + "/w"
        os.makedirs(self.wd, exist_ok=True)
        self.tmp = d + "/tmp"
        os.makedirs(self.tmp, exist_ok=True)
        self.runs = 0
        self.extra = 0      # states explored inside one case (batched inputs)
        self.ioev = 0
        self.p = None
        self.start()

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()

        def pre():
            os.dup2(r1, 198)
            os.dup2(w2, 199)
            for f in (r1, w1, r2, w2):
                if f not in (198, 199):
                    os.close(f)

        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.so, "MC_FORKSRV": "1",
               "TMPDIR": self.tmp, "HOME": self.d, "RUST_BACKTRACE": "0"}
        self.p = subprocess.Popen([self.binary] + ["x"] * 1000, env=env, preexec_fn=pre,
                                  close_fds=False, stdin=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def stop(self):
        try:
            os.close(self.w)
            os.close(self.r)
            self.p.kill()
            self.p.wait()
        except OSError:
            pass

    def write_file(self, name, data):
        p = os.path.join(self.wd, name)
        if "/" in name:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def read_file(self, name):
        try:
            with open(os.path.join(self.wd, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def clean(self):
        for n in os.listdir(self.wd):
            p = os.path.join(self.wd, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def run(self, args, stdin=b"", files=None, pl=None, argv0="cdx"):
        if files:
            for n, d in files.items():
                self.write_file(n, d)
        with open(self.fin, "wb") as f:
            f.write(stdin)
        a = [self.fin.encode(), self.fout.encode(), self.ferr.encode(), self.wd.encode(), argv0.encode()]
        for x in args:
            a.append(x if isinstance(x, bytes) else x.encode())
        assert len(a) <= 1000, "more arguments than the server has room for"
        pl = pl or ()
        b = bytearray(struct.pack("<I", len(a)))
        for x in a:
            b += struct.pack("<I", len(x))
            b += x
        b += struct.pack("<I", len(pl))
        for x in pl:
            b += struct.pack("<I", x & 0xffffffff)
        os.write(self.w, struct.pack("<I", len(b)) + bytes(b))
        resp = b""
        while len(resp) < 28:
            k = os.read(self.r, 28 - len(resp))
            if not k:
                raise Infra("fork server died")
            resp += k
        v = struct.unpack("<i6I", resp)
        with open(self.fout, "rb") as f:
            out = f.read()
        with open(self.ferr, "rb") as f:
            err = f.read()
        self.runs += 1
        r = Result(v[0], out, err, v[1:])
        self.ioev += r.nread + r.nwrite
        if r.rc in (3, 4, 5, 6) and not err and not out:
            pass
        return r


# ---------------------------------------------------------------------------
# building

def sh_env():
    env = dict(os.environ)
    env.update({"HOME": "/root", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
                "RUSTC_WRAPPER": "", "RUSTFLAGS": "", "CARGO_INCREMENTAL": "1",
                "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
                "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
                "PATH": "/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"})
    env["CARGO_TARGET_DIR"] = os.path.join(REPO, "target")
    return env


def build_cdx():
    env = sh_env()
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    p = subprocess.run(["cargo", "build", "--offline", "--bin", "cdx"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
        raise Infra("building cdx failed")
    return os.path.join(REPO, "target", "debug", "cdx")


def build_lib(d):
    """the harness for library entry points; returns a private copy"""
    src = os.path.join(VERIF, "lib")
    if REPO != "/repo":     # development only
        src = os.path.join(d, "lib")
        shutil.copytree(os.path.join(VERIF, "lib"), src)
        with open(src + "/Cargo.toml") as f:
            t = f.read()
        with open(src + "/Cargo.toml", "w") as f:
            f.write(t.replace('"/repo"', '"%s"' % REPO))
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=src, env=sh_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
        raise Infra("building the library harness failed")
    dst = os.path.join(d, "cdxlib")
    shutil.copy(os.path.join(REPO, "target", "debug", "cdxlib"), dst)
    return dst


def run_lib(srv, lib, space, tier, shard, shards):
    """one shard of a space explored inside the library harness"""
    env = dict(os.environ, TMPDIR=srv.tmp)
    timeout = 600 if tier == "quick" else 3000
    try:
        p = subprocess.run([lib, space, tier, str(shard), str(shards)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Violation("the library does not come to an end: %s shard %d/%d, %d s" % (space, shard, shards, timeout))
    out = p.stdout.decode(errors="replace").splitlines()
    bad = [x[2:] for x in out if x.startswith("V ")]
    if bad:
        raise Violation("; ".join(bad)[:3000])
    if p.returncode != 0 or not out or not out[-1].startswith("N "):
        if p.returncode < 0:
            raise Violation("library harness died of signal %d in %s shard %d/%d" % (-p.returncode, space, shard, shards))
        if p.returncode == 101:
            raise Violation("the library panics in %s shard %d/%d: %s" % (space, shard, shards, p.stderr[-1500:].decode(errors="replace")))
        raise Infra("library harness: rc=%r %r %r" % (p.returncode, p.stdout[-300:], p.stderr[-300:]))
    n, trans, distinct, _ = map(int, out[-1].split()[1:5])
    srv.extra += n
    srv.runs += n
    srv.ioev += trans
    return (space, shard, n, distinct)


def build_shim(d):
    so = os.path.join(d, "shim.so")
    p = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so,
                        os.path.join(VERIF, "shim", "shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Infra("building shim failed: " + p.stdout.decode(errors="replace"))
    return so


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="cdxmc.", dir=base)


# ---------------------------------------------------------------------------
# enumeration helpers

def strings(alphabet, lo, hi):
    """all strings (bytes) over alphabet with lo <= length <= hi, shortest first"""
    al = [bytes([c]) if isinstance(c, int) else c for c in alphabet]
    for n in range(lo, hi + 1):
        for t in itertools.product(al, repeat=n):
            yield b"".join(t)


def seqs(items, lo, hi):
    items = list(items)
    for n in range(lo, hi + 1):
        yield from itertools.product(items, repeat=n)


def lines_of(data):
    """split raw bytes into lines without terminators"""
    if not data:
        return []
    v = data.split(b"\n")
    if v[-1] == b"":
        v.pop()
    return v


def h(*a):
    m = hashlib.blake2b(digest_size=8)
    for x in a:
        m.update(x if isinstance(x, bytes) else repr(x).encode())
        m.update(b"\0|")
    return m.digest()


def enc(x):
    """JSON-able encoding of a case"""
    if isinstance(x, bytes):
        return {"b": x.decode("latin-1")}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    return x


def dec(x):
    if isinstance(x, list):
        return tuple(dec(y) for y in x)
    if isinstance(x, dict):
        if "b" in x:
            return x["b"].encode("latin-1")
        return {dec(k): dec(v) for k, v in x["d"]}
    return x
