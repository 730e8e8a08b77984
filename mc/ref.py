"""Reference models shared by the property modules.  Deliberately boring."""
import functools
import re
from fractions import Fraction

from core import lines_of


def is_header(line):
    return line.startswith(b" CDX")


def split_file(data):
    """-> (header line without newline or None, [body lines without newline])"""
    ls = lines_of(data)
    if ls and is_header(ls[0]):
        return ls[0], ls[1:]
    return None, ls


def names(header, first):
    """column names: from the header, or c1..cN from the first line"""
    if header is not None:
        d = header[4:5]
        return [x.decode("latin-1") for x in header[5:].split(d)]
    n = first.count(b"\t") + 1
    return ["c%d" % (i + 1) for i in range(n)]


def col(line, i, delim=b"\t"):
    v = line.split(delim)
    return v[i] if i < len(v) else b""


NUMRE = re.compile(rb"^[+-]?\d*\.?\d*(?:[eE][+-]?\d+)?")


def as_float(v):
    """leading decimal number with optional size suffix (3K, 3k), zero if there is none"""
    m = re.match(rb"([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)([KMGTPEZYkmgtpezy]?)", v)
    if not m:
        return 0.0
    x = float(m.group(1))
    s = m.group(2)
    if s:
        x *= (1024.0 if s.isupper() else 1000.0) ** (b"KMGTPEZY".index(s.upper()) + 1)
    return x


def as_numeric(v):
    """NNN.nnn of arbitrary length, commas ignored in the integer part, leading blanks skipped"""
    v = v.lstrip(b" \t\n\v\f\r")
    neg = v.startswith(b"-")
    if neg:
        v = v[1:]
    m = re.match(rb"([0-9,]*)(\.[0-9]*)?", v)
    i = m.group(1).replace(b",", b"") or b"0"
    f = m.group(2) or b"."
    x = Fraction((i + b"0").decode()) / 10
    if len(f) > 1:
        x += Fraction(int(f[1:]), 10 ** (len(f) - 1))
    return -x if neg else x


def as_ip(v):
    """dotted sections of digits; stops at the first thing that is not one"""
    v = v.lstrip(b" \t\n\v\f\r")
    out = []
    while True:
        m = re.match(rb"\d*", v)
        s = m.group(0)
        out.append((len(s), s))
        v = v[len(s):]
        if not v.startswith(b"."):
            return tuple(out)
        v = v[1:]


KEYFN = {
    "plain": lambda v: v,
    "lower": lambda v: v.lower(),
    "length": len,
    "float": as_float,
    "numeric": as_numeric,
    "ip": as_ip,
    "equal": lambda v: 0,
}
ALIAS = {"": "plain", "num": "numeric", "len": "length"}


class Key:
    """one --key spec: columns (index or None for the whole line), method, reverse"""

    def __init__(self, column, method, rev=False, fn=None):
        self.column, self.method, self.rev = column, method, rev
        self.fn = fn or KEYFN[ALIAS.get(method, method)]

    def value(self, line):
        # whole lines are compared with their terminator
        return self.fn(line + b"\n" if self.column is None else col(line, self.column))


def compare(keys, a, b):
    for k in keys:
        x, y = k.value(a), k.value(b)
        if x != y:
            c = -1 if x < y else 1
            return -c if k.rev else c
    return 0


def stable_sort(keys, lines):
    return sorted(lines, key=functools.cmp_to_key(lambda a, b: compare(keys, a, b)))


def dedup(keys, lines):
    out = []
    for x in lines:
        if not out or compare(keys, out[-1], x) != 0:
            out.append(x)
    return out


def join_lines(ls):
    return b"".join(x + b"\n" for x in ls)
