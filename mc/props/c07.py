"""C07: aggregation yields, for each run of equal lines, the stated function of that run's values."""
import itertools
import math
import re

from core import Violation
import ref
from props.c06 import groups_of, pick
from props.c01 import K, W

RULE = "distinct outputs"
BOUNDS = {
    "quick": "every file of <=3 lines over 2 keys x 5 values (text, number, word and list sets), 60 aggregators in 3 positions, every combination of "
             "merge options, pairs of aggregators, with counts and choices of line; aggregates of every column, lines too short; "
             "groups of up to 40 lines for every aggregator, of up to 1,001 and 65,537 lines for 15; 33 odd texts (invalid utf8, control bytes, up to 66,000 bytes), values that differ late, 16 odd numbers in pairs; tables of up to 257 columns",
    "thorough": "files of <=4 lines",
}
HDR = b" CDX\tk\tv\tz"


def fl(v):
    return ref.as_float(v)


def cpre(vs):
    p = vs[0]
    for v in vs[1:]:
        while not v.startswith(p):
            p = p[:-1]
    return p


def csuf(vs):
    return cpre([v[::-1] for v in vs])[::-1]


def best(vs, key, mx):
    b = vs[0]
    for v in vs[1:]:
        if (key(v) > key(b)) if mx else (key(v) < key(b)):
            b = v
    return b


def merge(vs, delim=b",", od=None, sort=False, uniq=False, count=False, key=None, rev=False, minl=0, maxl=None, maxp=None):
    key = key or (lambda x: x)
    parts = delim.join(v for v in vs if v).split(delim)
    if parts == [b""]:
        parts = []
    if sort:
        parts = sorted(parts, key=key, reverse=False) if not rev else sorted(reversed(parts), key=key)[::-1]
    if uniq:
        o = []
        for p in parts:
            if not o or key(o[-1]) != key(p):
                o.append(p)
        parts = o
    if count:
        return float(len(parts))
    parts = [p for p in parts if len(p) >= minl and (maxl is None or len(p) <= maxl)]
    if maxp is not None:
        parts = parts[:maxp]
    return (od or delim).join(parts)


def swords(v):
    return len([x for x in re.split(rb"[\x00-\x20]+", v) if x])


def awords(v):
    return len(re.findall(rb"[0-9A-Za-z]+", v))


def u8chars(v):
    return len(v.decode("utf8", "replace"))


AGG = {
    "min": lambda vs: best(vs, lambda x: x, False),
    "max": lambda vs: best(vs, lambda x: x, True),
    "minimum": lambda vs: best(vs, lambda x: x, False),
    "maximum": lambda vs: best(vs, lambda x: x, True),
    "min,float": lambda vs: best(vs, fl, False),
    "max,float": lambda vs: best(vs, fl, True),
    "max,num": lambda vs: best(vs, ref.as_numeric, True),
    "min,num": lambda vs: best(vs, ref.as_numeric, False),
    "min,len": lambda vs: best(vs, len, False),
    "max,length": lambda vs: best(vs, len, True),
    "max,lower": lambda vs: best(vs, lambda x: x.lower(), True),
    "sum": lambda vs: sum(fl(v) for v in vs),
    "mean": lambda vs: sum(fl(v) for v in vs) / len(vs),
    "avg": lambda vs: sum(fl(v) for v in vs) / len(vs),
    "count": lambda vs: float(len(vs)),
    "count,-3": lambda vs: float(len(vs) - 3),
    "count,5": lambda vs: float(len(vs) + 5),
    "prefix": cpre,
    "suffix": csuf,
    "merge": lambda vs: merge(vs),
    "merge,sort": lambda vs: merge(vs, sort=True),
    "merge,uniq": lambda vs: merge(vs, uniq=True),
    "merge,sort.uniq": lambda vs: merge(vs, sort=True, uniq=True),
    "merge,count": lambda vs: merge(vs, count=True),
    "merge,sort.uniq.count": lambda vs: merge(vs, sort=True, uniq=True, count=True),
    "merge,D;-": lambda vs: merge(vs, delim=b";", od=b"-"),
    "merge,D;-.sort": lambda vs: merge(vs, delim=b";", od=b"-", sort=True),
    "merge,max_parts:2": lambda vs: merge(vs, maxp=2),
    "merge,min_len:2": lambda vs: merge(vs, minl=2),
    "merge,max_len:1": lambda vs: merge(vs, maxl=1),
    "merge,sort.comp:float": lambda vs: merge(vs, sort=True, key=fl),
    "merge,sort.comp:rev": lambda vs: merge(vs, sort=True, rev=True),
    "merge,sort.uniq.comp:lower": lambda vs: merge(vs, sort=True, uniq=True, key=lambda x: x.lower()),
    "asum,chars": lambda vs: float(sum(map(len, vs))),
    "amin,chars": lambda vs: float(min(map(len, vs))),
    "amax,chars": lambda vs: float(max(map(len, vs))),
    "amean,chars": lambda vs: sum(map(len, vs)) / len(vs),
    "aavg,chars": lambda vs: sum(map(len, vs)) / len(vs),
    "asum,swords": lambda vs: float(sum(map(swords, vs))),
    "amax,awords": lambda vs: float(max(map(awords, vs))),
    "asum,utf8.chars": lambda vs: float(sum(map(u8chars, vs))),
}


def u8swords(v):
    return len([x for x in re.split("[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+", v.decode("utf8", "replace")) if x])


def u8awords(v):
    return len(re.findall(r"[^\W_]+", v.decode("utf8", "replace")))


COUNTERS = {"chars": len, "swords": swords, "awords": awords, "utf8.chars": u8chars, "utf8.swords": u8swords, "utf8.awords": u8awords}
WORDA = []
for _c, _f in COUNTERS.items():
    AGG["asum," + _c] = lambda vs, f=_f: float(sum(map(f, vs)))
    AGG["amin," + _c] = lambda vs, f=_f: float(min(map(f, vs)))
    AGG["amax," + _c] = lambda vs, f=_f: float(max(map(f, vs)))
    AGG["amean," + _c] = lambda vs, f=_f: sum(map(f, vs)) / len(vs)
    WORDA += [a + "," + _c for a in ("asum", "amin", "amax", "amean")]
for _s in ("", "sort."):
    for _u in ("", "uniq."):
        for _l in ("", "min_len:1.", "min_len:2.max_len:2.", "max_len:0."):
            for _p in ("", "max_parts:0.", "max_parts:1.", "max_parts:3.", "count."):
                for _k, _kf, _r in (("", None, False), ("comp:lower", lambda x: x.lower(), False), ("comp:len", len, False), ("comp:rev", None, True)):
                    if _l and _p == "count.":
                        continue        # whether discarded parts are counted is not documented
                    AGG["merge," + (_s + _u + _l + _p + _k).rstrip(".")] = lambda vs, s=_s, u=_u, l=_l, p=_p, k=_kf, r=_r: merge(
                        vs, sort=bool(s), uniq=bool(u), count=p == "count.", key=k, rev=r and bool(s),
                        minl=1 if "min_len:1" in l else 2 if "min_len:2" in l else 0,
                        maxl=2 if "max_len:2" in l else 0 if "max_len:0" in l else None,
                        maxp=int(p[-2]) if p.startswith("max") else None)
MERGEA = sorted(a for a in AGG if a.startswith("merge,") and "D;" not in a)
TEXTV = [b"ab", b"abc", b"b", b"", b"AB"]
WORDV = [b"a b", b"x-y z_q", b"\xc3\xa9t\xe2\x80\x83u", b" "]
NUMV = [b"1", b"2.5", b"-3", b"10", b"x"]
LISTV = [b"a,b", b"c", b"a;b", b"b,a"]
TEXTA = ["min", "max", "minimum", "maximum", "min,len", "max,length", "max,lower", "prefix", "suffix", "merge", "merge,sort",
         "merge,uniq", "merge,sort.uniq", "merge,count", "merge,sort.uniq.count", "merge,min_len:2", "merge,max_len:1",
         "merge,sort.comp:rev", "merge,sort.uniq.comp:lower", "merge,max_parts:2", "count", "count,5", "asum,chars",
         "amin,chars", "amax,chars", "amean,chars", "aavg,chars"]
NUMA = ["min,float", "max,float", "max,num", "min,num", "sum", "mean", "avg", "merge,sort.comp:float", "max"]
LISTA = ["merge", "merge,sort", "merge,uniq", "merge,count", "merge,sort.uniq", "merge,D;-", "merge,D;-.sort", "merge,max_parts:2"]
PICK = {"first": ("first", None), "last": ("last", None), "min": ("min", K((W, "plain", 0))), "max": ("max", K((W, "plain", 0))),
        "min,3": ("min", K((2, "plain", 0))), "max,3": ("max", K((2, "plain", 0))),
        "min,2,float": ("min", K((1, "float", 0))), "max,2,float": ("max", K((1, "float", 0)))}


def cases(tier):
    q = tier == "quick"
    d = 3 if q else 4
    for vals, aggs in ((TEXTV, TEXTA), (NUMV, NUMA), (WORDV, WORDA), (LISTV, LISTA)):
        for n in range(1, d + 1):
            for vs in itertools.product(vals, repeat=n):
                for ks in itertools.product((0, 1), repeat=n):
                    if ks[0] == 1:
                        continue
                    ls = tuple(b"%c\t%s\tt%d" % (97 + k, v, i) for i, (k, v) in enumerate(zip(ks, vs)))
                    for ai, a in enumerate(aggs):
                        forms = ("replace", "pre", "post") if n <= 2 else (("replace", "pre", "post")[(ai + n) % 3],)
                        for f in forms:
                            if q and n == 3 and len(vals) == 5 and (sum(ks) + ai) % 3:
                                continue
                            yield ("single", "first", ((f, a),), None, ls, True)
    ls3 = [tuple(b"%c\t%s\tt%d" % (97 + k, v, i) for i, (k, v) in enumerate(zip(ks, vs)))
           for vs in itertools.product(NUMV[:3], repeat=3) for ks in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0))]
    # several aggregators at once, with a count and with a choice of the representative line
    for ls in ls3:
        for a, b in (("sum", "max,float"), ("merge", "mean"), ("count", "merge,sort"), ("min", "max")):
            for fa, fb in (("replace", "post"), ("pre", "pre"), ("pre", "post"), ("post", "replace"), ("post", "post")):
                for cnt in (None, "begin", "end"):
                    for w in ("first", "last"):
                        for hdr in (True, False):
                            yield ("multi", w, ((fa, a), (fb, b)), cnt, ls, hdr)
    # column names that look like numbers, ranges or other specifications
    odd = (b"k", b"v", b"1", b"2", b"3", b"a-b", b"3v", b"+1", b"~v", b"a.b", b"(v)", b"x_y", b"")
    for n in itertools.product(odd, repeat=3):
        for fa in ("replace", "post"):
            yield ("names", "first", ((fa, "count"),), None, (b"x\t1\tp", b"x\t2\tq", b"y\t3\tr"), b" CDX\t" + b"\t".join(n))
    # every merge option on lists
    mv = [b"", b"a", b"bb,A", b"a,,c", b"B,a,a"]
    for n in range(1, d + 1):
        for vs in itertools.product(mv, repeat=n):
            for ai, a in enumerate(MERGEA):
                if q and n == 3 and (ai + sum(map(len, vs))) % 6:
                    continue
                yield ("single", "first", (("post", a),), None, tuple(b"k\t%s\tt" % v for v in vs), False)
    # lists that begin or end with a delimiter, but for the last value of a group
    for n in (2, 3):
        for vs in itertools.product([b"a,", b",", b",a", b"b", b"a,,"], repeat=n):
            if vs[-1] in (b",a", b"b"):
                for a in ("merge", "merge,sort", "merge,uniq", "merge,sort.uniq", "merge,min_len:1", "merge,max_parts:3", "merge,count"):
                    yield ("single", "first", (("post", a),), None, tuple(b"k\t%s\tt" % v for v in vs) + (b"l\tx\tt",), False)
    # which line represents the group, with min and max
    for ls in ls3:
        for w in ("min,2,float", "max,2,float", "min,3", "max,3", "last", "min", "max"):
            for cnt in (None, "begin", "end"):
                for f, a in (("replace", "sum"), ("post", "min,float"), ("pre", "count")):
                    yield ("which", w, ((f, a),), cnt, ls, True)
    # groups of every size up to 40, three groups; every aggregator
    for n in list(range(1, 18)) + [31, 32, 33, 40] + ([100, 1000] if not q else []):
        for a in sorted(AGG):
            if a.startswith("merge,") and a not in ("merge,sort", "merge,uniq", "merge,count", "merge,sort.uniq", "merge,max_parts:3"):
                continue
            ls = tuple(b"%s\t%d\tt" % (k, (i * 7 + 3) % 11) for k, m in ((b"a", n), (b"b", 2), (b"a", n // 2 + 1)) for i in range(m))
            yield ("ladder", "first", (("replace", a),), "end", ls, True)
    # one value per group: characters and words of odd text; bytes up to space are space, each invalid sequence one character
    odds = [b"", b"\x80", b"a\x80b", b"\xff\xfe", b"\xc3", b"\xc3\xa9\x80", b"\xe2\x82", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80 \xf0\x9f", b"a\x01b", b"a\x0bb", b"a\x0cb c", b"a\x7fb", b"\x1f", b"a\xc2\xa0b",
            b"\xc2\xb2", b"a\xc2\xb2b", b"\xd9\xa3 x", b"\xc2\xbd", b"-\xe2\x85\xa7-", b"x" * 255, b"x" * 256, b"x" * 257, b"y " * 300, b"\xc3\xa9" * 200, b"e\xcc\x81", b"_", b"a_b", b"it's", b"1.5", b"\xe4\xb8\xad\xe6\x96\x87 \xe5\xad\x97", b"z" * 65537, b"w " * 33000]
    for i, a in enumerate(odds):
        for b in (a, odds[(i + 1) % len(odds)], b"q r"):
            for w in WORDA + ["prefix", "suffix", "min,len", "max,length"]:
                yield ("single", "first", (("post", w),), None, (b"k\t%s\tt" % a, b"k\t%s\tu" % b, b"l\t%s\tt" % b), True)
    # common parts and extremes that differ late; large, small and missing numbers
    late = [b"p" * n + t for n in (0, 1, 7, 8, 9, 255, 256, 300) for t in (b"", b"a", b"b", b"\xc3\xa9", b"\xc3\xa8", b"\xc3")]
    for i, a in enumerate(late):
        for b in late[max(0, i - 7):i + 8]:
            for w in ("prefix", "suffix", "min", "max", "max,lower", "merge,sort.uniq"):
                yield ("single", "first", (("post", w),), None, (b"k\t%s\tt" % a, b"k\t%s\tu" % b, b"k\t%s\tu" % a, b"l\tz\tt"), True)
                if w == "suffix":
                    yield ("single", "first", (("post", w),), None, (b"k\t%s\tt" % a[::-1], b"k\t%s\tu" % b[::-1]), True)
    nums = [b"", b"0", b"-0", b"1e16", b"-1e16", b"1e300", b"1e-300", b"123456789.125", b"4294967296", b"9007199254740993", b"1K", b"1k", b" 5", b"0.1", b"x1", b"-7"]
    for vs in itertools.product(nums, repeat=2):
        for w in NUMA + ["count", "count,-3", "merge"]:
            for tail in ((), (b"k\t3\tt",), (b"l\t3\tt", b"l\t\tt")):
                yield ("single", "first", (("post", w),), None, tuple(b"k\t%s\tt" % v for v in vs) + tail, True)
    # large groups, and tables of many columns
    for n in (21, 22, 33, 50, 100, 255, 256, 257, 1000, 1001) + ((4096, 65535, 65536, 65537, 70000) if not q else (65537,)):
        for a in ("sum", "mean", "count", "count,5", "min,float", "max,num", "merge", "merge,count", "merge,sort.uniq", "merge,max_parts:3", "prefix", "suffix", "asum,chars", "amean,chars", "amin,swords"):
            if q and n > 2000 and a not in ("sum", "mean", "count", "merge,count", "asum,chars", "amean,chars", "merge"):
                continue
            ls = tuple(b"%s\t%d\tt" % (k, (i * 7 + 3) % 1100) for k, m in ((b"a", n), (b"b", 3)) for i in range(m))
            yield ("ladder", "first", (("post", a),), "end", ls, True)
        if n < 2000:
            ls = tuple(b"a\t%s\tt" % (b"aBcAbC"[i * 5 % 6:][:1 + i % 2]) for i in range(n))
            for a in ("merge,sort.comp:lower", "merge,sort.comp:len", "merge,sort.uniq.comp:lower", "merge,sort.uniq.comp:len", "merge,sort.max_parts:3.comp:lower"):
                yield ("ladder", "first", (("post", a),), "end", ls, True)
    for nc in (4, 5, 9, 10, 11, 16, 17, 18, 33, 100, 257):
        for c in sorted({1, 2, nc // 2, nc - 1, nc}):
            for a in ("count", "merge", "max"):
                for f in ("replace", "pre", "post"):
                    yield ("wide", nc, c, a, f)
    # other columns, missing values, several columns replaced at once
    for c1 in (1, 2, 3):
        for c2 in (1, 2, 3):
            for a1, a2 in (("count", "merge"), ("min", "max"), ("merge", "count")):
                for ls in ((b"a\t1\tx", b"a\t2", b"a", b"b\t3\ty"), (b"a\t1\tx", b"b", b"b\t4\tz", b"b\t\tq"), (b"a\t9\t8", b"a\t9\t8")):
                    for nm in (0, 1):
                        yield ("cols", c1, a1, c2, a2, ls, nm)
    # running expression
    for ls in ls3:
        yield ("expr", "first", (("expr", "x*c2"),), None, ls, False)
        yield ("expr", "first", (("expr", "x+c2"),), None, ls, False)
        for start in ("0", "-2.5", "0.0", "1e3"):
            for e in ("x*c2", "x+c2", "c2-x", "x+1"):
                yield ("expr", "first", (("expr", e, start),), None, ls, True)
        yield ("expr", "first", (("expr", "x+c2", "0"), ("expr", "x*c2", "1"), ("expr", "x+1", "5")), None, ls, True)
    # sums too large to hold, and what follows them
    for vs in itertools.product((b"1e308", b"-1e308", b"1", b"inf", b"9e307"), repeat=2):
        for w in ("sum", "mean", "min,float", "max,float", "count"):
            yield ("single", "first", (("post", w),), None, tuple(b"k\t%s\tt" % v for v in vs) + (b"l\t3\tt", b"l\t4\tt", b"m\t1e308\tt", b"m\t1e308\tt", b"n\t-7\tt"), True)


def num(b):
    try:
        return float(b)
    except ValueError:
        return None


def same(got, want):
    if isinstance(want, float):
        g = num(got)
        if math.isinf(want) or math.isnan(want):
            return got.lower() in ((b"nan", b"-nan") if math.isnan(want) else (b"inf",) if want > 0 else (b"-inf",))
        return g is not None and abs(g - want) <= 1e-9 * max(1.0, abs(want))
    return got == want


def run_cols(srv, case):
    _, c1, a1, c2, a2, ls, nm = case
    col = (lambda c: "kvz"[c - 1]) if nm else str
    args = ["uniq", "-k", "1", "-a", "%s,%s" % (col(c1), a1), "--agg-post", "n,%s,%s" % (col(c2), a2)]
    if c1 != c2:
        args += ["-a", "%s,%s" % (col(c2), a2)]
    data = ref.join_lines([HDR] + list(ls))
    r = srv.run(args, stdin=data)
    want = [[b" CDX", b"k", b"v", b"z", b"n"]]
    for g in groups_of(K((0, "plain", 0)), ls):
        cell = [[ref.col(x, c) for x in g] for c in range(3)]
        row = [v[0] for v in cell]
        row[c1 - 1] = AGG[a1](cell[c1 - 1])
        x2 = AGG[a2](cell[c2 - 1])
        if c1 != c2:
            row[c2 - 1] = x2
        want.append(row + [x2])
    got = [x.split(b"\t") for x in r.out.split(b"\n")[:-1]]
    if r.rc != 0 or len(got) != len(want) or any(len(p) != len(q) or not all(same(x, y) for x, y in zip(p, q)) for p, q in zip(got, want)):
        raise Violation("%s on %r: %s, expected %r" % (args, data, r.brief(), want))
    return r.out


def run_wide(srv, case):
    _, nc, c, a, f = case
    rows = [[b"k%d" % (i // 3)] + [b"r%dc%d" % (i, j) for j in range(2, nc + 1)] for i in range(7)]
    head = [b"n%d" % (j + 1) for j in range(nc)]
    data = ref.join_lines([b" CDX\t" + b"\t".join(head)] + [b"\t".join(x) for x in rows])
    args = ["uniq", "-k", "1"] + (["-a", "%d,%s" % (c, a)] if f == "replace" else ["--agg-" + f, "new,n%d,%s" % (c, a)])
    want = [([b" CDX", b"new"] if f == "pre" else [b" CDX"]) + head + ([b"new"] if f == "post" else [])]
    for g in (rows[0:3], rows[3:6], rows[6:7]):
        v = AGG[a]([x[c - 1] for x in g])
        row = list(g[0])
        if f == "replace":
            row[c - 1] = v
        want.append(([v] if f == "pre" else []) + row + ([v] if f == "post" else []))
    r = srv.run(args, stdin=data)
    got = [x.split(b"\t") for x in r.out.split(b"\n")[:-1]]
    if r.rc != 0 or len(got) != len(want) or any(len(p) != len(q) or not all(same(x, y) for x, y in zip(p, q)) for p, q in zip(got, want)):
        raise Violation("%s on a table of %d columns: %s, expected %r" % (args, nc, r.brief(), want))
    return r.out


def run(srv, case):
    if case[0] == "wide":
        return run_wide(srv, case)
    if case[0] == "cols":
        return run_cols(srv, case)
    _, w, aggs, cnt, ls, hdr = case
    args = ["uniq", "-k", "1", "-w", w]
    pre, post, rep = [], [], {}
    for i, (f, a, *more) in enumerate(aggs):
        if f == "replace":
            args += ["-a", "2," + a]
            rep[1] = AGG[a]
        elif f == "pre":
            args += ["--agg-pre", "n%d,2,%s" % (i, a)]
            pre.append((b"n%d" % i, AGG[a]))
        elif f == "post":
            args += ["--agg-post", "n%d,2,%s" % (i, a)]
            post.append((b"n%d" % i, AGG[a]))
        else:
            start = more[0] if more else "1"
            args += ["--agg-post", "n%d,expr,x,%s,%s" % (i, start, a)]

            def ex(vs, a=a, start=start):
                x = float(start)
                for v in vs:
                    x = {"x*c2": x * fl(v), "x+c2": x + fl(v), "c2-x": fl(v) - x, "x+1": x + 1}[a]
                return x
            post.append((b"n%d" % i, ex))
    if cnt:
        args += ["-c", "n," + cnt]
        item = (b"n", lambda vs: float(len(vs)))
        if cnt == "begin":
            pre.insert(0, item)
        else:
            post.append(item)
    names = hdr.split(b"\t")[1:] if isinstance(hdr, bytes) else [b"k", b"v", b"z"]
    data = ref.join_lines(([hdr if isinstance(hdr, bytes) else HDR] if hdr else []) + list(ls))
    r = srv.run(args, stdin=data)
    if case[0] == "names" and r.rc == 1 and r.err and not r.out:
        return (r.rc,)      # names that cannot be written are refused
    got = r.out.split(b"\n")
    ok = r.rc == 0 and got[-1] == b""
    got = got[:-1]
    want = []
    if hdr:
        want.append([b" CDX"] + [n for n, _ in pre] + names + [n for n, _ in post])
    keys = K((0, "plain", 0))
    for g in groups_of(keys, ls):
        x = pick(keys, PICK[w], g).split(b"\t")
        vs = [y.split(b"\t")[1] for y in g]
        want.append([f(vs) for _, f in pre] + [x[0], rep[1](vs) if 1 in rep else x[1], x[2]] + [f(vs) for _, f in post])
    ok = ok and len(got) == len(want)
    if ok:
        for a, b in zip(got, want):
            ac = a.split(b"\t")
            ok = ok and len(ac) == len(b) and all(same(p, s) for p, s in zip(ac, b))
    if not ok:
        raise Violation("%s on %r: %s, expected %r" % (args, data, r.brief(), want))
    return r.out
