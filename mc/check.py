#!/usr/bin/env python3
"""check.py <PROPERTY> quick|thorough     -- decide a property on /repo's working tree
   check.py --replay FILE                 -- re-run one recorded case, verbosely

Exit 0: the property held on every case explored.  Exit 1 (+ VIOLATION line): it did not.
Exit 2: the machinery could not run (no verdict).
"""
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

HERE = core.VERIF
OUT = os.environ.get("MC_OUT", HERE)
MAXVIOL = 5


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


STOP = multiprocessing.Value("d", 0.0)      # when the first violation was found, by any worker
AFTER = 20                                  # seconds the others go on, to find a smaller one


def judge(mod, srv, case):
    """what cdx gave back may be so far from what is expected that it cannot even be taken apart"""
    try:
        return mod.run(srv, case)
    except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, AssertionError):
        raise core.Violation("the result cannot be made sense of: " + traceback.format_exc(limit=-3))


def worker(args):
    (modname, tier, k, n, binary, so, base, known, seed, deadline) = args
    mod = importlib.import_module("props." + modname)
    d = os.path.join(base, "w%d" % k)
    srv = core.Server(binary, so, d)
    out = dict(states=0, runs=0, ioev=0, outcomes=set(), nontriv=set(), viol=[], known={}, samples=[],
               capped=False, error=None, byspace={})
    t0 = time.time()
    stride = int(os.environ.get("MC_STRIDE", "1"))      # development only: look at every stride-th case
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % stride or (i // stride) % n != k:
                continue
            now = time.time()
            if now > deadline:
                out["capped"] = True
                break
            if STOP.value and now > STOP.value + AFTER:
                break
            key = core.h(core.json.dumps(core.enc(case))).hex()
            out["states"] += 1
            sp = case[0]
            out["byspace"][sp] = out["byspace"].get(sp, 0) + 1
            try:
                o = judge(mod, srv, case)
            except core.Violation as e:
                if key in known:
                    out["known"][key] = (i, str(e))
                else:
                    out["viol"].append((i, key, core.enc(case), str(e)))
                    if not STOP.value:
                        STOP.value = time.time()
                    if len(out["viol"]) >= MAXVIOL:
                        break
                o = ("viol", i)
            if o is not None:
                hh = core.h(o)
                if len(out["outcomes"]) < 200000:
                    out["outcomes"].add(hh)
            if len(out["samples"]) < 2 or (out["states"] & (out["states"] - 1)) == 0:
                out["samples"].append((i, core.enc(case), repr(o)[:200]))
    except Exception:  # infrastructure
        out["error"] = traceback.format_exc()
    out["states"] += srv.extra
    out["runs"] = srv.runs
    out["ioev"] = srv.ioev
    out["wall"] = time.time() - t0
    srv.stop()
    return out


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--list":
        mod = importlib.import_module("props." + sys.argv[2])
        cnt = {}
        for c in mod.cases(sys.argv[3]):
            cnt[c[0]] = cnt.get(c[0], 0) + 1
        print(sum(cnt.values()), cnt)
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = core.scratch()
    try:
        binary = core.build_cdx()
        tb = time.time() - t0
        so = core.build_shim(base)
        # run a private copy of the binary, so that nothing else can replace it under us
        mybin = os.path.join(base, "cdx")
        shutil.copy(binary, mybin)
        modname = prop.lower()
        mod = importlib.import_module("props." + modname)
        if hasattr(mod, "prepare"):
            mod.prepare(base, tier)
        n = int(os.environ.get("MC_JOBS", str(min(16, os.cpu_count() or 4))))
        known = {x["key"]: x for x in load_known() if x["property"] == prop}
        cap = float(os.environ.get("MC_CAP", "420" if tier == "quick" else "7200"))
        deadline = time.time() + cap
        with multiprocessing.Pool(n) as pool:
            res = pool.map(worker, [(modname, tier, k, n, mybin, so, base, set(known), seed, deadline)
                                    for k in range(n)], chunksize=1)
        errs = [r["error"] for r in res if r["error"]]
        viol = sorted((v for r in res for v in r["viol"]), key=lambda v: v[0])
        if errs and not viol:
            sys.stderr.write("machinery failure:\n" + errs[0])
            return 2
        if errs:
            sys.stderr.write("machinery failure in some workers:\n" + errs[0])
        states = sum(r["states"] for r in res)
        runs = sum(r["runs"] for r in res)
        ioev = sum(r["ioev"] for r in res)
        outcomes = set().union(*(r["outcomes"] for r in res))
        byspace = {}
        for r in res:
            for a, b in r["byspace"].items():
                byspace[a] = byspace.get(a, 0) + b
        kn = {}
        for r in res:
            kn.update(r["known"])
        samples = sorted((s for r in res for s in r["samples"]), key=lambda s: s[0])
        step = max(1, len(samples) // 12)
        capped = any(r["capped"] for r in res)
        for key, (i, msg) in sorted(kn.items(), key=lambda x: x[1][0]):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]["what"]))
        replays = []
        if viol:
            rd = os.path.join(OUT, "replays")
            os.makedirs(rd, exist_ok=True)
            for (i, key, case, msg) in viol[:MAXVIOL]:
                p = os.path.join(rd, "%s-%s.json" % (prop, key[:12]))
                with open(p, "w") as f:
                    json.dump(dict(property=prop, module=modname, key=key, index=i, case=case,
                                   message=msg), f, indent=1)
                replays.append(p)
                sys.stderr.write("case %d: %s\n" % (i, msg))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=states, transitions=runs + ioev,
                                traces_validated_against_impl=runs,
                                samples=["%s => %s" % (json.dumps(s[1])[:600], s[2]) for s in samples[::step][:16]],
                                evaluations=runs, distinct_nontrivial=len(outcomes),
                                rule=getattr(mod, "RULE", "observable result (exit status, output bytes) as a "
                                             "function of the case differs from every other outcome counted"),
                                exhaustive=not capped and not viol,
                                spaces=byspace, io_events=ioev, build_s=round(tb, 1),
                                bounds=getattr(mod, "BOUNDS", {}).get(tier, "")),
                  wall_s=round(time.time() - t0, 2), violations=len(viol),
                  assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON)
        ed = os.path.join(OUT, "evidence")
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d executions of cdx, %d I/O events, %d distinct outcomes, %d violations, %.1fs%s" % (
            prop, tier, states, runs, ioev, len(outcomes), len(viol), time.time() - t0,
            " (TIME CAP REACHED)" if capped else ""))
        if viol:
            for p in replays[:1]:
                print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        return 0
    except core.Infra as e:
        sys.stderr.write("machinery failure: %s\n" % e)
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


COMMON = [
    "behaviour outside the stated bounds is not explored",
    "the Python reference models are correct readings of the property",
    "the LD_PRELOAD shim (fork server, read/write answers) does not change program logic",
]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    base = core.scratch()
    try:
        binary = core.build_cdx()
        so = core.build_shim(base)
        mod = importlib.import_module("props." + r["module"])
        if hasattr(mod, "prepare"):
            mod.prepare(base, "quick")
        srv = core.Server(binary, so, os.path.join(base, "w0"))
        case = core.dec(r["case"])
        print("case:", case)
        try:
            o = judge(mod, srv, case)
            print("holds:", o)
            rc = 0
        except core.Violation as e:
            print("violated:", e)
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            rc = 1
        srv.stop()
        return rc
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
