#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property on /repo's current tree.

Exit 0: holds (known findings excepted); exit 1 with VIOLATION lines otherwise."""
import json, multiprocessing as mp, os, sys, time, traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import dump, ir, props
from codecs_ import Anchor

EVID = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known-findings.txt")

LIB = BIN = None


def job(a):
    """one analysis: (name) -> (name, reports, coverage)"""
    prop, i = a
    unit = props.PROPS[prop]["units"][i]
    try:
        return (str(unit), "ok") + unit.run(LIB, BIN)
    except Anchor as x:
        return (str(unit), "anchor", {("anchor", str(unit)): "%s: what the rule is about is gone: %s" % (unit, x)}, {}, [])
    except Exception:
        return (str(unit), "crash", traceback.format_exc(), {}, [])


def known(prop):
    """keys listed for this property: lines 'known: property=<id> <key> -- what'"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % prop):
                k, _, what = l[len("known: property=%s " % prop):].strip().partition(" -- ")
                r[k] = what
    return r


def keystr(k):
    return "/".join(str(x) for x in k) if isinstance(k, tuple) else str(k)


def main():
    global LIB, BIN
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    os.environ["VERIF_TIER"] = tier
    p = props.PROPS[prop]
    try:
        d = dump.dump()
    except dump.DumpError as x:
        print("cannot analyse the tree: %s" % x)
        return 2
    LIB, BIN = ir.Prog(d["lib"]), ir.Prog(d["bin"])
    units = p["units"]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, len(units))) as pool:
        res = pool.map(job, [(prop, i) for i in range(len(units))], chunksize=1)
    bad, crash = {}, []
    cov, samples = {}, []
    for name, how, reps, c, s in res:
        if how == "crash":
            crash.append((name, reps))
            continue
        bad.update(reps)
        for k, v in c.items():
            if isinstance(v, set):
                cov.setdefault(k, set()).update(v)
            elif isinstance(v, (int, float)):
                cov[k] = cov.get(k, 0) + v
            else:
                cov[k] = v
        samples += s
    if crash and not bad:
        for n, c in crash:
            print("the analysis of %s failed:\n%s" % (n, c))
        return 2
    # floors: an analysis that saw less than it must has decided nothing
    if not crash and not any(h == "anchor" for _, h, *_ in res):
        for k, n in p.get("floors", {}).items():
            v = cov.get(k, 0)
            v = len(v) if isinstance(v, set) else v
            if v < n:
                bad[("floor", k)] = "only %d %s were found (at least %d expected): the rule has nothing to decide on" % (v, k.replace("_", " "), n)
    cov = {k: (len(v) if isinstance(v, set) else v) for k, v in cov.items()}
    kn = known(prop)
    new = {k: m for k, m in bad.items() if keystr(k) not in kn}
    for k, m in bad.items():
        if keystr(k) in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, m))
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, "%s.violations.txt" % prop)
    if os.path.exists(rep):
        os.remove(rep)
    if new:
        with open(rep, "w") as h:
            for k, m in new.items():
                h.write("%s\n    key: %s\n" % (m, keystr(k)))
        for k, m in new.items():
            print("  " + m)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    cov.update(explanation=p["explanation"], rule=p["rule"], units=[str(u) for u in units], samples=sorted(set(samples))[:12],
               files_analysed=len(set(d["lib"]["files"]) | set(d["bin"]["files"])))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=p.get("level", "other"), coverage=cov,
              assumptions=p.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, "%s.json" % prop), "w") as h:
        json.dump(ev, h, indent=1)
    if not new:
        print("%s holds: %s (%.1f s)" % (prop, ", ".join("%s %s" % (v, k) for k, v in cov.items() if isinstance(v, int)), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
