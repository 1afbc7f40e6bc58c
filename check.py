#!/usr/bin/env python3
"""check.py <property> [--repo DIR] [--only SUBSTR] [--list] [-v]

Decides one property of eth-abi from the source under DIR (default /repo) by abstract interpretation.
Nothing of eth_abi is imported or executed.  See DESIGN.md."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from absint.engine import Analysis, fmt_loc            # noqa: E402
from rules import harness, props                       # noqa: E402
from rules.base import Ctx, load_known                 # noqa: E402


def work(i):
    scn, A, deadline = SCN[i], AN, DEADLINE
    left = deadline - time.time()
    if left <= 0:
        return i, None
    t = time.time()
    try:
        r = scn.run(A, min(scn.max_s, left))
    except Exception as e:
        r = {"paths": 0, "infeasible": 0, "cut": 0, "undecided": [(f"analyser: {type(e).__name__}: {e}", traceback.format_exc()[-300:])],
             "violations": [], "notes": {}, "complete": False}
    r["t"] = round(time.time() - t, 3)
    r["fns"] = list(A.I.functions_seen.items())[SEEN0:]
    return i, r


def main():
    global SCN, AN, DEADLINE, SEEN0
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--no-evidence", action="store_true")
    o = ap.parse_args()
    pid, tier = o.property, "thorough" if o.tier == "thorough" else "quick"
    t0 = time.time()
    prop = props.PROPS.get(pid)
    if prop is None:
        print(f"ERROR: no check for {pid}")
        return 2
    try:
        AN = Analysis(o.repo, harness=harness.SOURCE)
    except Exception as e:
        print(f"ERROR: analysis broken: {type(e).__name__}: {e}")
        return 2
    ctx = Ctx(AN, o.repo, tier)
    AN.freeze()
    SCN = prop.build(ctx)
    if o.only:
        SCN = [s for s in SCN if o.only in s.name]
    if o.list:
        for s in SCN:
            print(s.name)
        return 0
    DEADLINE = t0 + (prop.thorough_s if tier == "thorough" else prop.quick_s)
    # one scenario of every kind first, so that a short budget still sees all kinds
    rank, seen = {}, {}
    for i, sc in enumerate(SCN):
        rank[i] = seen[sc.key] = seen.get(sc.key, -1) + 1
    order = sorted(range(len(SCN)), key=lambda i: (min(rank[i], 2), -SCN[i].weight))
    known = load_known(os.path.join(HERE, "KNOWN_FINDINGS.txt"))

    def fresh(i, r):
        return r and any(not any(k.matches(f"{SCN[i].key}:{v['kind']}") for k in known.get(pid, [])) for v in r["violations"])
    STOP_AFTER = 60            # seconds after which a violation already found ends the exploration
    SEEN0 = 0
    results, found = {}, False
    if o.j > 1 and len(SCN) > 1:
        with mp.get_context("fork").Pool(min(o.j, len(SCN))) as pool:
            for i, r in pool.imap_unordered(work, order, chunksize=max(1, min(32, len(SCN) // (o.j * 12)))):
                results[i] = r
                if o.v and r:
                    report(SCN[i], r)
                found = found or fresh(i, r)
                if found and time.time() - t0 > STOP_AFTER:
                    pool.terminate()
                    break
    else:
        for i in order:
            results[i] = work(i)[1]
            if o.v:
                report(SCN[i], results[i])

    # ---- verdict
    tot = dict(paths=0, infeasible=0, cut=0, undecided=0)
    skipped, decided, incomplete, partly = [], 0, [], []
    viol, kn = [], {}
    fns, notes, und = set(), {}, {}
    for i in range(len(SCN)):
        s, r = SCN[i], results.get(i)
        if r is None:
            skipped.append(s.name)
            continue
        tot["paths"] += r["paths"]
        tot["infeasible"] += r["infeasible"]
        tot["cut"] += r["cut"]
        tot["undecided"] += len(r["undecided"])
        for m, l in r["undecided"]:
            und.setdefault(f"{m} @ {l}"[:300], []).append(s.name)
        if r["paths"] + r["cut"] > len(r["undecided"]):
            decided += 1
        if not r["complete"]:
            incomplete.append(s.name)
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
        for (f, q), _ in r["fns"]:
            fns.add((f, q))
        for v in r["violations"]:
            key = f"{s.key}:{v['kind']}"
            hit = next((k for k in known.get(pid, []) if k.matches(key)), None)
            if hit:
                kn.setdefault(hit, []).append((s, v))
            else:
                viol.append((s, v, key))
    wall = time.time() - t0
    pkg = sorted({(f, q) for f, q in fns if f and not str(f).startswith("<") and str(f).startswith("eth_abi")})
    cov = {
        "explanation": prop.explanation,
        "rule": prop.rule,
        "scenarios": len(SCN), "scenarios_decided": decided, "scenarios_not_reached": len(skipped),
        "scenarios_budget_exhausted": len(incomplete),
        "obligations": tot["paths"], "discharged": tot["paths"] - tot["undecided"] - len(viol) - sum(map(len, kn.values())),
        "partitions_undecided": tot["undecided"], "partitions_beyond_loop_bound": tot["cut"], "partitions_infeasible": tot["infeasible"],
        "functions_analysed": len(pkg), "functions": [f"{f}:{q}" for f, q in pkg][:200],
        "sources": {f: d[:16] for f, d in sorted(AN.I.digest.items()) if str(f).startswith("eth_abi")},
        "counts": notes, "samples": samples(results),
        "undecided_reasons": {k: len(v) for k, v in list(und.items())[:20]},
        "known_findings_seen": sorted(k.what for k in kn),
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "other", "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(viol)}
    if not o.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{pid} [{tier}] {prop.title}: {len(SCN)} scenarios ({decided} decided, {len(skipped)} not reached, {len(incomplete)} budget-limited), "
          f"{tot['paths']} partitions ({tot['undecided']} undecided, {tot['cut']} beyond loop bound), {len(pkg)} functions, {wall:.1f} s")
    for k in sorted(kn, key=lambda k: k.key):
        s, v = kn[k][0]
        print(f"KNOWN-FINDING: property={pid} {k.what} [{len(kn[k])} partition(s), e.g. {s.name} at {v['loc']}]")
    if und and (o.v or len(und) < 6):
        for k, v in list(und.items())[:12]:
            print(f"  undecided x{len(v)}: {k[:220]} (e.g. {v[0]})")
    if viol:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        if not o.no_evidence:
            with open(rp, "w") as f:
                json.dump([{"scenario": s.name, "key": key, **v} for s, v, key in viol[:40]], f, indent=1, default=str)
        for s, v, key in viol[:6]:
            print(f"  {v['loc']}: [{key}] {v['msg'][:500]}")
            for n, x in v["inputs"].items():
                print(f"      {n} = {str(x)[:300]}")
            for why, k, l in v["trace"][-4:]:
                print(f"      via {l}: {why[:120]} -> {k}")
        if len(viol) > 6:
            print(f"  ... {len(viol)} in all")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if decided < max(1, len(SCN) // 4):
        print(f"ERROR: only {decided} of {len(SCN)} scenarios could be analysed")
        return 2
    return 0


def samples(results):
    out = []
    for i in sorted(results)[:: max(1, len(results) // 5)][:6]:
        r = results[i]
        if r:
            out.append({"scenario": SCN[i].name, "partitions": r["paths"], "complete": r["complete"], "counts": r["notes"]})
    return out


def report(s, r):
    if r is None:
        return
    print(f"    {s.name}: {r['paths']} paths {len(r['violations'])} viol {len(r['undecided'])} und {r['cut']} cut complete={r['complete']} {r['t']}s", flush=True)


if __name__ == "__main__":
    sys.exit(main())
