"""./check PID : run every facet of one property, write evidence, report."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env
import pbt
from pbt import Violation

SHRINK_SECONDS = 40.0


class _Stop(BaseException):
    pass


def load(pid):
    import glob
    c = glob.glob(os.path.join(env.VERIF, "props", pid.lower() + "_*.py"))
    if len(c) != 1:
        raise SystemExit("no property module for %s" % pid)
    return importlib.import_module("props." + os.path.basename(c[0])[:-3]).PROPERTY


def known_findings(pid):
    """Entries of KNOWN_FINDINGS.json for this property that are still open:
    identified by facet and exact case."""
    p = os.path.join(env.VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def run_case(facet, case):
    """labels, or raises Violation.  Every facet interprets the output of the code under
    test; output it cannot interpret is not what the property promises."""
    try:
        return list(facet.run(json.loads(json.dumps(case))) or [])
    except (KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
        raise Violation("output cannot be interpreted: %s: %s\n%s" % (
            type(e).__name__, str(e)[:200], traceback.format_exc(limit=-4))) from None


def shard_main(pid, facet_name, shard, n, seed, q):
    res = dict(facet=facet_name, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[],
               failure=None, error=None, max_steps=0, wall=0.0)
    t0 = time.time()
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.internal.conjecture import providers

        # the cases of a seed must not depend on the text of the code under test
        # (hypothesis seeds values with the constants it finds there)
        providers._get_local_constants = lambda c=providers.Constants(): c

        prop = load(pid)
        facet = next(f for f in prop.facets if f.name == facet_name)
        keys, labels, samples = set(), Counter(), []
        best = [None]  # (size, case, message)
        first_fail = [None]

        def body(case):
            if first_fail[0] is not None and time.time() - first_fail[0] > SHRINK_SECONDS:
                raise _Stop()
            res["evaluations"] += 1
            try:
                ls = run_case(facet, case)
            except Violation as v:
                if first_fail[0] is None:
                    first_fail[0] = time.time()
                size = len(json.dumps(case, default=repr))
                if best[0] is None or size <= best[0][0]:
                    best[0] = (size, json.loads(json.dumps(case)), str(v))
                raise
            if ls:
                k = pbt.case_key(case)
                if k not in keys:
                    keys.add(k)
                    if len(samples) < 3 and len(keys) in (1, 7, 40):
                        samples.append({"facet": facet_name, "labels": sorted(set(ls)), "case": case})
            for l in set(ls):
                labels[l] += 1

        if facet.exhaustive is not None:
            tier = os.environ.get("VERIF_TIER", "quick")
            try:
                for i, case in enumerate(facet.exhaustive(tier)):
                    if i % facet.shards == shard:
                        body(case)
            except (Violation, _Stop):
                pass
        else:
            fn = settings(
                max_examples=n, database=None, deadline=None, derandomize=False,
                report_multiple_bugs=False, print_blob=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
            )(hypothesis.seed(seed * 1000003 + shard * 7919 + sum(map(ord, facet_name)))(given(facet.strategy)(body)))
            try:
                fn()
            except Violation:
                pass
            except _Stop:
                pass
            except hypothesis.errors.Flaky as e:
                if best[0] is None:
                    raise
        if best[0] is not None:
            res["failure"] = {"case": best[0][1], "message": best[0][2]}
        res.update(nontrivial=list(keys), labels=dict(labels), samples=samples, max_steps=pbt.BUDGET.used_max)
    except BaseException:
        res["error"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    q.put(res)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or 8))
    a = ap.parse_args()
    os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    prop = load(a.pid)

    if a.replay:
        r = json.load(open(a.replay))
        facet = next(f for f in prop.facets if f.name == r["facet"])
        try:
            print("labels:", run_case(facet, r["case"]))
        except Violation as v:
            print(v)
            print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
            return 1
        return 0

    facets = [f for f in prop.facets if not a.facet or f.name == a.facet]
    replay_dir = os.path.join(env.VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    failures = []
    known = known_findings(a.pid)
    known_keys = {(k["facet"], pbt.case_key(k["case"])): k for k in known if k.get("status") == "open"}

    # 1. regression tier: saved minimal cases (fixed defects, past failures)
    regress = 0
    cdir = os.path.join(env.VERIF, "corpus", a.pid)
    if os.path.isdir(cdir):
        for name in sorted(os.listdir(cdir)):
            c = json.load(open(os.path.join(cdir, name)))
            f = [x for x in facets if x.name == c["facet"]]
            if not f:
                continue
            regress += 1
            try:
                run_case(f[0], c["case"])
            except Violation as v:
                failures.append((c["facet"], c["case"], str(v)))
    # open findings: must still be printed on the unchanged tree
    for (fn, _), k in sorted(known_keys.items(), key=lambda kv: kv[1]["what"]):
        f = [x for x in facets if x.name == fn]
        if not f:
            continue
        try:
            run_case(f[0], k["case"])
        except Violation:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))

    # 2. generated search, one process per shard
    ctx = mp.get_context("fork")
    jobs = []
    for f in facets:
        n = int((f.quick if a.tier == "quick" else f.thorough) * a.scale)
        for s in range(f.shards):
            jobs.append((f, s, max(1, n // f.shards)))
    running, results = [], []
    jobs.reverse()
    while jobs or running:
        while jobs and len(running) < a.jobs:
            f, s, n = jobs.pop()
            q = ctx.SimpleQueue()
            p = ctx.Process(target=shard_main, args=(a.pid, f.name, s, n, a.seed, q))
            p.start()
            running.append((p, q, f, s))
        time.sleep(0.02)
        still = []
        for p, q, f, s in running:
            if not q.empty():
                results.append(q.get())
                p.join()
            elif not p.is_alive():
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append(dict(facet=f.name, shard=s, error="worker died with exit code %s" % p.exitcode,
                                        evaluations=0, nontrivial=[], labels={}, samples=[], failure=None, max_steps=0, wall=0))
                p.join()
            else:
                still.append((p, q, f, s))
        running = still
    results.sort(key=lambda r: (r["facet"], r["shard"]))

    errors = [r for r in results if r["error"]]
    for r in results:
        if r["failure"]:
            k = (r["facet"], pbt.case_key(r["failure"]["case"]))
            if k in known_keys:
                continue
            failures.append((r["facet"], r["failure"]["case"], r["failure"]["message"]))

    # one report per facet: the smallest case
    failures.sort(key=lambda f: len(json.dumps(f[1], default=repr)))
    failures = [f for i, f in enumerate(failures) if f[0] not in [g[0] for g in failures[:i]]]

    per = {}
    for r in results:
        d = per.setdefault(r["facet"], dict(evaluations=0, nt=set(), labels=Counter(), max_steps=0, wall=0.0))
        d["evaluations"] += r["evaluations"]
        d["nt"].update(r["nontrivial"])
        d["labels"].update(r["labels"])
        d["max_steps"] = max(d["max_steps"], r["max_steps"])
        d["wall"] += r["wall"]
    samples = []
    for r in results:
        for s in r["samples"][:2]:
            t = json.dumps(s, ensure_ascii=False)
            samples.append(s if len(t) < 2500 else {"facet": s["facet"], "labels": s["labels"], "case_json_truncated": t[:2500]})
    ev = {
        "property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": prop.level,
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()) + regress,
            "distinct_nontrivial": sum(len(d["nt"]) for d in per.values()),
            "rule": prop.rule,
            "samples": samples[:12],
            "regression_cases": regress,
            "facets": {
                n: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["nt"]),
                    "rule": next(f.rule for f in facets if f.name == n),
                    "classes": dict(sorted(d["labels"].items())), "max_steps_one_call": d["max_steps"],
                    "worker_seconds": round(d["wall"], 2)}
                for n, d in sorted(per.items())
            },
            "excluded_known_findings": len(known_keys),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    if not a.facet:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
    for n, d in sorted(per.items()):
        print("%s/%s: %d cases, %d distinct non-trivial, %.1fs, max steps %d, %s" % (
            a.pid, n, d["evaluations"], len(d["nt"]), d["wall"], d["max_steps"], dict(sorted(d["labels"].items()))))
    if errors and not failures:
        for r in errors:
            print("HARNESS ERROR in %s/%s:\n%s" % (a.pid, r["facet"], r["error"]), file=sys.stderr)
        return 2
    for i, (fn, case, msg) in enumerate(failures):
        path = os.path.join(replay_dir, "%s-%s-%d.json" % (a.pid, fn, i))
        with open(path, "w") as f:
            json.dump({"property": a.pid, "facet": fn, "message": msg, "case": case}, f, indent=1, ensure_ascii=False)
        print("--- %s/%s: %s" % (a.pid, fn, msg))
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
    return 1 if failures else 0


if __name__ == "__main__":
    sys.exit(main())
