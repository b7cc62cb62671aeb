#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--cases N] | --setup

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check failed."""
import argparse
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import build as B  # noqa: E402
import props as P  # noqa: E402
import runner as R  # noqa: E402


def known_findings(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def matches(k, v):
    if not re.fullmatch(k["key"], v["key"]):
        return False
    pat = k.get("detail")
    return pat is None or all(re.search(pat, c["detail"]) for c in v["cases"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    os.makedirs(B.OUT, exist_ok=True)
    if a.setup:
        want = {(t, v) for p in P.PROPS.values() for (t, v, *_) in p["runs"]}
        B.build(want)
        print(f"built {len(want)} binaries")
        return 0
    spec = P.PROPS[a.prop]
    t0 = time.time()
    thorough = a.tier == "thorough"
    res = R.Result()
    work = tempfile.mkdtemp(prefix=f"soro-{a.prop}-")
    try:
        bins = B.build({(t, v) for (t, v, *_) in spec["runs"]})
        B.prune()
        per = []
        for run in spec["runs"]:
            t, v, nq, nt = run[:4]
            opts = run[4] if len(run) > 4 else {}
            n = max(1, int((nt if thorough else nq) * a.scale))
            before = res.ran
            R.run_cases(res, bins[(t, v)], v, a.prop, a.seed, n, thorough, opts.get("env", {}),
                        work, timeout=opts.get("timeout", R.CASE_TIMEOUT),
                        chunk=opts.get("chunk"), workers=opts.get("workers"))
            per.append({"target": t, "variant": v, "cases": res.ran - before})
        for extra in spec.get("extra", ()):
            extra(res, a.seed, thorough, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    # the workload is fixed by its seed: code under which it no longer gets where it
    # got by far before does not do what the property says
    need = spec.get("min_stats", {}) if a.scale >= 1 else {}
    missing = [k for k in need if res.stats.get(k, 0) < need[k]]
    if missing and not res.viol and not res.errors and not res.inconclusive:
        for k in missing:
            res.add_viol("never-reached:" + k, 0, f"{k}: {res.stats.get(k, 0)} times in {res.ran} executions, "
                         f"at least {need[k]} are expected", {"cmd": f"check.py {a.prop} --seed {a.seed}", "variant": ""})

    known = known_findings(a.prop)
    fresh = []
    for v in res.viol.values():
        hit = [k for k in known if k["status"] == "known" and matches(k, v)]
        if hit:
            hit[0]["seen"] = hit[0].get("seen", 0) + v["count"]
        else:
            fresh.append(v)
    for k in known:
        if k["status"] == "known":
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    rnd = __import__("random").Random(a.seed)
    samples = [s for s in res.samples]
    rnd.shuffle(samples)
    ev = {
        "property": a.prop, "tier": "thorough" if thorough else "quick", "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res.ran,
            "distinct_nontrivial": len(res.sigs),
            "rule": spec["rule"],
            "samples": samples[:8],
            "oracle_evaluations": res.checks,
            "monitored": dict(sorted(res.stats.items())),
            "runs": per,
            "known_findings_observed": {k["what"]: k.get("seen", 0) for k in known
                                        if k["status"] == "known"},
        },
        "assumptions": spec.get("assumptions", []) + P.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{a.prop} [{ev['tier']}, seed {a.seed}]: {res.ran} executions, {len(res.sigs)} distinct "
          f"non-trivial, {res.checks} oracle evaluations, {ev['wall_s']} s")
    if fresh:
        rep = os.path.join(B.OUT, "replay")
        os.makedirs(rep, exist_ok=True)
        for v in fresh[:20]:
            name = re.sub(r"[^\w.-]+", "_", v["key"])[:80]
            path = os.path.join(rep, f"{a.prop}-{name}.json")
            with open(path, "w") as f:
                json.dump({"property": a.prop, "seed": a.seed, "tier": ev["tier"], **v}, f, indent=1)
            c = v["cases"][0]
            print(f"  {v['key']} x{v['count']}: case {c['case']} [{c['variant']}] {c['detail'][:600]}")
        for v in fresh[:20]:
            name = re.sub(r"[^\w.-]+", "_", v["key"])[:80]
            print(f"VIOLATION property={a.prop} replay={os.path.join(rep, f'{a.prop}-{name}.json')}")
        return 1
    for e in res.errors[:3]:
        print("error:", e)
    for e in res.inconclusive[:3]:
        print("inconclusive:", e)
    if res.errors or not res.ran or not res.sigs or \
            len(res.inconclusive) > max(1, res.ran // 20):
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("build error:", e)
        sys.exit(2)
    except KeyError as e:
        traceback.print_exc()
        sys.exit(2)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        sys.exit(2)
