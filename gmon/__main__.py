"""python -m gmon <property> [--replay FILE] [--only WORKLOAD] [--jobs N]."""
import argparse
import importlib
import json
import os
import sys
import time

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("GMON_JOBS", "6")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = a.prop
    t0 = time.time()
    try:
        import glimpse
    except Exception:
        # The library cannot even be imported: nothing can be observed.
        import traceback

        traceback.print_exc()
        print("ERROR: glimpse cannot be imported")
        return 3
    where = os.path.realpath(glimpse.__file__)
    if not where.startswith(os.path.realpath(os.path.join(core.REPO, "src"))):
        print(f"ERROR: glimpse imported from {where}")
        return 3
    sys.path.insert(0, core.ROOT)
    importlib.import_module(f"checks.{prop.lower()}")
    core.META["prop"] = prop
    if a.replay:
        with open(a.replay) as fp:
            rec = json.load(fp)
        w = next(w for w in core.WORKLOADS if w["name"] == rec["workload"])
        r = core.run_case(prop, w, rec["seed"], rec["index"], rec["tier"])
        core._clean_scratch()
        print(json.dumps(r, indent=1)[:20000])
        return 1 if r["violations"] else 0
    if a.case is not None:
        w = next(w for w in core.WORKLOADS if w["name"] == a.only[0])
        r = core.run_case(prop, w, seed, a.case, tier)
        core._clean_scratch()
        print(json.dumps(r, indent=1)[:20000])
        return 1 if r["violations"] else 0
    budget = a.budget or (600 if tier == "quick" else 3000)
    stats, skipped, dead = core.run_all(prop, seed, tier, a.jobs, budget, a.only)
    known = [(m, t) for p, m, t in core.load_known() if p == prop]
    listed = {m for m, _ in known}
    seen_known = {}
    new = {}
    for v in stats.violations:
        key = f"{v['workload']}:{v['mechanism']}"
        if key in listed:
            seen_known[key] = seen_known.get(key, 0) + 1
        else:
            new.setdefault(key, []).append(v)
    # evidence
    judged = {k[7:]: v for k, v in stats.events.items() if k.startswith("judged:")}
    other = {k: v for k, v in stats.events.items() if not k.startswith("judged:")}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.n,
            "distinct_nontrivial": len(stats.hashes),
            "rule": core.META["rule"],
            "samples": stats.samples or [{"note": "no case ran"}],
            "per_workload": stats.per,
            "judgements_by_monitor": dict(sorted(judged.items())),
            "observed_events": dict(sorted(other.items())),
            "cases_not_run_out_of_budget": skipped,
            "known_findings_observed": seen_known,
            "exhaustive": False,
        },
        "assumptions": core.META["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(len(v) for v in new.values()),
    }
    evdir = os.path.join(core.ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not a.only:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as fp:
            json.dump(ev, fp, indent=1)
    # report
    print(
        f"{prop} {tier} seed={seed}: {stats.n} cases, {sum(judged.values())} judgements "
        f"by {len(judged)} monitors, {len(stats.hashes)} distinct non-trivial, "
        f"{skipped} not run, {time.time() - t0:.1f}s"
    )
    if a.verbose:
        for k, v in stats.per.items():
            print("   ", k, v)
    for m, t in known:
        if seen_known.get(m):
            print(f"KNOWN-FINDING: property={prop} {t} [{m} x{seen_known[m]}]")
        else:
            print(f"note: listed finding not observed in this run: {m}")
    if new:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, (key, vs) in enumerate(sorted(new.items())[:int(os.environ.get("GMON_SHOW", "10"))]):
            v = dict(vs[0], property=prop, tier=tier, occurrences=len(vs))
            path = os.path.join(rdir, f"{prop}-{k}.json")
            with open(path, "w") as fp:
                json.dump(v, fp, indent=1)
            print(
                f"VIOLATION property={prop} replay={path} mechanism={key} n={len(vs)}"
            )
            print("   case:", json.dumps(v["case"])[:300])
            print("   detail:", json.dumps(v["detail"])[:400])
        return 1
    if dead or stats.inconclusive:
        print("INCONCLUSIVE:", dead, stats.inconclusive[:5])
        return 4
    short = {k: n for k, n in core.META["require"].items() if stats.events.get(k, 0) < n}
    if short and not a.only:
        print("INCONCLUSIVE: monitors not reached:", short)
        return 5
    return 0


sys.exit(main())
