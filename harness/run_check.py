import argparse
import importlib
import json
import os
import sys
import time
import collections
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

warnings.filterwarnings("ignore")

import mon  # noqa: E402

KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def load_known(prop):
    """lines: KNOWN-FINDING: property=<id> mechanism=<key> <what fails>"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fp:
            for line in fp:
                line = line.strip()
                if not line.startswith("KNOWN-FINDING:"):
                    continue
                body = line[len("KNOWN-FINDING:"):].split()
                kv = dict(w.split("=", 1) for w in body[:2])
                if kv.get("property") == prop:
                    out[kv["mechanism"]] = " ".join(body[2:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--family", action="append")
    ap.add_argument("--nproc", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()

    t0 = time.time()
    modname = "checks.%s" % args.property.lower()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    known = load_known(prop)

    if args.replay:
        with open(args.replay) as fp:
            rec = json.load(fp)
        ctx = mon.run_case(
            mod, rec["family"], rec["seed"], rec["index"], rec["tier"])
        for v in ctx.violations:
            print(json.dumps(v, indent=1))
        new = [v for v in ctx.violations if v["mechanism"] not in known]
        if new:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("replay: held" if ctx.counters["inconclusive"] == 0
              else "replay: inconclusive")
        return 0 if ctx.counters["inconclusive"] == 0 else 2

    results = mon.run_families(
        modname, mod, args.tier, args.seed, only=args.family,
        nproc=args.nproc)

    counters = collections.Counter()
    per_family = collections.defaultdict(collections.Counter)
    sigs = set()
    samples = []
    fam_samples = collections.Counter()
    violations = []
    for r in results:
        counters.update(r["counters"])
        per_family[r["family"]].update(r["counters"])
        sigs.update(tuple(s) for s in r["sigs"])
        for s in r["samples"]:
            if fam_samples[r["family"]] < 2:
                samples.append({"family": r["family"], "case": s})
                fam_samples[r["family"]] += 1
        violations.extend(r["violations"])

    missing = [k for k in getattr(mod, "REQUIRED", [])
               if counters.get(k, 0) == 0]
    if args.family:
        missing = []

    new = [v for v in violations if v["mechanism"] not in known]
    old = [v for v in violations if v["mechanism"] in known]

    if not args.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
        assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        ev = {
            "property": prop,
            "tier": args.tier,
            "seed": args.seed,
            "level": getattr(mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": int(counters["cases"]),
                "distinct_nontrivial": len(sigs),
                "rule": mod.RULE,
                "samples": samples or ["no sample recorded"],
                "monitor_counters": {
                    k: int(v) for k, v in sorted(counters.items())},
                "per_family": {
                    k: {"cases": int(v["cases"]), "held": int(v["cases_held"])}
                    for k, v in sorted(per_family.items())},
                "monitors_not_reached": missing,
                "violated_mechanisms": sorted(
                    {v["mechanism"] for v in violations}),
                "known_findings_seen": sorted({v["mechanism"] for v in old}),
            },
            "assumptions": assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
            fp.write("\n")

    print("%s tier=%s seed=%d: %d cases, %d oracle evaluations, %d distinct, "
          "%d inconclusive, %.1f s" % (
              prop, args.tier, args.seed, counters["cases"],
              counters["oracle_evaluations"], len(sigs),
              counters["inconclusive"], time.time() - t0))

    for mech in sorted({v["mechanism"] for v in old}):
        print("KNOWN-FINDING: property=%s mechanism=%s %s" % (
            prop, mech, known[mech]))

    if new:
        seen = set()
        for v in new:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            path = os.path.join(
                ROOT, "evidence", "replays",
                "%s-%s-%s.json" % (
                    prop, v["family"],
                    "".join(c if c.isalnum() else "_"
                            for c in v["mechanism"])[:60]))
            rec = dict(property=prop, seed=args.seed, tier=args.tier, **v)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as fp:
                json.dump(rec, fp, indent=1)
            print("  [%s] case %s/%s: %s" % (
                v["mechanism"], v["family"], v["index"],
                json.dumps(v["detail"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1

    if missing:
        print("INCONCLUSIVE: monitors never reached: %s" % missing)
        return 2
    if counters["inconclusive"] > 0.02 * max(1, counters["cases"]):
        print("INCONCLUSIVE: %d of %d cases" % (
            counters["inconclusive"], counters["cases"]))
        for s in samples:
            if "inconclusive" in str(s):
                print("  ", json.dumps(s)[:500])
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
