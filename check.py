#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
Build the harness from /repo's working tree, search for a counterexample to one property in every
configuration listed below, write evidence/<id>.json. Exit 0: held on everything explored. Exit 1 with
a VIOLATION line: a counterexample that reproduces. Exit 2: the check itself could not run."""
import argparse, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B

# property -> list of (kind, config, variant, share of the case budget) per tier
S_Q = [("scalar", "dreal", "std", 1), ("scalar", "dcplx", "std", 0.7)]
S_T = [("scalar", "dreal", "std", 1), ("scalar", "dcplx", "std", 1), ("scalar", "freal", "std", 0.6), ("scalar", "fcplx", "std", 0.3), ("scalar", "dreal", "asan", 0.05)]
X_Q = [("scalarc", "dreal", "std", 1), ("scalarc", "dcplx", "std", 0.7)]
X_T = [("scalarc", "dreal", "std", 1), ("scalarc", "dcplx", "std", 1), ("scalarc", "freal", "std", 0.6), ("scalarc", "fcplx", "std", 0.3), ("scalarc", "dreal", "asan", 0.05)]
PLAN = {p: {"quick": S_Q, "thorough": S_T} for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")}
PLAN.update({p: {"quick": X_Q, "thorough": X_T} for p in ("C08", "C09")})
M_Q1 = [("matrix", "dcplx", "std", 1)]
M_Q3 = [("matrix", "dcplx", "std", 0.7), ("matrix", "dreal", "std", 0.5)]
M_Q2 = [("matrix", "dcplx", "std", 1), ("matrix", "dreal", "std", 1)]
M_T = [("matrix", "dreal", "std", 1), ("matrix", "dcplx", "std", 1), ("matrix", "freal", "std", 0.6), ("matrix", "fcplx", "std", 0.3), ("matrix", "dreal", "asan", 0.05)]
PLAN.update({p: {"quick": M_Q1, "thorough": M_T} for p in ("C10", "C14", "C17", "C18", "C20")})
PLAN["C13"] = {"quick": M_Q3, "thorough": M_T}
PLAN.update({p: {"quick": M_Q2, "thorough": M_T} for p in ("C11", "C12", "C16")})

PLAN["C15"] = {"quick": [("cont", "dcplx", "std", 1), ("cont", "dreal", "std", 0.5), ("cont", "dreal", "asan", 0.1)],
               "thorough": [(("cont"), c, "std", 1) for c in ("dreal", "dcplx", "freal", "fcplx")] + [("cont", "dreal", "asan", 0.15), ("cont", "dcplx", "asan", 0.15)]}
PLAN["C19"] = {"quick": [("matrix", "dreal", "asan", 1), ("scalar", "dreal", "asan", 0.5), ("cont", "dreal", "asan", 1)],
               "thorough": [("matrix", "dreal", "asan", 1), ("scalar", "dreal", "asan", 1), ("cont", "dreal", "asan", 1), ("matrix", "dcplx", "asan", 1), ("scalarc", "dcplx", "asan", 0.5), ("cont", "dcplx", "asan", 1)]}

ASSUME = [
    "the reference model (h/ref.hpp): formula DAG, its own differentiation rules, long double evaluation",
    "points outside the open domain of a formula or of the derivatives it needs, on complex branch cuts, or where the result is too ill conditioned to compare are skipped and counted",
    "a result counts as wrong when it differs by more than rounding can explain (sensitivity-scaled tolerance)",
    "g++ 13, single thread, assertions on",
]


def known():
    """known_findings.txt: 'finding: <name> property=<id> probe=<kind-cfg> <what fails>' / 'fixed: ...'"""
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: (\S+) property=(\S+) probe=(\S+) (.*)", line)
            if m:
                out.append(dict(name=m[1], props=m[2].split(","), probe=m[3].split("-"), what=m[4].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1)
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    plan = PLAN[a.prop][tier]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    if a.replay:
        # a replay file names its configuration and the seed its generated formulas came from
        t = open(a.replay).read()
        cfg, var = re.search(r"^config: (\w+)_(\w+)", t, re.M).groups()
        seed, salt = int(re.search(r"^seed: (\d+)", t, re.M)[1]), int((re.search(r"^salt: (\d+)", t, re.M) or [0, 0])[1])
        k = re.search(r"^kind: (\w+)", t, re.M)
        kind = k[1] if k else next((p[0] for p in PLAN[a.prop]["thorough"] if p[1:3] == (cfg, var)), plan[0][0])
        th = "tier: thorough" in t
        bins, err = B.build([(kind, cfg, var)], seed, tag=a.prop, salt=salt, shapes=90 if th else 36)
        if bins is None:
            print(err)
            return 2
        return subprocess.run([bins[(kind, cfg, var)], "--prop", a.prop, "--replay", a.replay]).returncode
    findings = [k for k in known() if a.prop in k["props"]]
    probes = [tuple((k["probe"] + ["std"])[:3]) for k in findings]
    targets = list(dict.fromkeys([p[:3] for p in plan] + probes))
    salts = 1 if tier == "quick" else 3  # thorough: several batches of statically nested formulas
    results, violations, notes = [], [], []
    for salt in range(salts):
        if salt:
            targets = [p[:3] for p in plan if (p[2] == "std" or a.prop == "C19") and p[0] != "cont"]
            if not targets:
                break
        bins, err = B.build(targets, a.seed, tag=a.prop, salt=salt, shapes=36 if tier == "quick" else 90)
        if bins is None:
            print("the harness does not build against this tree:\n" + err)
            return 2
        for kind, cfg, var, share in plan:
            if (kind, cfg, var) not in targets or violations:
                continue
            out = os.path.join(B.B, f"{a.prop}-{kind}-{cfg}-{var}-{salt}.json")
            rep = os.path.join(V, "replays", f"{a.prop}-{kind}-{cfg}-{var}.txt")
            for f in (out, rep):
                if os.path.exists(f):
                    os.unlink(f)
            cmd = [bins[(kind, cfg, var)], "--prop", a.prop, "--seed", str(a.seed), "--salt", str(salt), "--tier", tier,
                   "--scale", str(share * a.scale), "--out", out, "--replay-out", rep, "--jobs", "8", "--cap", "400" if tier == "quick" else "1500"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if os.path.exists(out):
                results.append(json.load(open(out)))
            if r.returncode == 1 and os.path.exists(rep):
                print(r.stdout[-3000:])
                open(rep, "a").write(f"kind: {kind}\n")
                violations.append(rep)
            elif r.returncode == 3:
                notes.append(f"{cfg}_{var}: a failing case did not reproduce when rerun and was not reported: {r.stdout[-300:]}")
            elif r.returncode not in (0, 1):
                print(r.stdout[-3000:])
                return 2
    for k, pr in zip(findings, probes):
        b = os.path.join(B.B, "-".join(pr))
        r = subprocess.run([b, "--prop", k["name"], "--cases", "1", "--replay-out", os.path.join(B.B, "kf.txt")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={a.prop} {k['name']}: {k['what']}")
        else:
            print(f"note: known finding {k['name']} no longer shows on this tree")
    def tot(k): return sum(r.get(k, 0) for r in results)
    labels, discards = {}, {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["discards"].items():
            discards[k] = discards.get(k, 0) + v
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("evaluations"), "distinct_nontrivial": tot("distinct_nontrivial"),
            "rule": results[0]["rule"] if results else "",
            "samples": [s for r in results for s in r["samples"]][:6],
            "comparisons_made": tot("checks"), "comparisons_skipped_outside_domain": tot("skipped"), "discarded_cases": tot("discarded"),
            "discard_reasons": discards,
            "classes": labels,
            "per_configuration": [{k: r[k] for k in ("config", "evaluations", "planned", "passed", "distinct_nontrivial", "checks", "skipped", "failures", "crash_restarts", "wall")} for r in results],
            "known_findings_excluded_by_construction": [k["name"] + ": " + k["what"] for k in findings],
            "notes": notes,
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(V, "evidence", a.prop + ".json"), "w"), indent=1)
    print(f"{a.prop} {tier} seed={a.seed}: {tot('evaluations')} cases, {tot('distinct_nontrivial')} distinct non-trivial, {tot('checks')} comparisons, {len(violations)} violations, {time.time()-t0:.0f} s")
    for n in notes:
        print("note:", n)
    for rep in violations[:1]:
        print(f"VIOLATION property={a.prop} replay={rep}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
