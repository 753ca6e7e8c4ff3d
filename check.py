#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current working tree.

1. discharge every obligation generated from the current source (contracts/cXX.py, pyvc)
2. run the run-time contracts on the real code (runtime/cXX.py): cross-check of the
   contracts, replay/witness search for refuted obligations, and labelled bounded
   stand-in for functions outside the verifier's reach
3. write evidence/PROP.json and give the verdict
"""
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
RUNPY = os.environ.get("VP_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("PYVC_REPO", "/repo")
EVID = os.environ.get("VP_EVIDENCE", os.path.join(HERE, "evidence"))

RT_BUDGET = {"quick": 45.0, "search": 110.0, "thorough": 400.0}
PROOF_BUDGET = {"quick": 100.0, "thorough": 400.0}

TRUSTED = [
    "pyvc (this repository's symbolic executor and its models of the Python core language)",
    "z3, cvc5",
    "CPython's ast module",
    "mathematical integers and reals stand for machine numbers (NaN excluded unless stated)",
]


def prove_one(args):
    prop, i, budget = args
    from pyvc.driver import run_proof
    from pyvc.engine import World

    mod = importlib.import_module("contracts." + prop.lower())
    r = run_proof(mod.PROOFS[i], World(REPO), budget=budget)
    return {
        "name": r.proof, "status": r.status, "unsupported": r.unsupported or r.misfit, "paths": r.paths,
        "functions": sorted(r.functions), "assumptions": sorted(r.assumptions),
        "notes": sorted(r.notes), "seconds": r.seconds, "solver_seconds": r.solver_seconds,
        "covers": r.covers,
        "obligations": [dict(name=o.name, status=o.status, backend=o.backend,
                             seconds=round(o.seconds, 3), detail=o.detail) for o in r.obligations],
    }


def prove_sub(prop, i, name, budget):
    """One verifier process per proof (a stuck solver can be stopped)."""
    err = ""
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--prove", prop, str(i), str(budget)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 1.3 + 30, cwd=HERE)
        try:
            return json.loads(p.stdout.decode().strip().splitlines()[-1])
        except Exception:
            err = f"verifier died ({p.returncode}): " + p.stderr.decode(errors="replace")[-300:]
    except subprocess.TimeoutExpired:
        err = "verifier exceeded its time limit"
    return {"name": name, "status": "undecided", "unsupported": err, "paths": 0, "functions": [],
            "assumptions": [], "notes": [], "seconds": 0.0, "solver_seconds": 0.0, "covers": {}, "obligations": []}


def runtime(prop, tier, seed, sections=None):
    if not os.path.exists(os.path.join(HERE, "runtime", prop.lower() + ".py")):
        return None
    fd, out = tempfile.mkstemp(prefix="vp_rt_", suffix=".json")
    os.close(fd)
    os.unlink(out)
    budget = RT_BUDGET[tier]
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONPATH=REPO, PYVC_REPO=REPO)
    cmd = [RUNPY, "-W", "ignore", os.path.join(HERE, "runtime", "run.py"), prop, tier, str(seed), out, str(budget)]
    if sections:
        cmd.append(",".join(sections))
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=budget * 1.5 + 150, cwd="/")
        txt = p.stdout.decode(errors="replace")[-1500:]
    except subprocess.TimeoutExpired as e:
        txt = "timeout: " + (e.stdout or b"").decode(errors="replace")[-1500:]
    try:
        with open(out) as fh:
            r = json.load(fh)
        os.unlink(out)
        r["cmd"] = " ".join(cmd[2:])
        return r
    except FileNotFoundError:
        return {"crashed": txt, "failures": [], "cases": 0, "clauses": {}, "skipped": {}, "seconds": 0.0}


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    out.append(line)
    except FileNotFoundError:
        pass
    return out


def main():
    if sys.argv[1] == "--prove":
        print(json.dumps(prove_one((sys.argv[2], int(sys.argv[3]), float(sys.argv[4])))))
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        mod = importlib.import_module("contracts." + prop.lower())
        proofs, bounded_why = list(mod.PROOFS), getattr(mod, "BOUNDED", [])
    except ModuleNotFoundError:
        proofs, bounded_why = [], []
    results, rt = [], None
    with cf.ThreadPoolExecutor(7) as ex, cf.ThreadPoolExecutor(1) as tx:
        frt = tx.submit(runtime, prop, tier, seed)
        futs = [ex.submit(prove_sub, prop, i, proofs[i].name, PROOF_BUDGET[tier]) for i in range(len(proofs))]
        results = [f.result() for f in futs]
        rt = frt.result()

    obligations = [dict(o, proof=r["name"]) for r in results for o in r["obligations"]]
    # an obligation fails for sure only if the code has the shape its invariants were written for
    refuted = [dict(o, proof=r["name"]) for r in results if r["status"] == "refuted" for o in r["obligations"] if o["status"] == "refuted"]
    undecided = [r for r in results if r["status"] == "undecided"]
    failures = list(rt["failures"]) if rt else []
    searched = None
    if refuted and not failures and rt is not None:
        searched = runtime(prop, "search", seed + 1)
        failures = list(searched["failures"])

    violation = None
    if failures or refuted:
        replay = os.path.join(EVID, f"{prop}.replay.json")
        src = searched if (searched and searched["failures"]) else rt
        with open(replay, "w") as fh:
            json.dump({
                "property": prop,
                "failing_inputs": failures,
                "rerun": f"{RUNPY} {(src or {}).get('cmd', '')}",
                "failed_obligations": refuted,
                "undecided": [{"proof": r["name"], "why": r["unsupported"]} for r in undecided],
            }, fh, indent=1)
        violation = f"VIOLATION property={prop} replay={replay}"
        if not failures:
            violation += " no-failing-input-found"

    rtc = rt or {"cases": 0, "clauses": {}, "skipped": {}, "seconds": 0.0}
    proved = [r for r in results if r["status"] == "proved"]
    level = "proof" if results and len(proved) == len(results) else "exploration"
    backends = {}
    for o in obligations:
        if o["status"] == "proved":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    cov = {
        "obligations": len(obligations),
        "discharged": sum(o["status"] == "proved" for o in obligations),
        "checker_cmd": f"python3-vt check.py {prop}",
        "trusted_base": TRUSTED,
        "discharged_by": backends,
        "solver_seconds": round(sum(r["solver_seconds"] for r in results), 2),
        "proofs": [{"proof": r["name"], "status": r["status"], "obligations": len(r["obligations"]),
                    "paths": r["paths"], "seconds": round(r["seconds"], 2), "why_undecided": r["unsupported"]}
                   for r in results],
        "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
        "bounded_not_proved": bounded_why + [f"{r['name']}: {r['unsupported'] or 'solver gave no answer'} "
                                             "(decided by the bounded run-time contract only)" for r in undecided],
        "runtime_contracts": {"cases": rtc["cases"], "clause_checks": rtc["clauses"],
                              "skipped": rtc["skipped"], "seconds": round(rtc["seconds"], 1),
                              "crashed": rtc.get("crashed"),
                              "note": "bounded cross-check on the real code, never counted as proved"},
        "evaluations": rtc["cases"],
        "distinct_nontrivial": len(rtc["clauses"]),
        "rule": "evaluations: inputs run through the real code with run-time contracts; "
                "distinct_nontrivial: contract clauses exercised at least once",
        "samples": [o["name"] for o in obligations[:8]] or sorted(rtc["clauses"])[:8],
    }
    notes = sorted({n for r in results for n in r["notes"]})
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": level, "coverage": cov,
          "assumptions": sorted({a for r in results for a in r["assumptions"]}) + [f"note: {n}" for n in notes],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    for line in known(prop):
        print(line)
    for r in results:
        print(f"[{r['status']}] {r['name']} ({len(r['obligations'])} obligations, {r['seconds']:.1f}s)"
              + (f" -- {r['unsupported']}" if r["unsupported"] else ""))
    for o in refuted[:6]:
        print(f"  refuted: {o['proof']}: {o['name']}")
    if rt:
        print(f"[run-time contracts] {rtc['cases']} cases, {sum(rtc['clauses'].values())} clause checks, "
              f"{len(rt['failures'])} failures, {rtc['seconds']:.1f}s"
              + (f", skipped {rtc['skipped']}" if rtc["skipped"] else "")
              + (f", CRASHED {rt['crashed'][-300:]}" if rt.get("crashed") else ""))
    for f in failures[:3]:
        print("  failing input:", json.dumps(f)[:700])
    if violation:
        print(violation)
        return 1
    if rt and rt.get("crashed") and (undecided or not results):
        print(f"{prop}: no answer (run-time contracts crashed and the proof is undecided)")
        return 2
    print(f"{prop}: held ({len(proved)}/{len(results)} proofs discharged)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
