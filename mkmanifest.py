"""Writes MANIFEST.json from the list below (run by hand after adding a property)."""
import json
import os

# property -> (level, note)
CLAIMED = {
    "C05": ("proof", "All obligations of update/__init__/clear/__len__/__getitem__ discharged for every number of items and objectives; run-time contracts replay on the real code."),
}
try:
    from claims import CLAIMED
except ImportError:
    pass
NA = {
    "C26": "Reproducibility of a whole run is a relation between two executions that depends on wall-clock time, process scheduling and the internals of scikit-learn; no contract on the functions of this repository within the verifier's reach expresses or decides it.",
    "C27": "A wall-clock bound depends on the running time of third-party training code and on asynchronous exceptions (stopit) taking effect; deductive contracts here are about functional behaviour, not execution time. The arithmetic that divides the budget is claimed separately (C15).",
    "C28": "Resident memory of worker processes as reported by the operating system is not expressible in contracts over the code; enforcement is by sampling.",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in CLAIMED:
        level, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i}",
                           thorough_cmd=f"python3-vt check.py {i} --tier thorough",
                           technique="contract-based deductive verification (pyvc: symbolic execution of the real source against contracts, z3/cvc5), with run-time contracts for replay and bounded stand-ins",
                           level=level, level_note=note))
na = [dict(property=i, reason=NA.get(i, "Check not built yet.")) for i in ids if i not in CLAIMED]
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3, cvc5; print('ok')\"", checks=checks, not_applicable=na,
               notes="No hooks are added to /repo; /repo carries only fix: commits. See DESIGN.md."),
          open("/verif/MANIFEST.json", "w"), indent=1)
