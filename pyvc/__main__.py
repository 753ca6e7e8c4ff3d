import importlib, sys, time
from .driver import run_proof, World
def main():
    mod = importlib.import_module("contracts." + sys.argv[1].lower())
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    for p in mod.PROOFS:
        if pat not in p.name: continue
        r = run_proof(p, World(), budget=120)
        print(f"[{r.status}] {p.name}: {len(r.obligations)} obligations, {r.paths} paths, {r.seconds:.1f}s", r.unsupported or "")
        for o in r.obligations:
            if o.status != "proved" or "-v" in sys.argv:
                print("   ", o.status, o.name, o.backend, f"{o.seconds:.2f}", o.detail[:300].replace("\n", " "))
        for c, v in r.covers.items():
            if not v: print("    uncovered:", c)
        if "-n" in sys.argv:
            print("   functions", sorted(r.functions)); print("   notes", r.notes); print("   assumptions", r.assumptions)
main()
