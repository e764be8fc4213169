"""Write MANIFEST.json from the check modules that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "symbolic execution of the generated C (clang LLVM IR) and SMT equivalence with an independent model of the network"
TECH = {}
NOTE = {}
LEVELS = {}
NA = {}
exec(open(os.path.join(R, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA or not os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                       technique=TECH.get(i, TV), level=LEVELS.get(i, "translation_validation"), level_note=NOTE[i]))
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na,
         notes="Solver-based checking: the C that acetone generates is executed symbolically from LLVM IR (vlib/llvmexec.py) and the Python parts by symbolic execution of the real functions; Z3 decides equality with an independent specification. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
