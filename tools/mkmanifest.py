"""writes MANIFEST.json"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = os.environ.get("CLAIM", " ".join(f"C{k:02d}" for k in range(1, 18))).split()
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = ("contract-based deductive verification: contracts on the real functions, verification "
        "conditions from their traced jaxprs, discharged by exact identity checking over prime "
        "fields; refutations confirmed on a 60-digit witness and replayed in float64")
NOTE = {
}
DEF = ("Every obligation of the contracts is discharged for all real parameter values on each "
       "control path (exact real arithmetic; polynomial identity testing, error < 1e-12). "
       "Trusted: jax tracing, the primitive semantics in vc/interp.py, expm/solve contracts. "
       "Floating-point behaviour is only sampled. See DESIGN.md.")
checks = []
for i in ids:
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH, level="proof",
                           level_note=NOTE.get(i, DEF)))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import vc, jax, smolgp, mpmath"', checks=checks,
         not_applicable=[dict(property=i, reason="check under construction") for i in ids
                         if i not in CLAIMED])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
