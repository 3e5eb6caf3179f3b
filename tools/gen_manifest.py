"""Writes /verif/MANIFEST.json from the checks present and the properties listed."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C23": "whether an iterative floating-point optimiser reaches a stationary point or global maximum depends on runtime data, curvature and scipy's internals; no static argument over the source bounds it",
    "C24": "coverage of intervals and consistency of estimators are statements about the sampling distribution of the data, not about the program text",
    "C25": "floating-point accuracy bounds need the magnitudes of runtime data (condition numbers, utilities); the clamps that exist are decided under C01 and C06, the remaining rounding error is not statically bounded here",
    "C26": "running time and memory depend on data size, sparsity and optimiser iterations inside numpy/scipy; no cost model for those libraries is in reach",
}
TECH = "static analysis: gated-SSA value numbering / abstract interpretation of the current source, compared with reference definitions; residual term differences settled by random interpretation of the extracted terms (the code is never run)"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sa", "checks", i.lower() + ".py")):
        m = importlib.import_module("sa.checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "cd /verif && python3 -m sa %s" % i,
                       "thorough_cmd": "cd /verif && python3 -m sa %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": m.META.get("technique", TECH), "level": m.META["level"],
                       "level_note": m.META["explanation"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "python3 standard library only; nothing to build"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
