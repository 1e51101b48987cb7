#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime monitoring: recorded contraction stream vs independent Wick enumeration (multiset, exactly-once)",
 "C02": "runtime monitoring: recorded contraction stream vs connected part of an independent Wick enumeration",
 "C03": "runtime monitoring: before/after events of each transformation evaluated on random symmetric tensors",
 "C04": "runtime monitoring: metamorphic trace oracle over symmetry-equivalent rewritings",
 "C05": "runtime monitoring: conservation and ordering monitor over recorded input/output lists",
 "C06": "runtime monitoring: recorded results vs explicit Fock-space matrices and independent enumeration",
 "C07": "runtime monitoring: recorded nested commutators vs Fock-space matrices; level-by-level trace check",
 "C08": "runtime monitoring: differential trace check under varied process counts, schedules with injected delays, hash seeds, histories",
 "C09": "runtime monitoring: emitted statements executed by an interpreter monitor, result tensors vs term values",
 "C10": "runtime monitoring: generated C++ compiled and run under ASan/UBSan against a mock tensor library, results vs term values",
 "C11": "runtime monitoring: emitted LaTeX parsed back and compared with the recorded term",
 "C12": "runtime monitoring: recorded spin-integrated terms evaluated against the spin-orbital term on spin-blocked tensors",
 "C13": "runtime monitoring: recorded spin-adapted terms evaluated on singlet tensors",
 "C14": "runtime monitoring: recorded block terms compared blockwise with the restricted input",
 "C15": "runtime monitoring: recorded gradient terms vs numerical directional derivative",
 "C16": "runtime monitoring: recorded costs and paths vs independent exhaustive enumeration",
 "C17": "runtime monitoring: recorded outcomes of construction/comparison/hash vs reference model",
 "C18": "runtime monitoring: recorded index-algebra results vs brute-force enumeration",
 "C20": "runtime monitoring: copies and originals re-read after every change, vs reference model",
 "C21": "runtime monitoring: directory tree, working directory and write-opens recorded before/after under clutter and injected exceptions",
 "C22": "runtime monitoring: recorded sequence operations vs the plain list, printed text parsed back",
 "C19": "runtime monitoring: recorded helper results vs reference models",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough",
                           technique=TECH[i], level="exploration",
                           level_note="randomized executions of the real code judged by an independent oracle; the evidence file counts "
                                      "what was observed; inputs outside the generator's bounds (DESIGN.md) are not covered"))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import numpy, json' && /opt/venv/bin/python -c 'import sympy'", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
