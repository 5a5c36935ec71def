#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "reference-model oracle over generated executions", "C02": "reference-model and conservation monitors over generated executions",
 "C03": "reference-model oracle over generated executions", "C04": "accumulation-history monitor against a reference model",
 "C05": "definition-level estimator oracle over generated executions", "C06": "formula oracle over generated executions",
 "C07": "stream monitor (event log of frames consumed) and in-memory reference model", "C08": "reference model per level over generated executions",
 "C09": "online monitor of every intermediate result of the stream against a prefix reference model", "C10": "online monitor of streamed statistics against reference statistics",
 "C11": "bijection monitor with pixel-tagged data", "C12": "reference model and conservation monitors", "C13": "invariant monitors with poisoned allocations",
 "C14": "geometric reference model and partition monitors", "C15": "naive DFT reference oracle", "C16": "event-log monitor of frames entering and leaving pipelines",
 "C17": "exactly-once/ordering checker over event logs with injected delays, faults and abandonment", "C18": "physical reference model and conservation monitors",
 "C19": "schedule and pairing checkers over event logs", "C20": "byte-digest input monitors and history/layout replay",
 "C21": "bounds-checked kernel build (NUMBA_BOUNDSCHECK), poisoned memory, process exit monitoring", "C22": "differential runs across build configurations and concurrent callers",
 "C23": "settings-state monitor over random call histories with injected failures", "C25": "end-to-end reference oracle over generated recordings",
 "C24": "viewer state monitor against recomputation from analysis functions",
}
NOTE = {}
DEFAULT_NOTE = ("Held on every generated execution of the real code; coverage counts are in the evidence file. Trusts the plain numpy reference models in /verif/vh and /verif/checks, "
                "numpy itself, and the generators' reach (small shapes, integer-valued data).")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                           technique="runtime monitoring: " + TECH[p], level="exploration", level_note=NOTE.get(p, DEFAULT_NOTE)))
    else:
        na.append(dict(property=p, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: the checks observe the public API, and use numba's own NUMBA_BOUNDSCHECK and the package's own CDDM_* build variables", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
