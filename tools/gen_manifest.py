#!/usr/bin/env python3
"""writes MANIFEST.json from harness/checks.py (META: property -> level note) and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py selftest",
         hooks=dict(guard="none", enable="no hooks: the checks use only the public interface of the unmodified package", source_commits=[]),
         checks=[], not_applicable=[],
         notes="All checks: TLA+ specification in spec/, TLC; behaviours exported by TLC are replayed in the real code (harness/w_*.py) and recorded executions are validated by TLC (spec/Trace*.tla). See DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, note = checks.META.get(i, (None, None))
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
                                evidence_file=f"evidence/{i}.json", technique=t or "TLA+ specification checked by TLC; TLC behaviours replayed in the real code",
                                level="model_checking", level_note=note or "Exhaustive within the bounds given in DESIGN.md."))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NOT_CLAIMED.get(i, "check under construction")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
