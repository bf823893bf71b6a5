"""Writes MANIFEST.json from the checks present in mc/checks."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {"bfs": "explicit-state model checking of the real objects by exhaustive breadth-first search with replay, against a reference state machine",
        "tree": "stateless model checking: exhaustive exploration of every random choice of the real code under a controlled random source",
        "enum": "exhaustive enumeration of bounded inputs and call histories executed on the real code against an independent reference model",
        "dtmc": "explicit-state probabilistic model checking: exact distribution over the exhaustively explored choice tree against a reference Markov chain"}
KIND = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc/checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick bash run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique="; ".join(TECH[k] for k in KIND.get(i, "enum").split("+")),
                           level="model_checking", level_note=NOTE.get(i, "Holds on every execution within the bound stated in the evidence file; assumes numpy/scipy linear algebra.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: randomness is controlled by replacing numpy.random/random functions from outside before the package is imported."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
