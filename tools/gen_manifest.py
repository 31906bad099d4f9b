"""Writes MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/gen")
from props import PROPS, NOTES  # noqa: E402

TECH = {
    "C01": "explicit-state / stateless model checking: every history of buffer and cursor operations to a depth, on the real code, against a position model",
    "C02": "stateless model checking: the source is an environment process; every answer sequence is explored, pulls compared with the reference model's furthest look",
    "C21": "stateless model checking of histories and schedules on the real code: every pair and triple of parses in a process, every nesting inside a token source at every read, every interleaving of threads at reads (DFS over a baton scheduler, preemption bound 2 where there are too many), against the reference model",
    "C23": "explicit-state exploration of lasso-shaped histories on the real code: every short history of buffer operations, and every program on every short periodic stream and on streams of all words, round after round, with the bytes held after and during each round monitored",
    "C22": "explicit-state model checking of the attribute language: every token word up to a length, alone and in company at every place; a grammar model's verdict against the real derive macro's, run by the compiler on each word",
}
DEFAULT = "stateless model checking of the real code: all environment answer sequences (tokens / end) within bounds, for every program of an enumerated program space, in lock step with a reference model"
checks, missing = [], []
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH.get(i, DEFAULT) + ("; " + NOTES[i][0] if i in NOTES and NOTES[i][0] else ""),
                           level="model_checking", level_note=NOTES[i][1] if i in NOTES else "Exhaustive within the bounds reported in the evidence; see DESIGN.md."))
    else:
        missing.append(dict(property=i, reason="the check is not built yet"))
json.dump(dict(version=1, setup_cmd="python3 --version && cargo --version",
               checks=checks, not_applicable=missing,
               notes="No hooks: everything is observed through nommy's public API and its derive macro. Each check generates a crate under /verif/build, builds it together with /repo's current tree and runs it."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
