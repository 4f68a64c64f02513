#!/usr/bin/env python3
# writes MANIFEST.json; CLAIMED lists the properties whose check exists
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
reg = set()
for f in os.listdir(V + "/harness"):
    reg |= set(re.findall(r'ID: "(C\d\d)"', open(V + "/harness/" + f).read()))
INPUT = "bounded exhaustive enumeration of inputs on the real code against an enumerating reference model"
TECH = {
 "C05": "stateless model checking: map iteration order as controlled nondeterminism, all deviations up to a bound",
 "C10": "all operation sequences up to a depth on the real code, compared with a reference state machine",
 "C15": "stateless model checking: all interleavings up to a preemption bound under a controlled scheduler, all operation sequences up to a depth",
 "C17": "bounded exhaustive enumeration of data files on the real command line tool and app against a counting reference model",
 "C18": "bounded exhaustive enumeration of evidence lists on the real command line tool against an enumerating reference model",
 "C19": "explicit-state exploration of a model of the app; tours over all its transitions and all event sequences up to a depth replayed on the real app (scripted screen)",
 "C20": "explicit-state exploration of a model of the app; tours over all its transitions and all event sequences up to a depth replayed on the real app (scripted screen)",
 "C22": "all sequences of failing requests up to a depth on the real code, compared with a reference",
 "C23": "explicit-state exploration of a model of the app; tours over all its transitions and all event sequences up to a depth replayed on the real app (scripted screen)",
}
NOTE = "Holds for every behaviour inside the bounds stated in DESIGN.md and in the evidence file; beyond them only by the small-scope hypothesis. Trusts the reference model in harness/ and the Go toolchain."
checks = [{"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
           "technique": TECH.get(i, INPUT), "level": "model_checking", "level_note": NOTE} for i in ids if i in reg]
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in reg]
m = {"version": 1, "setup_cmd": "bash build.sh maps cli bbni points race", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none: /repo carries no hooks; instrumentation is generated at check time and applied with go build -overlay",
               "enable": "bash build.sh (go build -overlay build/ov-*/overlay.json)", "source_commits": []},
     "notes": "Every check rebuilds from /repo's working tree. Replay one case: bash run.sh <id> <tier> --case <index>."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
