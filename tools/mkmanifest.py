"""Writes MANIFEST.json: one check per property that has a props/cNN.cc."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit-state exploration: exhaustive bounded enumeration of executions of the real tools, each compared with a reference model"
NOTE = "Every case of the stated finite families is executed on the code compiled from /repo (in-process, with an in-memory file system and controlled heap); a spread of the cases is also run on the binaries built by the repository's Makefile and must behave identically. Trusts the reference models in models/, libutf8proc's character data, and that behaviour beyond the enumerated bounds follows the same code paths."
LEVEL = {"C20": "fault_enumeration", "C24": "fault_enumeration"}
TECHS = {
    "C20": "exhaustive fault enumeration: every I/O operation of every execution as the failing one, every chunking, on the real code under a controlled environment",
    "C21": "exhaustive bounded enumeration of executions of the real code (AddressSanitizer and varied-memory builds) around every size limit",
    "C22": "exhaustive enumeration of single damages to every report line, executed on the real code (AddressSanitizer and plain builds)",
    "C24": "exhaustive fault enumeration: every memory request of every execution as the refused one, on the real code under a controlled heap",
    "C25": "exhaustive bounded enumeration of call sequences of the real library by a driver, compared with reference models",
    "C26": "explicit-state exploration of run histories over a set of files: every sequence of runs of the real tools, each compared with the run alone",
    "C28": "explicit-state exploration of schedules: every interleaving of the file operations of several runs of the real tools, and every point at which one is killed, with states deduplicated",
    "C27": "exhaustive bounded enumeration of executions of the real tools, with relations between the outputs of different tools as oracle",
    "C29": "exhaustive bounded enumeration of executions of the real tools, each compared with the execution on the renamed texts (symmetry of the state space)",
    "C23": "exhaustive enumeration of operation histories of the real containers, compared after each step with abstract models",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"{V}/props/{i.lower()}.cc"):
        checks.append({"property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
                       "technique": TECHS.get(i, TECH), "level": LEVEL.get(i, "model_checking"), "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/check --setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "C_STANDARD (make variable in use-libocreval-internal.mk; make C_STANDARD=-ansi turns it off)",
               "enable": "on by default; it only lets the build accept // comments, the object code is the same (see DESIGN.md)",
               "source_commits": ["0947a14606b174acc210e6f95f702a5288125f18"]},
     "notes": "See DESIGN.md. No hooks are compiled into /repo: the tools' libc entry points are redirected at link time."}
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
