#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P
root = os.path.dirname(here)
lines = []
checks = []
have = {f.split("_")[0].upper() for f in os.listdir(os.path.join(root, "checks")) if f.endswith(".py")}
na = []
try:
    from props import NA
except ImportError:
    NA = {}
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}}
    if p["state"]:
        d["anchors"]["state"] = p["state"]
    if p["observe"]:
        d["anchors"]["observe_at"] = p["observe"]
    lines.append(json.dumps(d))
    if p["id"] in have:
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} --tier quick",
                       "thorough_cmd": f"./check {p['id']} --tier thorough",
                       "technique": "runtime monitoring: " + p["technique"], "level": "exploration",
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
for f in (f for p in P for f in p["files"]):
    assert os.path.exists("/repo/" + f), f
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: monitors attach from /verif at import time. "
                    "Genuine defects found are repaired by 'fix:' commits in /repo and listed in known_findings.json."},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties,", len(checks), "checks")

# ---- DESIGN.md
from design import D
out = open(os.path.join(here, "design_template.md")).read()
sec = ["## Properties and how each is decided", ""]
for p in P:
    sec.append(f"### {p['id']} {p['title']}\n\n{D.get(p['id'], NA.get(p['id'], ''))}\n\n*Why tests cannot settle it:* {p['why']}\n")
known = json.load(open(os.path.join(root, "known_findings.json")))["findings"]
fsec = ["## Genuine defects found", "", "Each was shown on the real code, then repaired (`fix:` commit) or recorded as known.", ""]
for k in known:
    fsec.append(f"* **{k['id']}** {k.get('line') or k['what']}")
bsec = ["## Planted bugs", "", "Written from the property text and the code; kept whether or not a check catches them. "
        "`caught` was measured with `./check ID --tier quick` on the patched tree.", "",
        "| bug | needs | breaks | caught |", "|---|---|---|---|"]
cf = os.path.join(here, "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
sd = os.path.join(root, "seeded")
for b in sorted(os.listdir(sd)):
    mj = os.path.join(sd, b, "meta.json")
    if os.path.exists(mj):
        x = json.load(open(mj))
        bsec.append(f"| {b} | {x['needs']} | {x['what_it_breaks']} | {caught.get(b, '?')} |")
out = out.replace("DESIGN_PER_PROPERTY", "\n".join(sec)).replace("FINDINGS_SECTION", "\n".join(fsec)).replace("BUGS_SECTION", "\n".join(bsec))
open(os.path.join(root, "DESIGN.md"), "w").write(out)
