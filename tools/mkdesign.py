#!/usr/bin/env python3
# Writes DESIGN.md from design.head.md, the property texts below, the claims of
# MANIFEST.json, known_findings.json and seeded/*/meta.json (with tools/catches.json).
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(here, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").split("\n") if l.strip()]
claims = {c["property"]: c for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}
notes = {}
cur = None
for l in rd("tools/design.props.md").split("\n"):
    if l.startswith("## "):
        cur = l[3:].strip()
        notes[cur] = []
    elif cur:
        notes[cur].append(l)
out = [rd("tools/design.head.md").rstrip(), "", "# Properties", ""]
for p in props:
    i = p["id"]
    out += [f"## {i} {p['title']}", ""]
    t = "\n".join(notes.get(i, [])).strip()
    if t:
        out += [t, ""]
    if i in claims:
        out += ["Bounds: " + claims[i]["level_note"].replace("Bounded: ", ""), ""]
    else:
        out += ["Not claimed.", ""]
k = json.load(open(os.path.join(here, "known_findings.json")))
out += ["# Defects found", "", "Each was shown with a failing input replayed against the real code before it was repaired.", ""]
out += ["- " + x for x in k["fixed"]] + [""]
out += ["Known findings that are not repaired: " + (str(len(k["known"])) if k["known"] else "none") + ".", ""]
out += ["- " + str(x) for x in k["known"]]
c = {}
if os.path.exists(os.path.join(here, "tools/catches.json")):
    c = json.load(open(os.path.join(here, "tools/catches.json")))
out += ["# Planted changes", "", "`caught` is what the quick check of the property said with the change applied (tools/catches.py).", "", "| change | property | needs | caught |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    s = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    out.append(f"| {s} | {j['property']} | {j['needs']} | {c.get(s, '?')} |")
out += ["", rd("tools/design.tail.md").rstrip(), ""]
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
