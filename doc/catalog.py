#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique=None, how=None, note=None, na=None, level="other"):
    assert len(title) <= 80, (id, len(title))
    assert (na is None) != (technique is None), id
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()), files=files,
                      mech=mech, technique=technique, how=how and " ".join(how.split()), note=note and " ".join(note.split()), na=na and " ".join(na.split()), level=level))
exec(open(os.path.join(here, "props.py")).read())
ids = [p["id"] for p in PROPS]; assert len(set(ids)) == len(ids)
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(top, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="./build.sh", checks=[], not_applicable=[])
for p in PROPS:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
m["notes"] = "Static analysis of /repo's current source with /verif/solint (go/ssa based, path sensitive, interprocedural). No hooks in /repo. DESIGN.md describes the rules; known_findings.json lists the repaired and the known defects."
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1); open(os.path.join(top, "MANIFEST.json"), "a").write("\n")
json.dump({p["id"]: p["how"] for p in PROPS if p["how"]}, open(os.path.join(here, "explain.json"), "w"), indent=1)
head = open(os.path.join(here, "design_head.md")).read()
tail = open(os.path.join(here, "design_tail.md")).read()
out = head + "\n## Properties and how each is decided\n\n"
for p in PROPS:
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if p["na"]:
        out += "*Not applicable*: %s\n\n" % p["na"]
    else:
        out += "*How*: %s\n\n*Assurance and limits*: %s\n\n*What the tests leave open*: %s\n\n" % (p["how"], p["note"], p["why"])
import glob
rows = []
for fn in sorted(glob.glob(os.path.join(top, "seeded", "*", "meta.json"))):
    d = json.load(open(fn))
    rows.append((d["property"], os.path.basename(os.path.dirname(fn)), d["what_it_breaks"]))
tail += "| caught by | change | what it breaks |\n|---|---|---|\n" + "".join("| %s | `%s` | %s |\n" % r for r in sorted(rows))
open(os.path.join(top, "DESIGN.md"), "w").write(out + tail)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
