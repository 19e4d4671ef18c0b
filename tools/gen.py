#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from the table."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools")); sys.path.insert(0, os.path.join(H, "vx"))
import table, props
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in table.P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["na"] or p["id"] in props.PROPS, p["id"]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
hooks = [c.split()[0] for c in commits if "guarded verification hook" in c]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="cfg oxyroot_verif", enable="RUSTFLAGS='--cfg oxyroot_verif --cfg vp=\"<id>\"' OXYROOT_VERIF_DIR=/verif/native/hook cargo build (done by check.py)", source_commits=hooks),
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique="contract-based deductive verification: Verus contracts on functions extracted from the current source (Z3)", level="proof", level_note=p["note"]) for p in table.P if not p["na"]],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in table.P if p["na"]],
    notes="See DESIGN.md. Replays are written to /verif/replays (not committed); check.py <id> --replay '<case>' <k> reruns one.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

import glob
d = open(os.path.join(H, "tools", "DESIGN.in.md")).read()
rf = os.path.join(H, "tools", "seeded.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for mf in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(mf)); x = json.load(open(mf))
    rows.append(f"| {k} | {x['property']} | {x['needs']} | {x['what_it_breaks']} | " + "; ".join(f"{a}: {b}" for a, b in res.get(k, {}).items()) + " |")
def cell(s): return s.replace("|", "\\|")
d = d.replace("@SEEDED@", "\n".join(rows))
d = d.replace("@TABLE@", "\n".join(f"| {p['id']} | **{p['title']}.** Contracts on: {'; '.join(a + ' (' + b.replace(table.R, '') + ')' for a, b in p['mech'])}. Cost: about 40 s quick (Verus 34 s, harness build 20 s in parallel). The tests cannot settle it: {p['why']}. | {cell(p['note'])} |" for p in table.P if not p["na"]))
d = d.replace("@NA@", "\n".join(f"* {p['id']} {p['title']}: {p['na']}" for p in table.P if p["na"]) or "None so far.")
open(os.path.join(H, "DESIGN.md"), "w").write(d)
