"""DESIGN.in.md + recorded results -> DESIGN.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(p):
    return json.load(open(f"{V}/{p}")) if os.path.exists(f"{V}/{p}") else {}


fs = load("known_findings.json")["findings"]
fixes = "\n".join(f"* {f['property']} `{f['commit']}` ({f['status']}): {f['what']}" for f in fs)
res = load("tools/plant/results.json")
notes = load("tools/plant/notes.json")
rows = ["| planted bug | property | needs | reported by (class) |", "|---|---|---|---|"]
for b in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    r = res.get(b, {})
    got = "; ".join(f"{c} ({k})" if rc == 1 else f"missed by {c}" for c, (rc, k) in sorted(r.items())) or "not run"
    if b in notes.get("first_missed", {}):
        got += " – missed at first: " + notes["first_missed"][b]
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {got} |".replace("\n", " "))
rev = load("tools/reverts.json")
rrows = [f"{sum(1 for v in rev.values() if v[0] == 'caught')} of {len(rev)} reverted fixes reported"
         + "".join(f"; `{h}` {v[0]} ({v[1]})" for h, v in sorted(rev.items()) if v[0] != "caught") + "."]
t = open(f"{V}/DESIGN.in.md").read()
for k, v in (("FIXES", fixes), ("CATCH", "\n".join(rows)), ("CAMPAIGN", "\n".join(notes.get("campaign", []))),
             ("REVERTS", "\n".join(rrows))):
    t = t.replace(f"@@{k}@@", v)
t = t.replace("All 26 findings", f"All {len(fs)} findings")
open(f"{V}/DESIGN.md", "w").write(t)
