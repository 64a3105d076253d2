"""Writes /verif/DESIGN.md from tools/design_text.md, the properties, the claims,
the rules stated in the checker and the planted bugs."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import claims
V = os.path.dirname(here)
rules = {}
for f in sorted(glob.glob(V + "/checker/*.go")):
    for m in re.finditer(r'register\(&Property\{(.*?)\}\)', open(f).read(), re.S):
        i = re.search(r'ID:\s*"(C\d+)"', m.group(1)); r = re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', m.group(1))
        if i: rules[i.group(1)] = (os.path.basename(f), r.group(1) if r else "")
out = []
more = json.load(open(here + "/design_more.json"))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; f, r = rules[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Rule* (`checker/{f}`): {r[0].upper() + r[1:].rstrip('.')}.\n")
    out.append(f"*Method*: {claims.CLAIMS[i][0].strip().rstrip('.')}.\n")
    n = claims.CLAIMS[i][1].replace(claims.SOUND, "").strip()
    if n: out.append(f"*Bounds and trust*: {n}\n")
    if i in more: out.append(more[i] + "\n")
rows = []
import seed_list
for s in seed_list.SEEDS:
    rows.append(f"| {s['id']} | {s['breaks']} | {s['needs']} | {s['prop']}{s.get('also','')} |")
t = open(here + "/design_text.md").read()
t = t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
