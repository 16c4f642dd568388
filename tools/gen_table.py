"""table of planted bugs at the end of DESIGN.md, from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {   # what had to be added before the check reported it
 "c02-weakloop-sync": "joint actions overtaking alternatives (`overtaken` terms)", "c04-memo-total": "alternatives that meet again (`confluent` problems)",
 "c07-sim-one": "joint actions in `gaps` problems", "c08-memo-sim": "`confluent` simulations under five searches", "c09-locana-loop": "`gaps` simulations with local analyses",
 "c12-coreg-subset": "nested co-regions with operands to rewrite", "c19-second-gates": "sections of every kind repeated", "c16-partial-letter": "letters that are parts of joint ones",
 "c20-loop-depth": "graphs of cut explorations kept unmerged", "c07-simulate-inside": "gaps inside components", "c22-empty-alternative": "empty operands, chains", "c14-sync-gate": "names declared both as gate and lifeline",
 "c19-coreg-dup": "doubled names in lists", "c01-partial-sync": "joint products", "c10-filter-fail": "related alternatives"}
rows = []
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {FIRST_MISSED.get(b, '')} |")
t = "| planted change | caught by | needs | added because it was missed at first |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
d = open(V + "/DESIGN.md").read()
i = d.index("<!-- table -->") if "<!-- table -->" in d else d.index("@@TABLE@@")
open(V + "/DESIGN.md", "w").write(d[:i] + "<!-- table -->\n" + t)
print(len(rows), "planted changes")
