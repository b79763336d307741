"""mkdesign.py ENGINE.json [TB.log ...]: fills the generated tables of DESIGN.md (functions under contract and obligations per property; planted bugs)"""
import collections, glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from hmmv import registry, tasks                                                                   # noqa
E = json.load(open(sys.argv[1])); P = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
by = collections.Counter(); fs = collections.defaultdict(set)
for o in E["obligations"]:
    for p in E["props"][o["task"]]: by[p] += 1; fs[p].add(o["function"])
out = ["", "| id | functions under contract | obligations |", "|----|----|----|"]
for p in P: out.append(f"| {p} | {', '.join(sorted(x for x in fs[p] if not x.startswith('lemma') or '.' in x))} | {by[p]} |")
out += [f"| all | {len(E['functions'])} contracts | {len(E['obligations'])} ({', '.join(f'{v} by {k}' for k, v in E['backends'].items())}) |", ""]
d = os.path.join(H, "DESIGN.md"); s = open(d).read()
a, b = "<!-- generated by tools/mkdesign.py -->", "<!-- end -->"
s = s[:s.index(a) + len(a)] + "\n".join(out) + s[s.index(b):]
f = os.path.join(H, "tools", "bug_results.json"); R = json.load(open(f)) if os.path.exists(f) else {}
for g in sys.argv[2:]:
    for l in open(g):
        m = re.match(r"(CAUGHT|missed)\s+(\S+) (C\d\d) rc=\d+ (\d+)s(.*)", l)
        if m: R[m[2]] = dict(property=m[3], caught=m[1] == "CAUGHT", seconds=int(m[4]), how="obligation refuted" if "no-failing-input" in m[5] else "failing input" if m[1] == "CAUGHT" else "")
json.dump(R, open(f, "w"), indent=1, sort_keys=True)
k = "## 8. Planted bugs"; t = ["", "", "`seeded/<id>`; `how`: what the check of that property reports (a failing input on the real code, or a refuted obligation).", "",
     "| planted bug | property | manifests with | result |", "|----|----|----|----|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    i = m.split("/")[-2]; q = json.load(open(m)); r = R.get(i)
    t.append(f"| {i} | {q['property']} | {q['needs']} | " + ("not run" if r is None else f"caught: {r['how']}" if r["caught"] else "missed") + " |")
s = s[:s.index(k) + len(k)] + "\n".join(t) + "\n"
open(d, "w").write(s)
