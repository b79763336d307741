"""python3-vt -m hmmv PROPERTY|all --out FILE --tier T : verifies the functions PROPERTY depends on against their contracts"""
import json, os, sys, time
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 << 20)
    rc = []
    th = threading.Thread(target=lambda: rc.append(main2())); th.start(); th.join()
    sys.exit(rc[0] if rc else 3)


def main2():
    pid = sys.argv[1]; t0 = time.time()
    out = sys.argv[sys.argv.index("--out") + 1] if "--out" in sys.argv else None
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else "quick"
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    err = None; ob = []; used = set(); secs = {}
    from . import tasks, registry
    ts = [t for t in tasks.TASKS if (pid == "all" or pid in t.props) and (only is None or only in t.name)]
    if ts: ob, used, secs = tasks.run(ts, scale=3 if tier == "thorough" else 1, deadline=1400 if tier == "thorough" else 420)
    assumed = [o["name"] for o in ob if o["status"] == "assumed"]; ob = [o for o in ob if o["status"] != "assumed"]
    bounded = registry.BOUNDED.get(pid, [])
    seen = {}
    for o in ob:                      # unique names
        k = o["name"]; seen[k] = seen.get(k, 0) + 1
        if seen[k] > 1: o["name"] = f"{k} #{seen[k]}"
    be = {}
    for o in ob:
        if o["status"] == "proved": be[o["backend"]] = be.get(o["backend"], 0) + 1
    r = dict(props={t.name: sorted(t.props) for t in ts}, obligations=ob, functions=sorted({o["function"] for o in ob if o["status"] != "bounded"}), backends=be, seconds=round(sum(o["seconds"] for o in ob), 2),
             trusted=registry.TRUSTED + sorted("library contract: " + u for u in used), assumptions=registry.ASSUMPTIONS + assumed, bounded=list(registry.ROUNDING) + list(bounded), error=err)
    if out: json.dump(r, open(out, "w"), indent=1)
    else:
        for o in ob: print(f"{o['status']:10s} {o['seconds']:7.2f} {o['name']}" + ("" if o["status"] == "proved" else "\n        " + str(o.get("detail"))[:1200]))
        print(len([o for o in ob if o["status"] == "proved"]), "of", len(ob), "proved;", round(time.time() - t0, 1), "s;", {k: round(v, 1) for k, v in secs.items() if v > 10})
    return 0


main()
