#!/usr/bin/env python3
"""check.py PROPERTY | --replay FILE     (VERIF_SEED, VERIF_TIER=quick|thorough)

Decides one property of the code in /repo's working tree:
 1. hmmv (deductive verifier): contracts of the functions the property depends on are
    proved from the current source, function by function;
 2. rt (run-time contracts): the same postconditions evaluated on the real, freshly built
    code; finds / replays concrete counterexamples and is the labelled bounded stand-in for
    obligations the verifier cannot discharge.
Exit 0 property held, 1 violation (line VIOLATION property=...), 3 checker error."""
import json, os, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HMMV_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "python3-vt"
sys.path.insert(0, os.path.join(HERE, "rt")); sys.dont_write_bytecode = True
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")


def rt_start(build, tmp, tag, req, asan=False):
    f = os.path.join(tmp, f"req{tag}.json"); json.dump(req, open(f, "w"))
    env = dict(ENV)
    if asan:
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        std = subprocess.check_output(["gcc", "-print-file-name=libstdc++.so"], text=True).strip()
        env.update(LD_PRELOAD=lib + ":" + os.path.realpath(std), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1")
    out = open(os.path.join(tmp, f"out{tag}.json"), "w"); err = open(os.path.join(tmp, f"err{tag}.txt"), "w")
    return dict(p=subprocess.Popen([PY, os.path.join(HERE, "rt", "main.py"), build, f], stdout=out, stderr=err, env=env, cwd=tmp), out=out.name, err=err.name, req=req, asan=asan, budget=req["budget"])


def rt_wait(j):
    try: j["p"].wait(timeout=6 * j["budget"] + 120)
    except subprocess.TimeoutExpired:
        j["p"].kill(); j["p"].wait()
        return {"cases": 0, "evaluations": 0, "violation": None, "error": "run-time contract run timed out"}
    err = open(j["err"]).read()
    try: return json.load(open(j["out"]))
    except Exception:
        rc = j["p"].returncode
        if rc < 0 and rc != -9 or "AddressSanitizer" in err or "runtime error" in err or "Assertion" in err and "failed" in err:
            # -9 is the sandbox's memory guard, not the code under test
            return {"cases": 0, "evaluations": 0, "violation": {"case": -2, "fn": "crash", "message": f"the real code crashed or accessed memory out of bounds (exit {rc})", "trace": err[-4000:]}}
        return {"cases": 0, "evaluations": 0, "violation": None, "error": f"run-time contract runner failed, exit {rc}: {err[-2500:]}"}


def find_crash_case(build, tmp, req, asan):
    """Locates the case whose execution crashed the interpreter."""
    k = 0
    r = dict(req, budget=5)
    lo = None
    prog = req.get("cases")
    for k in range(0, 4000, 50):
        j = rt_start(build, tmp, "c", dict(r, cases=list(range(k, k + 50))), asan); o = rt_wait(j)
        if o["violation"]:
            for c in range(k, k + 50):
                j = rt_start(build, tmp, "c", dict(r, cases=[c]), asan); o = rt_wait(j)
                if o["violation"]: return c, o
    return None, None


def main():
    t0 = time.time()
    replay = None
    if sys.argv[1] == "--replay":
        replay = json.load(open(sys.argv[2])); pid = replay["property"]
    else: pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
    if pid not in props: print("unknown property", pid); return 3
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev_path) and not replay: os.remove(ev_path)
    tmp = tempfile.mkdtemp(prefix="hmmv-" + pid + "-")
    try: return run(pid, tier, seed, thorough, tmp, t0, replay, props[pid], ev_path)
    except Exception:
        traceback.print_exc(); print("checker error (undecided)"); return 3
    finally: shutil.rmtree(tmp, ignore_errors=True)


def per_contract(proved):
    """{contract instance: obligations discharged}; the single obligations are listed by `python3-vt -m hmmv PROPERTY`"""
    c = {}
    for o in proved:
        k = o["name"].split(":")[0].strip(); c[k] = c.get(k, 0) + 1
    if len(c) > 400:
        d = {}
        for k, v in c.items(): k = k.split("[")[0]; d[k] = d.get(k, 0) + v
        c = d
    return c


def run(pid, tier, seed, thorough, tmp, t0, replay, prop, ev_path):
    import build as B
    eng = None
    if replay is None or "obligation" in replay:
        eng_out = os.path.join(tmp, "engine.json"); eng_err = open(os.path.join(tmp, "engine.err"), "w")
        eng = subprocess.Popen([VT, "-m", "hmmv", pid, "--out", eng_out, "--tier", tier], cwd=HERE, env=dict(ENV, HMMV_REPO=REPO), stdout=eng_err, stderr=eng_err)
    violation = None; rt_stats = []
    try:
        bld = B.build(os.path.join(tmp, "build"))
        abld = B.build(os.path.join(tmp, "abuild"), asan=True) if pid == "C23" else None
    except Exception as e:
        if eng: eng.kill()
        print("the current tree does not build:", str(e)[-2000:]); return 3
    sys.path.insert(0, HERE)
    from hmmv.literals import mined
    hints = mined(REPO, os.path.join(HERE, "contracts", "baseline_literals.json"))

    def campaign(tag, budget, nsh, off, extra_hints=()):
        jobs = []
        for s in range(nsh):
            asan = pid == "C23" and s % 2 == 1
            jobs.append(rt_start(abld if asan else bld, tmp, f"{tag}{s}", {"property": pid, "seed": seed * 1000 + off + s, "budget": budget, "min_cases": 5, "hints": sorted(set(hints) | set(extra_hints))}, asan))
        v = None
        for j in jobs:
            o = rt_wait(j); rt_stats.append(o)
            if o.get("error"): print(o["error"])
            if o["violation"] and v is None:
                if o["violation"]["case"] == -2:
                    c, o2 = find_crash_case(abld if j["asan"] else bld, tmp, j["req"], j["asan"])
                    if c is not None: o["violation"].update(case=c, message=o2["violation"]["message"], trace=o2["violation"].get("trace"))
                v = dict(o["violation"], property=pid, seed=j["req"]["seed"], hints=j["req"]["hints"], asan=j["asan"])
        return v

    if replay is not None and "case" in replay:
        req = {"property": pid, "seed": replay["seed"], "budget": 60, "min_cases": 1, "hints": replay["hints"], "cases": [replay["case"]] if replay["case"] >= 0 else [0]}
        o = rt_wait(rt_start(abld if replay.get("asan") else bld, tmp, "r", req, replay.get("asan")))
        print(json.dumps(o, indent=1)); return 1 if o["violation"] else 0
    quick_b = float(os.environ.get("HMMV_BUDGET", 14))
    violation = campaign("q", 240 if thorough else quick_b, 8 if thorough else 4, 0)
    # engine result
    obl = []; E = {"error": "engine not run"}
    try: eng.wait(timeout=1500 if thorough else 470)
    except subprocess.TimeoutExpired: eng.kill(); eng.wait()
    eng_err.close()
    try: E = json.load(open(eng_out))
    except Exception: E = {"obligations": [], "error": "verifier gave no result: " + open(os.path.join(tmp, "engine.err")).read()[-3000:]}
    obl = E.get("obligations", [])
    bad = [o for o in obl if o["status"] != "proved"]
    refuted = [o for o in bad if o["status"] == "refuted"]
    if replay is not None:
        print(json.dumps([o for o in obl if o["name"] == replay["obligation"]], indent=1)); return 1 if refuted else 0
    if violation is None and any(o["status"] in ("refuted", "undecided") for o in bad):
        hh = [h for o in bad for h in o.get("hints", ())]
        violation = campaign("x", 90 if not thorough else 300, 8, 500, hh)
    nofail = False
    if violation is None and refuted:
        nofail = True
        o = refuted[0]
        violation = dict(property=pid, obligation=o["name"], verifier_output=o, note="the verifier refutes this obligation; the run-time search found no failing input for the real code")
    known = [l.strip() for l in open(os.path.join(HERE, "known-findings.txt")) if l.startswith("KNOWN-FINDING: property=%s " % pid)] if os.path.exists(os.path.join(HERE, "known-findings.txt")) else []
    for l in known: print(l)
    n_cases = sum(o["cases"] for o in rt_stats); n_eval = sum(o["evaluations"] for o in rt_stats)
    if E.get("error"): print("verifier:", E["error"][:3000])
    proved = [o for o in obl if o["status"] == "proved"]
    level = "proof" if proved and not bad and not E.get("error") else "other"
    cov = dict(obligations=len(obl), discharged=len(proved), checker_cmd=f"python3-vt -m hmmv {pid}", trusted_base=E.get("trusted", []),
               functions_under_contract=E.get("functions", []), by_backend=E.get("backends", {}), solver_seconds=E.get("seconds"),
               undischarged=[dict(name=o["name"], status=o["status"], reason=o.get("detail", "")[:400]) for o in bad],
               obligations_per_contract=per_contract(proved), slowest=[dict(name=o["name"], backend=o.get("backend"), seconds=o.get("seconds")) for o in sorted(proved, key=lambda o: -(o.get("seconds") or 0))[:15]],
               evaluations=n_eval, distinct_nontrivial=n_cases, rule="run-time contracts of this property evaluated on the freshly built real code; one case = one generated model/data set (all families and configurations stratified), every case distinct by (seed, index)",
               samples=[dict(property=pid, seed=seed * 1000, case=i) for i in range(min(3, n_cases))], bounded_standin=E.get("bounded", []),
               explanation="Deductive verification of the listed functions; obligations listed under 'undischarged' are decided only by the bounded run-time contracts and are not counted as proved." if level != "proof" else "every obligation discharged")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=E.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"{pid}: {len(proved)}/{len(obl)} obligations discharged, {len(refuted)} refuted; {n_cases} run-time cases, {n_eval} contract evaluations; {ev['wall_s']} s")
    for o in bad: print("  not discharged:", o["name"], "-", o["status"], o.get("detail", "")[:200])
    if violation:
        violation["failed_obligations"] = [dict(name=o["name"], status=o["status"], detail=o.get("detail", "")[:1500]) for o in bad if o["status"] != "bounded"]
        rp = os.path.join(HERE, "replays", pid + ".json"); json.dump(violation, open(rp, "w"), indent=1)
        print(violation.get("message", violation.get("note", ""))[:3000]); print((violation.get("trace") or "")[-1500:])
        print(f"VIOLATION property={pid} replay={rp}" + (" no-failing-input-found" if nofail else "")); return 1
    if E.get("error") and not obl: return 3
    if n_cases == 0: print("no run-time cases were executed"); return 3
    return 0


sys.exit(main())
