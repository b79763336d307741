"""Runner: python main.py BUILD_DIR REQUEST.json -> JSON on stdout.
REQUEST: {"property":..., "seed":..., "budget": seconds, "min_cases":, "hints": [...], "cases": [i...] (replay)}"""
import json, os, sys, time, traceback, types
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ.setdefault(v, "1")
build, req = sys.argv[1], json.load(open(sys.argv[2]))
sys.path.insert(0, build); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import logging; logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter("ignore")


def load():
    import importlib, hmmlearn
    assert os.path.abspath(hmmlearn.__file__).startswith(os.path.abspath(build)), hmmlearn.__file__
    g = lambda n: importlib.import_module("hmmlearn." + n)
    return types.SimpleNamespace(hmm=g("hmm"), vhmm=g("vhmm"), base=g("base"), stats=g("stats"), utils=g("utils"), hmmc=g("_hmmc"), kl=g("_kl_divergence"))


def main():
    out = {"cases": 0, "evaluations": 0, "violation": None, "samples": []}
    try: M = load()
    except Exception:
        out["violation"] = {"case": -1, "fn": "import", "message": "hmmlearn cannot be imported from the current tree", "trace": traceback.format_exc()}
        print(json.dumps(out)); return
    import props
    from core import Violation
    pid = req["property"]; seed = req["seed"]; t0 = time.time()
    fns = props.CHECKS[pid]
    # reads of Case attributes count as evaluations through core.need
    import core
    cnt = [0]; _need = core.need

    def counted(cond, msg, **info):
        cnt[0] += 1; return _need(cond, msg, **info)
    core.need = counted; props.need = counted
    cases = req.get("cases"); i = 0
    while True:
        if cases is not None:
            if i >= len(cases): break
            k = cases[i]
        else:
            k = i
            el = time.time() - t0
            if el > req["budget"] and i >= req.get("min_cases", 1) or el > 4 * req["budget"]: break
        stop = False
        for f in fns:
            c = props.Case(pid, seed, k, M, req.get("hints", ()))
            try: f(c)
            except Violation as e:
                out["violation"] = {"case": k, "fn": f.__name__, "message": str(e)[:6000]}; stop = True
            except Exception as e:
                out["violation"] = {"case": k, "fn": f.__name__, "message": "operation failed on valid input: " + repr(e)[:800], "trace": traceback.format_exc()[-3500:]}; stop = True
            if stop: break
        i += 1
        if stop: break
    out["cases"] = i; out["evaluations"] = cnt[0]; out["wall_s"] = round(time.time() - t0, 2)
    print(json.dumps(out))


main()
