"""Task registry: each task verifies one function (or one configuration of it) against its contract."""
import multiprocessing as mp, os, queue, resource, signal, time, traceback

HEAVY = ["mixture parameter validation [full]", "base.sample", "initialisation GMMHMM", "mixture E-step", "mixture M-step", "mixture parameter validation", "gaussian E-step", "gaussian M-step", "kernels"]  # started first
TASKS = []          # (name, set of property ids, function() -> obligations)


class Task:
    def __init__(self, name, props, fn, timeout=150): self.name = name; self.props = set(props); self.fn = fn; self.timeout = timeout


def task(name, props, timeout=150):
    def d(f): TASKS.append(Task(name, props.split() if isinstance(props, str) else props, f, timeout)); return f
    return d


class TimeLimit(BaseException): pass


def _work(t, q):
    t0 = time.time()
    from . import kernels
    def ob(status, detail): return dict(name=t.name + ": within reach of the verifier", status=status, detail=detail, backend="none", seconds=0, function=t.name)
    def partial():  # what was decided before the task ended early
        r = []
        for v in kernels.Verifier.made:
            for o in v.out: o.setdefault("function", v.fn.split("[")[0].split(" ")[0]); r.append(o)
        return r
    try: r = t.fn()
    except TimeLimit: r = partial() + [ob("undecided", "time limit")]
    except RecursionError: r = [ob("undecided", "recursion limit")]
    except Exception as e: r = partial() + [ob("undecided", f"{type(e).__name__}: {e}"[:400] + " | " + traceback.format_exc()[-500:])]
    for g in (signal.SIGPROF, signal.SIGALRM): signal.signal(g, signal.SIG_IGN)
    from . import npm
    q.put((t.name, r, time.time() - t0, sorted(npm.USED)))


def run(tasks, jobs=6, scale=1.0, deadline=1e9):
    """forks one process per task; a task over its time (of the processor) or memory is undecided, never an error"""
    ctx = mp.get_context("fork"); run_ = {}; out = {}; used = set(); secs = {}; end = time.time() + deadline
    todo = sorted(tasks, key=lambda t: next((i for i, h in enumerate(HEAVY) if t.name.startswith(h)), 99))

    def lim(t):
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]; resource.setrlimit(resource.RLIMIT_AS, (6 << 30 if hard == resource.RLIM_INFINITY else min(6 << 30, hard), hard))
        def stop(*_): raise TimeLimit()
        for g in (signal.SIGPROF, signal.SIGALRM): signal.signal(g, stop)
        signal.setitimer(signal.ITIMER_PROF, t.timeout * scale)
        signal.setitimer(signal.ITIMER_REAL, max(.1, min(2.5 * t.timeout * scale, end - time.time())))
    while todo or run_:
        while todo and len(run_) < jobs:
            t = todo.pop(0); q = ctx.Queue()
            def go(t=t, q=q): lim(t); _work(t, q)
            p = ctx.Process(target=go); p.start(); run_[t.name] = (t, p, q, time.time())
        for nm, (t, p, q, t0) in list(run_.items()):
            try:
                name, r, s, u = q.get(timeout=.02); out[nm] = r; used |= set(u); secs[nm] = s; p.join(5); p.kill(); del run_[nm]; continue
            except queue.Empty: pass
            if time.time() > min(t0 + 2.5 * t.timeout * scale, max(end, t0)) + 20 or not p.is_alive():
                if not p.is_alive():
                    try: name, r, s, u = q.get(timeout=.5); out[nm] = r; used |= set(u); secs[nm] = s; del run_[nm]; continue
                    except queue.Empty: pass
                why = "time limit" if p.is_alive() else f"the verifier process ended with exit code {p.exitcode}"
                p.kill(); out[nm] = [dict(name=nm + ": within reach of the verifier", status="undecided", detail=why, backend="none", seconds=round(time.time() - t0, 1), function=nm)]; secs[nm] = time.time() - t0; del run_[nm]
    return [dict(o, task=t.name) for t in tasks for o in out[t.name]], used, secs
