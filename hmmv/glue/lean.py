"""Lemmas about the specification functions themselves, machine-checked by Lean 4 (with Mathlib).

The contracts say that the code computes FWD, BWD, VIT, posterior statistics and particular maximisers.  That these are
the path sums, path maxima and likelihood-increasing steps the properties speak of is mathematics, proved in
/verif/lean/*.lean for every number of states and every length.  Every theorem is one obligation, discharged when Lean
accepts the file and the theorem depends on no axiom besides propext, Classical.choice and Quot.sound."""
import os, re, resource, subprocess, tempfile, time
from .base import *

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "lean")
STANDARD = {"propext", "Classical.choice", "Quot.sound"}


def unlimited():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]; resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def assumed(why): return [dict(name=why, status="assumed", detail=why, backend="none", seconds=0, function="lean")]


def check(file, names):
    src = open(os.path.join(DIR, file)).read(); t0 = time.time(); out = []
    ns = re.search(r"^namespace (\w+)", src, re.M).group(1)
    missing = [n for n in names if not re.search(r"^theorem %s\b" % re.escape(n), src, re.M)]
    try:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, file); open(p, "w").write(src + "\n" + "".join(f"#print axioms {ns}.{n}\n" for n in names))
            r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=140, cwd=d, preexec_fn=unlimited)
    except (OSError, subprocess.TimeoutExpired) as e:
        return assumed(f"lean/{file}: Lean could not be run here ({type(e).__name__}); its lemmas are assumed on this run")
    txt = r.stdout + r.stderr; dt = time.time() - t0
    if "failed to read file" in txt or r.returncode < 0 or "unknown module" in txt or "unknown package" in txt:
        return assumed(f"lean/{file}: Mathlib is not available here; its lemmas are assumed on this run")
    for n in names:
        m = re.search(r"'%s\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % (ns, re.escape(n)), txt)
        ok = not missing and m is not None and set(x.strip() for x in (m.group(2) or "").split(",") if x.strip()) <= STANDARD and not re.search(r": error", txt)
        out.append(dict(name=f"lean.{ns}.{n}", status="proved" if ok else "undecided", detail="" if ok else txt[:600], backend="Lean 4", seconds=round(dt / len(names), 3), function=f"lean/{file}"))
    return out


@task("lemmas in Lean: paths", "C01 C02 C03 C06 C20")
def t_paths(): return check("Paths.lean", ["fwd_eq_sum_paths", "likelihood", "gamma", "xi", "weight_le_vit", "backtrack", "vit_is_max"])


@task("lemmas in Lean: likelihood increase", "C06 C07 C08 C09 C21 C22")
def t_em(): return check("EM.lean", ["rows", "em_step", "poisson", "mean", "variance", "logdet_le_trace", "covariance", "mean_metric", "kl_normal_nonneg", "kl_mvn_nonneg"])


@task("lemmas in Lean: chain and mean field", "C21 C26")
def t_chain(): return check("Chain.lean", ["eigenvalue_le_one", "one_is_eigenvalue", "mean_field", "mean_field_attained"])
