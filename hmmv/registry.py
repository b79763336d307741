"""Which tasks serve which property, the trusted base, and what stays bounded."""
import os
from .tasks import TASKS, Task, task
REPO = os.environ.get("HMMV_REPO", "/repo")


@task("kernels", "C01 C02 C03 C04 C05 C06 C09 C13 C20 C21 C23")
def _k():
    from . import kernels
    return kernels.run(os.path.join(REPO, "ext", "_hmmc.cpp"))


TRUSTED = ["hmmv (symbolic execution, normalisation and loop rules of /verif/hmmv)", "z3 4.8.12 (integer and linear side conditions)", "clang 18 AST of ext/_hmmc.cpp", "CPython ast module"]
ASSUMPTIONS = ["double precision arithmetic is treated as real arithmetic with -inf/exact zero (rounding is outside the contracts)",
               "C++ int and size_t indices do not overflow (dimensions below 2^31)",
               "NumPy, SciPy and scikit-learn functions meet the contracts stated in hmmv/npm.py",
               "arrays handed to the kernels are the ones pybind11 converted (copied) from the caller's arrays"]
# parts of a property that only the run-time contracts look at (bounded: the cases generated on the run)
ROUNDING = ["the effect of floating-point rounding on the proved equalities (relative tolerance 1e-7 on the generated cases)"]
BOUNDED = {
    "C05": ["forward_scaling refuses only where the running likelihood is below 1e-300, and agrees with the log form elsewhere"],
    "C09": ["the likelihood history of complete fits does not decrease (the proof composes the E-step and M-step contracts with the Lean lemmas; the composition itself is argued in DESIGN.md)"],
    "C14": ["frequencies of drawn states and observations (the library's generators are assumed to follow their distributions)"],
    "C21": ["each factor update maximises the lower bound: proved for the hidden chain (Lean, mean_field), observed at run time for the Dirichlet and normal-Wishart factors"],
    "C23": ["the compiled kernels under AddressSanitizer and UndefinedBehaviorSanitizer, with inconsistent and non-contiguous arguments"],
    "C25": ["bitwise equality of repeated fits, including scikit-learn's KMeans and threads"],
    "C26": ["accuracy of the eigenvectors of nearly reducible chains"],
    "C27": ["acceptance and rejection of array-likes converted by check_array (lists, object arrays, NaN)"],
}
from .glue import lemmas, small, hmmbase, emissions, validity, kl, fit, valid, sampling, vb, data, init, lean          # noqa
