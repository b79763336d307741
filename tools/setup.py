"""Nothing is installed: checks the tools the checks rely on are there."""
import subprocess, sys
for c in (["python3-vt", "-c", "import z3, sympy, numpy"], ["/opt/venv/bin/python", "-c", "import numpy, scipy, sklearn, pybind11"], ["clang++", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print("ok")
