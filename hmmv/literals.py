"""Numeric literals occurring in the current sources but not in the baseline: used as dimension / magnitude hints
by the counterexample search (a threshold in the code suggests where behaviour changes)."""
import ast, glob, json, os, re


def collect(repo):
    """{literal value: count} over the Python and C++ sources (absolute values)"""
    out = {}
    for f in sorted(glob.glob(os.path.join(repo, "src", "hmmlearn", "*.py"))):
        if f.endswith("_version.py"): continue
        try: t = ast.parse(open(f).read())
        except SyntaxError: continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value == n.value: out[float(n.value)] = out.get(float(n.value), 0) + 1
    for f in sorted(glob.glob(os.path.join(repo, "ext", "*.cpp"))):
        src = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(f).read(), flags=re.S)
        for m in re.finditer(r"(?<![\w.])((?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)[fFlLuU]*(?![\w.])", src):
            v = float(m.group(1)); out[v] = out.get(v, 0) + 1
    return out


def mined(repo, base):
    b = {float(k) for k in json.load(open(base))} if os.path.exists(base) else set()
    return sorted(k for k in collect(repo) if k not in b)


if __name__ == "__main__":
    import sys
    json.dump({repr(k): v for k, v in sorted(collect(sys.argv[1]).items())}, open(sys.argv[2], "w"), indent=0)
