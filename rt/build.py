"""Builds the code under test from /repo's current working tree into a scratch
directory (never touching /repo): python sources copied, the native extension
compiled from ext/."""
import glob, os, shutil, subprocess, sys, sysconfig

REPO = os.environ.get("HMMV_REPO", "/repo")
PY = "/opt/venv/bin/python"


def build(dst, asan=False):
    pkg = os.path.join(dst, "hmmlearn")
    shutil.copytree(os.path.join(REPO, "src", "hmmlearn"), pkg,
                    ignore=lambda d, names: [n for n in names if n in ("tests", "__pycache__") or n.endswith(".so")])
    if not os.path.exists(os.path.join(pkg, "_version.py")):
        with open(os.path.join(pkg, "_version.py"), "w") as f:
            f.write('__version__ = version = "0"\n__version_tuple__ = version_tuple = (0,)\n')
    inc = subprocess.check_output([PY, "-m", "pybind11", "--includes"], text=True).split()
    suffix = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
    srcs = sorted(glob.glob(os.path.join(REPO, "ext", "*.cpp")))
    flags = ["-O1", "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden", "-w", "-I" + os.path.join(REPO, "ext")]
    if asan:
        flags = ["-O1", "-g", "-std=c++17", "-shared", "-fPIC", "-w", "-fsanitize=address,undefined",
                 "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "ext")]
    r = subprocess.run(["g++"] + flags + inc + srcs + ["-o", os.path.join(pkg, "_hmmc" + suffix)],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("native extension does not compile:\n" + r.stderr[-3000:])
    return dst


if __name__ == "__main__":
    build(sys.argv[1], asan="asan" in sys.argv[2:])
