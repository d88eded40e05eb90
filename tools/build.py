"""Builds the conformance driver from /repo's working tree (all of the library's
sources, unmodified, plus the VAL stand-in).  Objects are cached by content
hash under /verif/.build, so nothing stale can be reused."""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")

BASE = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS",
        "-DDOCTEST_CONFIG_DISABLE", "-w", "-fsanitize=address",
        "-fno-omit-frame-pointer"]
VARIANTS = {
    "default": [],
    # The planner's ordered ancestor cache: a compile-time alternative that
    # src/planning offers.
    "alt": [],
    # The Python module, over a stand-in for pybind11.
    "python": ["-fPIC", "-I/usr/include/python3.12", "-I" + os.path.join(HARNESS, "pybind")],
}
ALT = ["-DSYMBOLIC_PLANNER_USE_ORDERED_CACHE"]
PYTHON = "/usr/bin/python3.12"


class BuildError(Exception):
    pass


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs[:] = [d for d in dirs if d not in ("python",)]
        out += [os.path.join(root, f) for f in files if f.endswith((".cc", ".cpp", ".cxx"))]
    return sorted(out)


def headers():
    out = []
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS):
        for root, _, files in os.walk(base):
            out += [os.path.join(root, f) for f in files
                    if f.endswith((".h", ".hpp", ".hh", ".inc", ".ipp"))]
    return out


def build(variant="default", main="driver"):
    """Returns the path of the driver binary (or that of an application of the
    library, or of a script that runs the driver over the Python module)."""
    os.makedirs(BUILD, exist_ok=True)
    if variant == "python":
        main = "python"
    flags = BASE + VARIANTS[variant] + [
        "-I" + HARNESS, "-I" + os.path.join(HARNESS, "val"),
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
        "-I/usr/include/eigen3"]
    hd = _digest(headers(), " ".join(flags))
    srcs = sources() + sorted(glob.glob(os.path.join(HARNESS, "val", "*.cc")))
    if main == "driver":
        srcs += sorted(glob.glob(os.path.join(HARNESS, "*.cc")))
    elif main == "python":
        srcs += sorted(glob.glob(os.path.join(REPO, "src", "python", "*.cc")))
    else:
        srcs.append(os.path.join(REPO, "apps", main + ".cc"))

    def compile_one(src):
        more = ALT if variant == "alt" and os.path.dirname(src).endswith("planning") else []
        obj = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(src)[:-3], _digest([src], hd + " ".join(more))))
        if not os.path.exists(obj):
            tmp = "%s.%d.tmp" % (obj, os.getpid())
            r = subprocess.run(["g++"] + flags + more + ["-c", src, "-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("cannot compile %s:\n%s" % (src, r.stdout[-3000:]))
            os.rename(tmp, obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # slowest first
        srcs.sort(key=lambda s: -os.path.getsize(s))
        objs = sorted(ex.map(compile_one, srcs))
    exe = os.path.join(BUILD, "%s-%s" % (main, hashlib.sha256("".join(objs).encode()).hexdigest()[:24]))
    if main == "python":
        return python_driver(exe, objs)
    link(exe, objs)
    return exe


def link(exe, objs, *more):
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        r = subprocess.run(["g++", "-fsanitize=address"] + list(more) + objs + ["-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("cannot link:\n" + r.stdout[-3000:])
        os.rename(tmp, exe)


def python_driver(base, objs):
    """The package as installed, and a script that runs the driver over it."""
    link(base + ".so", objs, "-shared")
    py = sorted(glob.glob(os.path.join(REPO, "symbolic", "*.py")))
    pkg = "%s-%s" % (base, _digest(py + [os.path.join(VERIF, "tools", "py_driver.py")]))
    if not os.path.exists(pkg):
        tmp = "%s.%d.tmp" % (pkg, os.getpid())
        os.makedirs(os.path.join(tmp, "symbolic"))
        for p in py:
            shutil.copy(p, os.path.join(tmp, "symbolic"))
        os.symlink(base + ".so", os.path.join(tmp, "symbolic", "pysymbolic.so"))
        asan, cxx = [subprocess.run(["g++", "-print-file-name=" + x], stdout=subprocess.PIPE, text=True).stdout.strip()
                     for x in ("libasan.so", "libstdc++.so")]
        with open(os.path.join(tmp, "driver"), "w") as f:
            f.write("#!/bin/sh\nASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:$ASAN_OPTIONS "
                    "PYTHONDONTWRITEBYTECODE=1 LD_PRELOAD='%s %s' exec %s %s %s\n" % (
                        asan, cxx, PYTHON, os.path.join(VERIF, "tools", "py_driver.py"), pkg))
        os.chmod(os.path.join(tmp, "driver"), 0o755)
        try:
            os.rename(tmp, pkg)
        except OSError:
            shutil.rmtree(tmp)
    return os.path.join(pkg, "driver")


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["default"]):
        print(build(v))
