"""Build the code under test from /repo's current working tree.

Nothing is written in /repo or /opt/vp.  Native sources are mirrored by content
into <cache>/src (only changed files get a new mtime, so ninja's incremental
build is sound), built in <cache>/bld-<kind>, and a complete importable package
tree (python files of /repo + the extension modules just built) is laid out in a
scratch folder for one run.

kinds:  plain     -O2, what users run
        asan      gcc AddressSanitizer + UndefinedBehaviorSanitizer (recoverable)
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "py_gnome")
PY = "/opt/venv/bin/python"
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))

NOT_NATIVE = (".so", ".pyc", ".py", ".dylib", ".o")
SKIP_DIRS = {"__pycache__", "tests", "documentation", "scripts", ".git"}

KINDS = {
    "plain": dict(flags="-O2 -g0", build_type="Release"),
    "asan": dict(flags="-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined "
                       "-fno-sanitize=vptr -fsanitize-recover=all -fno-sanitize-recover=address",
                 build_type="None"),
}


class BuildFailure(RuntimeError):
    pass


def _native_files():
    """relative names of everything the native build reads"""
    out = ["CMakeLists.txt"]
    for top in ("cmake", "lib_gnome", "gnome/cy_gnome", "gnome/utilities/geometry"):
        for d, dirs, files in os.walk(os.path.join(SRC, top)):
            dirs[:] = [x for x in dirs if x not in SKIP_DIRS]
            for f in files:
                if not f.endswith(NOT_NATIVE) or f == "__init__.py":
                    out.append(os.path.relpath(os.path.join(d, f), SRC))
    # packages of the .pxd files must have their __init__ for cython's cimports
    for f in ("gnome/__init__.py", "gnome/utilities/__init__.py"):
        if os.path.exists(os.path.join(SRC, f)) and f not in out:
            out.append(f)
    return sorted(set(out))


def _read(p):
    with open(p, "rb") as fd:
        return fd.read()


def _mirror(dst):
    changed = []
    names = _native_files()
    for rel in names:
        data = _read(os.path.join(SRC, rel))
        p = os.path.join(dst, rel)
        if os.path.exists(p) and _read(p) == data:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fd:
            fd.write(data)
        changed.append(rel)
    keep = set(names)
    for d, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in keep:
                os.remove(os.path.join(d, f))
                changed.append(rel)
    return names, changed


def _run(cmd, log, env):
    with open(log, "wb") as fd:
        r = subprocess.run(cmd, stdout=fd, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        sys.stderr.write(_read(log).decode(errors="replace")[-4000:])
        raise BuildFailure("%s failed" % " ".join(cmd[:3]))


def build_native(kind="plain"):
    """build the extension modules; returns the folder they were installed in"""
    k = KINDS[kind]
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock-" + kind), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = os.path.join(CACHE, "src-" + kind)
        bld = os.path.join(CACHE, "bld-" + kind)
        inst = os.path.join(CACHE, "inst-" + kind)
        os.makedirs(src, exist_ok=True)
        names, changed = _mirror(src)
        h = hashlib.sha256()
        h.update(k["flags"].encode())
        for n in names:
            h.update(n.encode() + b"\0" + _read(os.path.join(src, n)) + b"\0")
        digest = h.hexdigest()
        stamp = os.path.join(inst, ".digest")
        if os.path.exists(stamp) and _read(stamp).decode() == digest:
            return inst, digest
        if os.path.exists(inst):
            shutil.rmtree(inst)
        if any(c.endswith((".pxd", ".pxi")) for c in changed):
            for sub in ("gnome/cy_gnome", "gnome/utilities/geometry"):
                p = os.path.join(bld, sub)
                if os.path.isdir(p):
                    for f in os.listdir(p):
                        if f.endswith((".cpp", ".c")):
                            os.remove(os.path.join(p, f))
        os.makedirs(bld, exist_ok=True)
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
                   HOME=os.environ.get("HOME", "/root"), PYTHONDONTWRITEBYTECODE="1")
        for v in ("LD_PRELOAD", "PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
            env.pop(v, None)
        cfg = ["cmake", "-S", src, "-B", bld, "-G", "Ninja",
               "-DCMAKE_BUILD_TYPE=" + k["build_type"],
               "-DCMAKE_CXX_FLAGS=" + k["flags"], "-DCMAKE_C_FLAGS=" + k["flags"],
               "-DCMAKE_CXX_FLAGS_RELEASE=", "-DCMAKE_C_FLAGS_RELEASE=",
               "-DSKBUILD_PROJECT_NAME=gnome", "-DPython_EXECUTABLE=" + PY,
               "-DCMAKE_INSTALL_PREFIX=" + inst]
        try:
            _run(cfg, os.path.join(bld, "configure.log"), env)
            _run(["cmake", "--build", bld], os.path.join(bld, "build.log"), env)
        except BuildFailure:
            # an incremental tree may be unusable: once more from nothing
            shutil.rmtree(bld)
            os.makedirs(bld)
            _run(cfg, os.path.join(bld, "configure.log"), env)
            _run(["cmake", "--build", bld], os.path.join(bld, "build.log"), env)
        _run(["cmake", "--install", bld], os.path.join(bld, "install.log"), env)
        with open(stamp, "w") as fd:
            fd.write(digest)
        return inst, digest


def make_tree(kind="plain", parent=None):
    """an importable copy of the package: returns its folder (put it on PYTHONPATH)"""
    inst, digest = build_native(kind)
    top = tempfile.mkdtemp(prefix="gnome-tree-", dir=parent)
    def ignore(d, files):
        return [f for f in files if f in SKIP_DIRS or f.endswith((".so", ".pyc", ".dylib"))]
    shutil.copytree(os.path.join(SRC, "gnome"), os.path.join(top, "gnome"), ignore=ignore)
    for d, dirs, files in os.walk(inst):
        for f in files:
            if ".so" in f:
                rel = os.path.relpath(os.path.join(d, f), inst)
                os.makedirs(os.path.dirname(os.path.join(top, rel)), exist_ok=True)
                shutil.copy2(os.path.join(d, f), os.path.join(top, rel))
    return top


def run_env(tree, kind="plain", extra=None):
    env = dict(os.environ)
    env.update(PYTHONPATH=":".join([tree, os.path.join(VERIF, "stubs"), os.path.join(VERIF, "lib"),
                                    os.path.join(VERIF, "checks")]),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
               PYTHONWARNINGS="ignore", LANG="C.UTF-8", HOME=os.environ.get("HOME", "/root"))
    env.pop("LD_PRELOAD", None)
    if kind == "asan":
        lib = [subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip()
               for n in ("libasan.so", "libubsan.so", "libstdc++.so.6")]
        env["LD_PRELOAD"] = " ".join(lib)
        env["PYTHONMALLOC"] = "malloc"
    if extra:
        env.update(extra)
    return env


if __name__ == "__main__":
    for kind in (sys.argv[1:] or ["plain", "asan"]):
        t = time.time()
        inst, dg = build_native(kind)
        print("%s: %s %s (%.1f s)" % (kind, inst, dg[:12], time.time() - t))
