"""Build /repo's C sources into an overlay package below /verif/build.

The overlay is a directory ``<out>/site/phono3py`` whose entries are symlinks
to /repo/phono3py/* plus freshly compiled extension modules.  The cache key is
the content of the C sources, the flags and nanobind's version, so a change in
/repo/c always triggers a rebuild, and python changes are seen through the
links.
"""

import concurrent.futures as cf
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / "build"))
VENV = Path("/opt/venv")
PY = VENV / "bin/python"
NB = VENV / "lib/python3.12/site-packages/nanobind"
PYINC = "/usr/include/python3.12"

VARIANTS = {
    # the package as shipped
    "main": dict(
        cflags=["-O2", "-fopenmp"],
        defs=["-DNO_INCLUDE_LAPACKE", "-DTHM_EPSILON=1e-10"],
        libs=["-fopenmp"],
    ),
    # LAPACKE linked
    "lapacke": dict(
        cflags=["-O2", "-fopenmp"],
        defs=["-DTHM_EPSILON=1e-10"],
        libs=["-fopenmp", "-llapacke", "-llapack", "-lblas"],
    ),
    # every access of memory and every OpenMP construct reported to the
    # scheduler/monitor of lib/ompmc.c (see check C20)
    "ompmc": dict(
        cc="/usr/bin/clang",
        cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fopenmp",
                "-fsanitize=thread", "-ffp-contract=off", f"-I{VERIF}/lib/ompinc",
                *[f"-D{x}=mc_{x}" for x in ("malloc", "calloc", "realloc", "free",
                                            "strdup", "memcpy", "memmove", "memset")]],
        defs=["-DTHM_EPSILON=1e-10"],
        libs=["-llapacke", "-llapack", "-lblas"],
        cppflags=["-include", f"{VERIF}/lib/ompinc/mcpp.h"],
        extra=["lib/ompmc.c", "lib/ompinc/mcpp.h"],
    ),
}


def _h(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(str(p).encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run([str(c) for c in cmd], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(
            "build failed: %s\n%s" % (" ".join(map(str, cmd)), r.stderr[-4000:])
        )


def _nanobind_obj(pool):
    """Compile libnanobind (independent of /repo)."""
    key = _h([NB / "src/nb_combined.cpp"], "v1")
    obj = BUILD / f"nb-{key}.o"
    if obj.exists():
        return None, obj
    inc = [f"-I{NB}/include", f"-I{PYINC}"]
    rob = NB / "ext/robin_map/include"
    if rob.exists():
        inc.append(f"-I{rob}")
    tmp = obj.with_suffix(".%d.tmp.o" % os.getpid())

    def go():
        _run(
            ["/usr/bin/g++", "-std=c++17", "-O1", "-fPIC", "-fvisibility=hidden",
             "-fno-strict-aliasing", "-DNDEBUG", "-DNB_COMPACT_ASSERTIONS", *inc,
             "-c", NB / "src/nb_combined.cpp", "-o", tmp]
        )
        os.replace(tmp, obj)

    return pool.submit(go), obj


def build(variant="main"):
    """Return path of the directory to be put on sys.path."""
    v = VARIANTS[variant]
    csrc = sorted((REPO / "c").glob("*.c"))
    cpp = sorted((REPO / "c").glob("_*.cpp"))
    hdr = sorted((REPO / "c").glob("*.h"))
    ext = [VERIF / e for e in v.get("extra", [])]
    key = _h(csrc + cpp + hdr + ext, repr(v) + str(REPO) + Path(__file__).read_text())
    out = BUILD / f"{variant}-{key}"
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / f"{variant}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not (out / "ok").exists():
            # only the newest build of a variant is kept
            for old in BUILD.glob(f"{variant}-*"):
                if old.is_dir():
                    shutil.rmtree(old, ignore_errors=True)
            (out / "obj").mkdir(parents=True)
            with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
                nbf, nbobj = _nanobind_obj(pool)
                futs, objs, mods = [], [], []
                inc = [f"-I{NB}/include", f"-I{PYINC}", f"-I{REPO}/c"]
                for s in cpp:
                    o = out / "obj" / (s.stem + ".o")
                    mods.append((s.stem, o))
                    futs.append(pool.submit(_run, [
                        "/usr/bin/g++", "-std=c++17", "-O1", "-fPIC", "-DNDEBUG",
                        "-fvisibility=hidden", "-fno-strict-aliasing", *v["defs"],
                        *inc, *v.get("cppflags", []), "-c", s, "-o", o]))
                for s in csrc:
                    o = out / "obj" / (s.stem + ".c.o")
                    objs.append(o)
                    futs.append(pool.submit(_run, [
                        v.get("cc", "/usr/bin/gcc"), *v["cflags"], *v["defs"], "-fPIC", "-w",
                        f"-I{REPO}/c", "-c", s, "-o", o]))
                for s in [e for e in ext if e.suffix == ".c"]:
                    o = out / "obj" / (s.stem + ".x.o")
                    futs.append(pool.submit(_run, [
                        "/usr/bin/gcc", "-O2", "-g", "-fPIC", "-w", "-c", s, "-o", o]))
                if nbf is not None:
                    futs.append(nbf)
                for f in futs:
                    f.result()
            ar = out / "libc.a"
            _run(["ar", "rcs", ar, *objs])
            pkg = out / "site/phono3py"
            pkg.mkdir(parents=True)
            libs = list(v["libs"])
            if ext:
                # one instance of the runtime shared by all the modules
                rt = out / "librt_mc.so"
                _run(["/usr/bin/gcc", "-shared", "-o", rt,
                      *[out / "obj" / (s.stem + ".x.o") for s in ext if s.suffix == ".c"],
                      "-ldl", "-lpthread", "-lm"])
                libs = [rt, f"-Wl,-rpath,{out}"] + libs
            for name, o in mods:
                _run(["/usr/bin/g++", "-shared", "-o", pkg / f"{name}.abi3.so", o,
                      nbobj, ar, *libs, "-lm"])
            shutil.rmtree(out / "obj")
            (out / "ok").write_text("ok")
        # links to the python sources are made anew each time
        pkg = out / "site/phono3py"
        want = {p.name: p for p in (REPO / "phono3py").iterdir()
                if p.name != "__pycache__" and not p.name.endswith(".so")}
        for p in pkg.iterdir():
            if p.is_symlink() and (p.name not in want
                                   or os.readlink(p) != str(want[p.name])):
                p.unlink()
        for n, p in want.items():
            q = pkg / n
            if not q.is_symlink():
                q.symlink_to(p)
    return out / "site"


def activate(variant="main"):
    """Build and put the overlay first on sys.path of this process."""
    site = build(variant)
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [
        f for f in sys.meta_path if type(f).__name__ != "ScikitBuildRedirectingFinder"
    ]
    for m in [m for m in sys.modules if m.split(".")[0] == "phono3py"]:
        del sys.modules[m]
    sys.path.insert(0, str(site))
    import phono3py

    assert phono3py.__file__.startswith(str(site)), phono3py.__file__
    import phono3py._phono3py as c

    assert c.__file__.startswith(str(site)), c.__file__
    return site


if __name__ == "__main__":
    for a in sys.argv[1:] or ["main"]:
        print(build(a))
