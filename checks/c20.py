"""C20: results do not depend on the schedule of the OpenMP threads.

The C sources are compiled by clang with all accesses of memory and all OpenMP
constructs directed to lib/ompmc.c.  The arguments of calls made by small
calculations are recorded.  Each call is repeated with every iteration being a
thread of its own: a pair of accesses of different threads to one byte, one of
them a write, which is not ordered by a barrier or critical section is a
violation.  Without such a pair all interleavings of all assignments of
iterations to threads, in which a thread owns at least one iteration, are
equivalent to one executed up to private variables which are carried over from
iteration to iteration; those are explored by executing assignments to threads
(all assignments to two threads for short loops, all contiguous splittings and
static schedules otherwise) with private memory filled differently.
"""
import itertools
import os
import pickle
import subprocess
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon  # noqa: E402
from vcommon import Bad, Space, main, rd  # noqa: E402

PROPERTY = "C20"
VARIANT = "ompmc"
TECHNIQUE = (
    "stateless model checking of the real C code under a controlled OpenMP runtime: all parallel regions of "
    "recorded calls run with every iteration as a thread (conflicts of accesses decide all interleavings), and "
    "with all two-thread assignments of short loops, all splittings and static schedules of long ones"
)
LEVEL = "model_checking"
LEVEL_NOTE = (
    "bounded: calls made by calculations with small cells and meshes; assignments of iterations to two threads "
    "exhaustively for loops up to 6 (thorough 9) iterations, else contiguous splittings; conflicts decided per byte"
)
ASSUMPTIONS = [
    "nested parallel regions: threads at one level at a time (outer or inner)",
    "calls of LAPACK within loops access their arguments only",
    "without conflicting accesses, all interleavings of one assignment of iterations give the same result",
    "clang's outlining of parallel regions and gcc's agree on the meaning of the OpenMP pragmas",
]
RULE = "distinct (entry point, result) pairs; states are (entry point, shapes of arguments, assignment of iterations)"

_R = None


def runtime():
    global _R
    if _R is None:
        import mcrun

        _R = mcrun.Runtime()
    return _R


def setup():
    runtime()
    import vbuild

    vbuild.build("lapacke")


REAL = """
import sys, pickle, os
sys.path[:0] = [%r]
import vbuild
vbuild.activate("lapacke")
import importlib
mods = [importlib.import_module("phono3py." + m) for m in ("_phono3py", "_phononcalc", "_recgrid")]
s = pickle.load(open(sys.argv[1], "rb"))
out = []
for name, a in s:
    f = [getattr(m, name) for m in mods if hasattr(m, name)][0]
    r = f(*a)
    out.append((r, a))
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def tolerance(name):
    """Sums over iterations of different threads may be added in another order."""
    return 1e-11


def schedules(n, full):
    import mcrun as m

    yield (m.EACH_REV, 1, 0), 0xA5
    for t in (2, 3, 4):
        yield (m.STATIC, t, 0), 0xFF
    for t in (2, 3):
        yield (m.ROBIN, t, 0), 0xFF
    if n <= full:
        for b in range(1, 2 ** n):
            yield (m.MASK, 2, b), 0xFF
    else:
        for s in range(1, min(n, 24)):
            yield (m.SPLIT, 2, s), 0xFF


def call(R, obs, name, a, r0, b0, full, level):
    import mcrun as m

    r, b, e = R.run(name, a, (m.EACH, 1, 0), 0xFF, 0xFF, m.RACE)
    s = R.stats()
    if level == 2 and not s["regions"]:
        return
    obs.step(s["threads"])
    for k in ("regions", "threads", "accesses", "barriers"):
        obs.note(k, s[k])
    obs.state((name, level, sig(a), "each"))
    if e:
        raise Bad("%s: conflicting accesses of threads: %s" % (name, "; ".join(m.where(x) for x in e[:4])), key=name)
    same(name, r, b, r0, b0, "each iteration in its own thread", 1e-11)
    if not s["regions"]:
        return
    obs.note("calls with parallel regions" if level == 1 else "calls with nested parallel regions")
    for mode, fill in schedules(s["longest"], full):
        if level == 2 and mode[0] in (m.MASK, m.SPLIT):
            continue
        r, b, e = R.run(name, a, mode, fill, fill, 0)
        t = R.stats()
        obs.step(t["threads"])
        obs.note("schedules")
        obs.state((name, level, sig(a), mode))
        same(name, r, b, r0, b0, "schedule %s" % (mode,), 1e-11)


def explore(c, obs, full):
    import mcrun as m
    import mcwork

    R = runtime()
    R.reset(c["limit"])
    sys.stdout = open(os.devnull, "w")
    with mcwork.Cwd():
        mcwork.WORK[c["work"]](c)
    samples = R.taken()
    if not samples:
        raise Bad("no call was made")
    base = []
    for name, a in samples:
        r0, b0, e = R.run(name, a)
        R.stats()
        base.append((r0, b0))
        if "max_threads" in name:
            continue
        obs.outcome((name, [rd(x) for x in b0 if isinstance(x, np.ndarray)], r0))
        for level in (1, 2):
            # 2: threads in nested regions, the outer ones sequential
            R.lib.mc_level(level)
            try:
                call(R, obs, name, a, r0, b0, full, level)
            finally:
                R.lib.mc_level(1)
    # the shipped build with libgomp
    d = os.getcwd()
    with open("in.pkl", "wb") as f:
        pickle.dump([x for x in samples if "max_threads" not in x[0]], f)
    env = dict(os.environ, OMP_NUM_THREADS="4", OMP_DYNAMIC="false")
    p = subprocess.run([sys.executable, "-c", REAL % str(vcommon.LIB), d + "/in.pkl", d + "/out.pkl"],
                       env=env, capture_output=True, text=True)
    if p.returncode:
        raise Bad("calls with libgomp failed: " + p.stderr[-300:])
    with open("out.pkl", "rb") as f:
        out = pickle.load(f)
    os.unlink("in.pkl")
    os.unlink("out.pkl")
    i = 0
    for (name, a), (r0, b0) in zip(samples, base):
        if "max_threads" in name:
            continue
        r, b = out[i]
        i += 1
        obs.trace()
        obs.note("calls repeated with libgomp")
        if solver(name):
            continue
        same(name, r, b, r0, b0, "libgomp with four threads", 1e-7, ints=True)


def solver(name):
    """Eigenvectors are not unique: compared within one build only."""
    return name in ("phonons_at_gridpoints", "diagonalize_collision_matrix")


def sig(a):
    return tuple(x.shape if isinstance(x, np.ndarray) else x for x in a)


def same(name, r, b, r0, b0, what, tol, ints=False):
    import mcrun as m

    d = m.differ(r, r0, tol) or m.differ(list(b), list(b0), tol)
    if d:
        raise Bad("%s: result by %s is not the one of the sequential execution: %s" % (name, what, d), key=name)


def cases(tier):
    T = dict(xtal="tric2", smat=(2, 1, 1), mesh=[3, 1, 1], limit=6)
    Z = dict(xtal="zb", smat=(1, 1, 1), mesh=[2, 2, 2], limit=4)
    H = dict(xtal="hcp", smat=(2, 1, 1), mesh=[3, 3, 2], limit=4)
    out = []
    for omp, tri in itertools.product((None, True, False), (T, Z) if tier == "quick" else (T, Z, H)):
        for w in ("rta", "energies") if tier == "quick" else ("rta", "energies", "wigner", "lbte"):
            out.append(dict(tri, work=w, omp=omp))
    for tri in (T, Z, H):
        for w in ("grid", "lbte", "jdos", "isotope", "phonons", "fcs"):
            out.append(dict(tri, work=w))
        out.append(dict(tri, work="rta", symq=True))
        out.append(dict(tri, work="rta", bands=[[0, 1], [3]], compact=True))
        out.append(dict(tri, work="rta", ms=False, scut=2.0, gps=[0, 1]))
        out.append(dict(tri, work="rta", r0=False, gps=[1], omp=False))
        out.append(dict(tri, work="rta", r0=False, gps=[0], omp=True, compact=True))
        out.append(dict(tri, work="jdos", ms=False))
        out.append(dict(tri, work="isotope", bands=[0, 2]))
    out.append(dict(T, work="wigner"))
    out.append(dict(H, work="wigner"))
    out.append(dict(T, work="pinv"))
    out.append(dict(Z, work="rta", nac="gonze"))
    out.append(dict(Z, work="energies", nac="wang", qdir=[1, 0, 0], omp=True))
    out.append(dict(Z, work="lbte", nac="gonze"))
    out.append(dict(Z, work="jdos", nac="gonze"))
    if tier != "quick":
        for o in list(out):
            out.append(dict(o, limit=40, mesh=[x + 1 for x in o["mesh"]]))
        for w in ("rta", "lbte", "energies", "jdos", "fcs", "phonons"):
            out.append(dict(xtal="wz", smat=(1, 1, 1), mesh=[2, 2, 1], limit=4, work=w))
            out.append(dict(xtal="tric1", smat=(2, 2, 1), mesh=[2, 2, 2], limit=20, work=w))
    seen, res = set(), []
    for o in out:
        if str(o) not in seen:
            seen.add(str(o))
            res.append(o)
    return res


def entry_points(c, obs):
    """All entry points with parallel regions are reached by the calculations."""
    import mcwork

    R = runtime()
    R.reset(3)
    sys.stdout = open(os.devnull, "w")
    for d, (w, f) in itertools.product(
            (dict(), dict(omp=True), dict(omp=False, symq=True), dict(xtal="zb", smat=(1, 1, 1), mesh=[2, 2, 2], nac="gonze")),
            mcwork.WORK.items()):
        with mcwork.Cwd():
            f(dict(c, work=w, **d) if "xtal" not in d else dict(d, work=w))
    smp = R.taken()
    got = {n for n, _ in smp}
    import mcrun

    for n, a in smp:
        R.run(n, a, (mcrun.STATIC, 2, 0))
    reg = R.regions()
    for k, n in reg.items():
        obs.state((k, n))
    obs.note("parallel regions reached", len(reg))
    if len(sys.argv) > 1 and os.environ.get("C20_SHOW"):
        sys.stderr.write("\n".join(sorted(map(str, reg.items()))) + "\n")
    obs.note("entry points", len(R.real))
    obs.note("entry points reached", len(got))
    obs.state(sorted(got))
    obs.step(len(got))


def spaces(tier):
    full = 6 if tier == "quick" else 9
    yield Space("schedules", cases(tier), lambda c, obs: explore(c, obs, full),
                bound="recorded calls of the calculations; two-thread assignments exhaustive up to %d iterations, "
                "splittings up to 24" % full, setup=setup)
    yield Space("reach", [dict(xtal="tric2", smat=(2, 1, 1), mesh=[3, 1, 1])], entry_points,
                bound="entry points reached", setup=setup)


if __name__ == "__main__":
    main(globals())
