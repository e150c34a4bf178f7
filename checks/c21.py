"""C21: results depend on the values of the inputs only.

Not on contents of fresh memory (heap, stack, numpy.empty), not on earlier
calls, not on the layout of the arrays given; no access outside of the arrays
and blocks of memory.
"""
import itertools
import os
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon  # noqa: E402,F401
from vcommon import Bad, Space, main, rd  # noqa: E402

PROPERTY = "C21"
VARIANT = "ompmc"
TECHNIQUE = (
    "stateless exploration of the real code under a controlled allocator: every recorded call of the compiled code is "
    "executed with all accesses checked against live memory and with several contents of fresh heap and stack memory; "
    "all ordered pairs of entry points as histories; all inputs of the API in all array layouts and orders of fresh arrays"
)
LEVEL = "model_checking"
LEVEL_NOTE = (
    "bounded: calls made by calculations with small cells and meshes; four contents of fresh memory; histories of two "
    "calls; accesses to variables on the stack are checked for being on the stack only"
)
ASSUMPTIONS = [
    "a result depending on fresh memory differs for at least two of the contents 0x00, 0xFF, 0xA5, 0x3F",
    "libraries called by the compiled code (LAPACK) access their arguments only",
]
RULE = "distinct (entry point, result) pairs of the calls, and results of the API"
FILLS = ((0, 0), (0xFF, 0xFF), (0xA5, 0x3F), (0x3F, 0xA5))
_R = None


def setup():
    global _R
    if _R is None:
        import mcrun

        _R = mcrun.Runtime()


def quiet():
    sys.stdout = open(os.devnull, "w")


# --------------------------------------------------------------- compiled code
def memory(c, obs):
    import mcrun as m
    import mcwork

    R = _R
    R.reset(c["limit"])
    quiet()
    with mcwork.Cwd():
        mcwork.WORK[c["work"]](c)
    for name, a in R.taken():
        if "max_threads" in name:
            continue
        for x in a:
            if isinstance(x, np.ndarray) and not x.flags.c_contiguous:
                raise Bad("%s is called with an array which is not contiguous" % name, key=name)
        ref = None
        for heap, stack in FILLS:
            r, b, e = R.run(name, a, (m.SEQ, 1, 0), heap, stack, m.BOUNDS)
            s = R.stats()
            obs.step(1)
            obs.note("accesses", s["accesses"])
            obs.note("blocks of memory", s["blocks"])
            obs.state((name, tuple(x.shape if isinstance(x, np.ndarray) else x for x in a), heap))
            if e:
                raise Bad("%s: access outside of arrays: %s" % (name, "; ".join(m.where(x) for x in e[:4])), key=name)
            if ref is None:
                ref = r, b
                obs.outcome((name, r, [rd(x) for x in b if isinstance(x, np.ndarray)]))
                continue
            d = m.differ(r, ref[0], 0) or m.differ(list(b), list(ref[1]), 0)
            if d:
                raise Bad("%s: result depends on the contents of fresh memory (%#x, %#x): %s" % (name, heap, stack, d),
                          key=name)


def history(c, obs):
    """All ordered pairs of recorded calls: the result of a call is the same after any other call."""
    import mcrun as m
    import mcwork

    R = _R
    quiet()
    samples, alone = [], []
    for w, d in itertools.product(mcwork.WORK, c["cfg"]):
        R.reset(c["limit"])
        with mcwork.Cwd():
            mcwork.WORK[w](dict(d, work=w))
        samples += [x for x in R.taken() if "max_threads" not in x[0]]
    k = c["part"]
    alone = [R.run(n, a)[:2] for n, a in samples]
    R.stats()
    for i, (n, a) in enumerate(samples):
        if i % c["parts"] != k:
            continue
        for j, (n2, a2) in enumerate(samples):
            R.run(n2, a2, (m.SEQ, 1, 0), 0xFF, 0xFF)
            r, b, _ = R.run(n, a, (m.SEQ, 1, 0), 0xFF, 0xFF)
            obs.step(2)
            d = m.differ(r, alone[i][0], 0) or m.differ(list(b), list(alone[i][1]), 0)
            if d:
                raise Bad("%s after %s differs: %s" % (n, n2, d), key=n)
        obs.state((n, i))
        obs.outcome((n, [rd(x) for x in b if isinstance(x, np.ndarray)]))
    obs.trace(len(samples))


# --------------------------------------------------------------- numpy.empty
class Fresh:
    """numpy.empty and numpy.empty_like return arrays with the given bytes."""

    def __init__(self, byte):
        self.byte = byte

    def __enter__(self):
        self.old = np.empty, np.empty_like
        self.n = 0

        def empty(*a, **k):
            return self.fill(self.old[0](*a, **k))

        def empty_like(*a, **k):
            return self.fill(self.old[1](*a, **k))

        np.empty, np.empty_like = empty, empty_like
        return self

    def fill(self, x):
        if x.dtype.kind in "fciub" and x.size and x.flags.c_contiguous:
            self.n += 1
            x.reshape(-1).view("uint8")[:] = self.byte
        return x

    def __exit__(self, *a):
        np.empty, np.empty_like = self.old


def flat(x):
    """All numbers in nested lists and arrays."""
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.ravel().astype(float) if x.dtype.kind != "c" else x.ravel()
    if x is None:
        return np.zeros(0)
    if isinstance(x, (list, tuple, np.ndarray)):
        y = [flat(z) for z in x]
        return np.concatenate(y) if y else np.zeros(0)
    return np.array([float(x)])


def results(w, c):
    """Arrays given by the API in a calculation."""
    import xtal
    import mcwork

    ph3 = mcwork.obj(c)
    out = {}
    if w == "fcs":
        ph3 = mcwork.obj(c, with_fc=False)
        ph3.generate_displacements(distance=0.03)
        fc2, fc3 = xtal.model(c["xtal"], tuple(c["smat"]))
        d = np.array([s.positions - ph3.supercell.positions for s in ph3.supercells_with_displacements])
        ph3.forces = xtal.forces_of(fc2, fc3, d)
        for compact, sym in itertools.product((True, False), (True, False)):
            ph3.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact)
            out["fc2", compact, sym] = ph3.fc2.copy()
            out["fc3", compact, sym] = ph3.fc3.copy()
        ph3.generate_displacements(distance=0.03, cutoff_pair_distance=3.5)
        out["disps"] = np.array([x["displacement"] for x in ph3.dataset["first_atoms"]])
        return out
    if w in ("rta", "wigner", "lbte"):
        ph3.sigmas = [None, 0.7]
        if c.get("bands"):
            ph3.band_indices = c["bands"]
        mcwork.init(c, ph3)
        kw = dict(temperatures=[100.0, 300.0])
        if w == "rta":
            kws = [dict(), dict(is_N_U=True), dict(is_full_pp=True, is_isotope=True), dict(use_ave_pp=True, is_full_pp=True)]
        elif w == "wigner":
            kws = [dict(conductivity_type="wigner")]
        else:
            kws = [dict(is_LBTE=True), dict(is_LBTE=True, is_reducible_collision_matrix=True, is_isotope=True)]
        if w == "lbte":
            ph3.sigmas = [0.7]
        for i, k in enumerate(kws):
            ph3.run_thermal_conductivity(**kw, **k)
            tc = ph3.thermal_conductivity
            for n in ("kappa", "kappa_TOT_RTA", "gamma", "group_velocities", "mode_heat_capacities", "mode_kappa",
                      "gamma_isotope", "averaged_pp_interaction", "collision_matrix"):
                x = getattr(tc, n, None)
                if isinstance(x, np.ndarray):
                    out[n, i] = x.copy()
            x = getattr(tc, "get_gamma_N_U", lambda: None)()
            if x is not None:
                out["gamma_N", i], out["gamma_U", i] = [np.array(y) for y in x if y is not None] or (0, 0)
        return out
    if w == "energies":
        ph3.sigmas = [None, 0.7]
        mcwork.init(c, ph3)
        ph3.run_phonon_solver()
        kw = dict(temperatures=[300.0])
        out["ise"] = flat(ph3.run_imag_self_energy([1], num_frequency_points=3, **kw))
        out["iseb"] = flat(ph3.run_imag_self_energy([1], frequency_points_at_bands=True, **kw))
        out["detail"] = flat(ph3.run_imag_self_energy([1], num_frequency_points=3, keep_gamma_detail=True, **kw))
        out["rse"] = flat(ph3.run_real_self_energy([1], num_frequency_points=3, epsilons=[0.1], **kw))
        out["rseb"] = flat(ph3.run_real_self_energy([1], frequency_points_at_bands=True, epsilons=[0.1], **kw))
        out["sf"] = flat(ph3.run_spectral_function([1], num_frequency_points=3, **kw))
        return out
    if w == "jdos":
        from phono3py import Phono3pyJointDos

        for sig, t in itertools.product((None, 0.7), (None, [300.0])):
            j = Phono3pyJointDos(ph3.supercell, ph3.primitive, ph3.fc2, mesh=c["mesh"], sigmas=[sig], temperatures=t,
                                 num_frequency_points=3, nac_params=ph3.nac_params,
                                 is_mesh_symmetry=c.get("ms", True))
            j.run([0, 1])
            out[sig, str(t)] = flat(j.joint_dos)
        return out
    if w == "isotope":
        from phono3py import Phono3pyIsotope

        for sig in (None, 0.7):
            i = Phono3pyIsotope(c["mesh"], ph3.primitive, mass_variances=[1e-3 * (k + 1) for k in range(
                len(ph3.primitive))], sigmas=[sig], band_indices=c.get("bands"))
            i.init_dynamical_matrix(ph3.fc2, ph3.phonon_supercell, ph3.phonon_primitive, nac_params=ph3.nac_params)
            i.run([0, 1])
            out[sig] = np.array(i.gamma)
        return out
    if w == "phonons":
        ph3 = mcwork.init(c, ph3)
        ph3.run_phonon_solver()
        f, e, g = ph3.get_phonon_data()
        out["f"] = f
        out["e"] = e
        return out
    if w == "gruneisen":
        ph3.run_gruneisen = None
        from phono3py.phonon3.gruneisen import Gruneisen

        g = Gruneisen(ph3.fc2, ph3.fc3, ph3.supercell, ph3.primitive, nac_params=ph3.nac_params)
        g.set_sampling_mesh(c["mesh"], is_gamma_center=True)
        g.run()
        out["g"] = g.get_gruneisen_parameters()
        return out
    raise KeyError(w)


def same(a, b, what, tol=0):
    import mcrun as m

    if set(a) != set(b):
        raise Bad("%s: other results %s" % (what, set(a) ^ set(b)))
    for k in a:
        d = m.differ(a[k], b[k], tol)
        if d:
            raise Bad("%s: %s differs: %s" % (what, k, d), key=str(k))


def empty(c, obs):
    """Contents of arrays made by numpy.empty."""
    quiet()
    ref = None
    for byte in (0, 0xFF, 0x3F):
        with Fresh(byte) as f:
            r = results(c["work"], c)
        obs.step(f.n)
        obs.state((c["work"], byte))
        if ref is None:
            ref = r
        same(r, ref, "numpy.empty with %#x" % byte)
    obs.outcome([(k, rd(v)) for k, v in sorted(r.items(), key=str)])


# --------------------------------------------------------------- layouts
LAYOUTS = ("list", "F", "stride", "reverse", "readonly", "swapped")


def lay(x, how):
    """Array of the same values in another layout."""
    x = np.asarray(x)
    if how == "list":
        return x.tolist()
    if how == "F":
        return np.asfortranarray(x)
    if how == "stride":
        y = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype)
        v = y[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        y[tuple(slice(1, None, 2) for _ in x.shape)] = 77
        return v
    if how == "reverse":
        y = x[tuple(slice(None, None, -1) for _ in x.shape)].copy()
        return y[tuple(slice(None, None, -1) for _ in x.shape)]
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if how == "swapped":
        return x.astype(x.dtype.newbyteorder())
    raise KeyError(how)


def layout(c, obs):
    import mcrun as m  # noqa: F401
    import mcwork
    import xtal

    quiet()
    inp, how = c["input"], c["how"]

    def calc(on):
        f = (lambda x: lay(x, how)) if on else (lambda x: x)

        def at(name):
            return f if name == inp else (lambda x: x)

        src = mcwork.obj(c)
        ph3 = mcwork.obj(c, with_fc=False)
        if inp in ("forces", "displacements", "dataset", "energies"):
            ph3.generate_displacements(distance=0.03)
            fc2, fc3 = xtal.model(c["xtal"], tuple(c["smat"]))
            d = np.array([s.positions - ph3.supercell.positions for s in ph3.supercells_with_displacements])
            F = np.array(xtal.forces_of(fc2, fc3, d))
            if inp == "forces":
                ph3.forces = at("forces")(F)
            elif inp == "dataset":
                ds = ph3.dataset
                i = 0
                for a in ds["first_atoms"]:
                    a["forces"] = at("dataset")(F[i])
                    i += 1
                for a in ds["first_atoms"]:
                    for b in a["second_atoms"]:
                        b["forces"] = at("dataset")(F[i])
                        b["displacement"] = at("dataset")(np.array(b["displacement"]))
                        i += 1
                ph3.dataset = ds
            else:
                ph3.dataset = {"displacements": at("displacements")(d), "forces": at("displacements")(F)}
                return {"d": np.array(ph3.displacements), "f": np.array(ph3.forces),
                        "s": np.array([x.positions for x in ph3.supercells_with_displacements])}
            ph3.produce_fc3()
            return {"fc2": ph3.fc2, "fc3": ph3.fc3}
        ph3.fc2 = at("fc2")(src.fc2)
        ph3.fc3 = at("fc3")(src.fc3)
        if inp == "nac":
            p = xtal.nac_params(c["xtal"])
            ph3.nac_params = dict(p, born=f(p["born"]), dielectric=f(p["dielectric"]))
        if inp == "masses":
            ph3.masses = f(np.array(src.primitive.masses) * 1.1)
        if inp == "sigmas":
            ph3.sigmas = f(np.array([0.5, 0.7]))
        else:
            ph3.sigmas = [None, 0.7]
        if inp == "bands":
            ph3.band_indices = f(np.array([[0, 2], [1, 3]]))
        ph3.mesh_numbers = at("mesh")(np.array(c["mesh"]))
        kw = dict(nac_q_direction=f(np.array([1.0, 0, 0]))) if inp == "qdir" else {}
        ph3.init_phph_interaction(**kw)
        if inp == "phonons":
            src.mesh_numbers = c["mesh"]
            src.init_phph_interaction()
            src.run_phonon_solver()
            fr, ev, gr = src.get_phonon_data()
            ph3.set_phonon_data(f(fr), f(ev), f(gr))
        out = {}
        if inp == "qdir":
            out["g0"] = flat(ph3.run_imag_self_energy([0], temperatures=[300.0], num_frequency_points=3))
            return out
        ph3.run_thermal_conductivity(
            temperatures=at("temperatures")(np.array([100.0, 300.0])), grid_points=at("gps")(np.array([0, 1])),
            mass_variances=at("variances")(np.array([1e-3 * (i + 1) for i in range(len(src.primitive))])),
            boundary_mfp=1e6, write_kappa=False)
        tc = ph3.thermal_conductivity
        out.update(gamma=np.array(tc.gamma), kappa=np.array(tc.kappa), gi=np.array(tc.gamma_isotope))
        kw = dict(grid_points=at("gps")(np.array([1])), temperatures=at("temperatures")(np.array([300.0])))
        out["ise"] = flat(ph3.run_imag_self_energy(frequency_points=at("fpoints")(np.array([2.0, 5.0, 9.0])), **kw))
        out["rse"] = flat(ph3.run_real_self_energy(frequency_points=at("fpoints")(np.array([2.0, 5.0])),
                                                   epsilons=at("epsilons")(np.array([0.1])), **kw))
        return out

    if (inp, how) in SKIP:
        return
    ref = calc(False)
    try:
        r = calc(True)
    except Exception as e:
        # refusing is allowed, silently other results are not
        if how == "list" and inp in LISTS and inp != "dataset" or how in ("F", "stride", "reverse"):
            raise
        obs.note("refused")
        obs.outcome((inp, how, type(e).__name__))
        return
    obs.step(2)
    obs.state((inp, how))
    same(r, ref, "%s given as %s" % (inp, how), 1e-12)
    obs.outcome([(k, rd(v)) for k, v in sorted(r.items())])


SKIP = set()
LISTS = ("forces", "dataset", "displacements", "nac", "masses", "sigmas", "bands", "mesh", "gps", "temperatures",
         "variances", "fpoints", "epsilons", "qdir")
INPUTS = LISTS + ("fc2", "fc3", "phonons")


def spaces(tier):
    import c20

    yield Space("memory", c20.cases(tier), memory, setup=setup,
                bound="recorded calls of the calculations, contents of fresh memory %s" % (FILLS,))
    T = dict(xtal="tric2", smat=(2, 1, 1), mesh=[3, 1, 1])
    Z = dict(xtal="zb", smat=(1, 1, 1), mesh=[2, 2, 2], nac="gonze")
    n = 8 if tier == "quick" else 24
    yield Space("history", [dict(cfg=[T, Z] if tier == "quick" else [T, Z, dict(T, omp=True), dict(T, compact=True)],
                                 limit=1 if tier == "quick" else 2, part=k, parts=n)
                            for k in range(n)], history, setup=setup,
                bound="all ordered pairs of recorded calls")
    E = [dict(x, work=w) for x in (T, Z, dict(T, compact=True), dict(T, bands=[[0, 1], [3]]), dict(T, omp=True, ms=False))
         for w in ("rta", "wigner", "lbte", "energies", "jdos", "isotope", "phonons", "gruneisen", "fcs")
         if not (x.get("bands") and w not in ("rta", "wigner"))
         and not (x.get("compact") and w == "gruneisen")]
    if tier != "quick":
        E += [dict(e, mesh=[x + 1 for x in e["mesh"]]) for e in E]
        E += [dict(xtal="hcp", smat=(2, 1, 1), mesh=[3, 3, 2], work=w) for w in ("rta", "lbte", "energies", "jdos", "fcs")]
    yield Space("empty", E, empty, setup=setup, bound="three contents of numpy.empty")
    yield Space("layout", [dict(T, input=i, how=h, nac="gonze" if i in ("qdir",) else None)
                           for i in INPUTS for h in LAYOUTS], layout, setup=setup,
                bound="all inputs in all layouts, one at a time")


if __name__ == "__main__":
    main(globals())
