"""C07: phonon-phonon interaction strengths follow from fc3 and the eigenmodes."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C07"
TECHNIQUE = ("explicit-state model checking: all grid points, triplets and band triples of small "
             "systems under every combination of options are executed by the real code and "
             "compared with an independent Fourier transform and projection of fc3")
LEVEL = "model_checking"
LEVEL_NOTE = ("The full product of options (storage form, origin average, symmetrisation, band "
              "subset, skip mask, cutoff, loop order) is crossed on small systems, and all "
              "crystals are covered with a reduced product. The element-wise oracle is plain "
              "numpy: own shortest vectors, phases and projection with the modes held by the "
              "object (which C06 decides).")
ASSUMPTIONS = []
RTOL = 2e-6


def setup(case):
    ph3 = xtal.phono3py(case["xtal"], case["smat"], compact=case.get("compact", False),
                        nac=case.get("nac"), is_mesh_symmetry=case.get("ms", True),
                        phonon_smat=case.get("psmat"),
                        use_grg=case.get("grg", False), make_r0_average=case.get("r0", True),
                        cutoff_frequency=case.get("cutoff", 1e-4))
    ph3.mesh_numbers = case["mesh"]
    if case.get("bands") is not None:
        ph3.band_indices = case["bands"]
    ph3.init_phph_interaction(symmetrize_fc3q=case.get("symq", False),
                              frequency_scale_factor=case.get("scale"),
                              openmp_per_triplets=case.get("opt"),
                              nac_q_direction=case.get("dir"))
    it = ph3.phph_interaction
    fc3 = xtal.model(case["xtal"], tuple(case["smat"]))[1]
    if case.get("scale"):
        fc3 = fc3 * case["scale"] ** 2
    ref = refphonon.Ref(ph3.supercell, ph3.primitive, None, fc3)
    return ph3, it, ref


def masks(shape, kind):
    """Skip masks (deterministic patterns of zeros and ones)."""
    if kind is None:
        return None
    m = np.zeros(shape, dtype="byte", order="C")
    n = np.arange(m.size).reshape(shape)
    if kind == "third":
        m[n % 3 == 1] = 1
    elif kind == "triplet":
        m[::2] = 1
    elif kind == "band":
        m[..., 0, :] = 1
    elif kind == "all":
        m[:] = 1
    return m


CACHE = {}


def ref_strength(case, it, ref, t):
    f, e, _ = it.get_phonons()
    bz = it.bz_grid
    q3 = [bz.QDinv @ bz.addresses[x] for x in t]
    return ref.strength(q3, [f[x] for x in t], [e[x] for x in t], case.get("r0", True),
                        case.get("cutoff", 1e-4), case.get("symq", False))


def points(it, how):
    bz = it.bz_grid
    if how == "all":
        return list(range(len(bz.addresses)))
    if how == "gamma":
        return [int(bz.gp_Gamma)]
    from phono3py.phonon.grid import get_ir_grid_points

    ir = bz.grg2bzg[get_ir_grid_points(bz)[0]]
    return [int(x) for x in ir] + [len(bz.addresses) - 1]


def run(case, obs):
    ph3, it, ref = setup(case)
    conv = refphonon.unit_conversion(np.prod(it.mesh_numbers))
    bands = range(ref.nb) if case.get("bands") is None else case["bands"]
    bands = np.ravel(bands).astype(int)
    it.run_phonon_solver()
    nsym = 0
    for gp in points(it, case.get("points", "ir")):
        it.set_grid_point(gp)
        tp, w = it.get_triplets_at_q()[:2]
        shape = (len(tp), len(bands), ref.nb, ref.nb)
        for mk in case.get("masks", [None]):
            g0 = masks(shape, mk)
            it.run(g_zero=g0)
            v = it.interaction_strength
            if v.shape != shape:
                raise Bad("shape %s, expected %s" % (v.shape, shape))
            tot = np.zeros(len(bands))
            for n, t in enumerate(tp):
                if mk == case.get("masks", [None])[0]:
                    s = ref_strength(case, it, ref, t) * conv
                    CACHE[n] = s
                s = CACHE[n][bands]
                scale = max(CACHE[n].max(), 1e-16)
                d = abs(v[n] - s)
                if g0 is not None:
                    z = g0[n].astype(bool)
                    if not case.get("symq") and (v[n][z] != 0).any():
                        raise Bad("point %d triplet %s: skipped elements are not zero" % (gp, t))
                    # skipped elements: zero, or their value
                    d = np.where(z, np.minimum(d, abs(v[n])), d)
                if not d.max() < RTOL * scale:
                    i = np.unravel_index(np.nanargmax(d), d.shape)
                    raise Bad("point %d triplet %s bands %s mask %s: %.8e, expected %.8e"
                              % (gp, t, (int(bands[i[0]]),) + i[1:], mk, v[n][i], s[i]))
                tot += w[n] * s.sum(axis=(1, 2))
                nsym += 1
            if g0 is None:
                a = it.averaged_interaction
                x = tot / ref.nb ** 2
                if abs(a - x).max() > RTOL * max(abs(x).max(), 1e-16):
                    raise Bad("point %d: averaged interaction %s, expected %s" % (gp, a, x))
        obs.state((case["xtal"], tuple(np.ravel(case["mesh"])), gp, len(tp)))
        if v.max() > 1e-20:
            obs.outcome(vc.rd(v, 5))
            obs.note("points with coupling")
    obs.step(nsym)


def run_py(case, obs):
    """The reference implementation in Python of the package."""
    import contextlib
    import io

    ph3, it, ref = setup(case)
    for gp in points(it, "ir"):
        it.set_grid_point(gp)
        it.run()
        a = it.interaction_strength.copy()
        with contextlib.redirect_stdout(io.StringIO()):
            it.run(lang="Python")
        b = it.interaction_strength
        if abs(a - b).max() > 1e-8 * max(abs(a).max(), 1e-20):
            i = np.unravel_index(np.argmax(abs(a - b)), a.shape)
            raise Bad("point %d triplet %s: Python %.6e C %.6e"
                      % (gp, it.get_triplets_at_q()[0][i[0]], b[i], a[i]))
        obs.step(len(a))
        obs.outcome(vc.rd(a, 5))
    obs.state((case["xtal"], tuple(np.ravel(case["mesh"]))))


def run_const(case, obs):
    ph3 = xtal.phono3py(case["xtal"], case["smat"])
    ph3.mesh_numbers = case["mesh"]
    ph3.init_phph_interaction(constant_averaged_interaction=case["const"])
    it = ph3.phph_interaction
    for gp in points(it, "all"):
        it.set_grid_point(gp)
        it.run()
        if abs(it.interaction_strength - case["const"] / np.prod(case["mesh"])).max() > 1e-12:
            raise Bad("constant interaction at %d" % gp)
        obs.step()
    obs.state(case["const"])
    obs.outcome(case["const"])


def run_gauge(case, obs):
    """Squares summed over degenerate sets do not depend on the gauge of modes.

    Eigenvectors of each degenerate set are rotated by a fixed unitary, other
    ones get a phase.
    """
    ph3, it, ref = setup(case)
    it.run_phonon_solver()
    f, e, _ = it.get_phonons()
    deg = []
    for g in range(len(f)):
        s, k = [], 0
        while k < ref.nb:
            m = k
            while m + 1 < ref.nb and abs(f[g, m + 1] - f[g, k]) < 1e-4:
                m += 1
            s.append(list(range(k, m + 1)))
            k = m + 1
        deg.append(s)

    def collect():
        out = []
        for gp in points(it, "ir"):
            it.set_grid_point(gp)
            it.run()
            for t, v in zip(it.get_triplets_at_q()[0], it.interaction_strength):
                a = np.add.reduceat(v, [s[0] for s in deg[t[0]]], axis=0)
                a = np.add.reduceat(a, [s[0] for s in deg[t[1]]], axis=1)
                a = np.add.reduceat(a, [s[0] for s in deg[t[2]]], axis=2)
                out.append((gp, t, a))
        return out

    a = collect()
    fa = f.copy()
    ea = e.copy()
    for g in range(len(f)):
        for s in deg[g]:
            n = len(s)
            u = np.linalg.qr(np.array([[np.exp(1j * (1.3 * i * j + 0.7 * g + i))
                                        for j in range(n)] for i in range(n)])
                             + 2 * np.eye(n))[0]
            ea[g][:, s] = e[g][:, s] @ u
    ph3.set_phonon_data(fa, ea, it.bz_grid.addresses)
    for (gp, t, x), (_, _, y) in zip(a, collect()):
        if abs(x - y).max() > 1e-6 * max(abs(x).max(), 1e-30) + 1e-18:
            raise Bad("point %d triplet %s: sums over degenerate sets depend on the gauge" % (gp, t))
        obs.step()
    obs.state((case["xtal"],))
    obs.outcome(vc.rd(a[0][2], 5))


def spaces(tier):
    th = tier == "thorough"

    def smat(x):
        return list(xtal.SMAT[x])

    def options():
        # complete product of options on three small systems
        for x, sm, me, nb in (("tric2", [2, 1, 1], [2, 1, 3], 6), ("sc1", [3, 3, 1], [3, 3, 3], 3),
                              ("te", [1, 1, 1], [2, 2, 2], 9)):
            bsets = [None, [0], [nb - 1], [1, 2], [2, 0], [nb - 1, 1, 1]]
            for comp, r0, symq, bands, opt, cut in itertools.product(
                    (False, True), (True, False), (False, True), bsets, (True, False, None),
                    (1e-4, 4.0)):
                if not th and opt is None and bands is not None:
                    continue
                yield dict(xtal=x, smat=sm, mesh=me, compact=comp, r0=r0, symq=symq, bands=bands,
                           opt=opt, cutoff=cut, masks=[None, "third", "triplet", "band", "all"],
                           points="all" if th and x != "te" else "ir")

    def crystals():
        for x in list(xtal.CELLS) + list(xtal.CONV):
            sm = smat(x)
            big = x in ("wz", "te")
            for me in ([2, 2, 2], [3, 3, 3]) + (([4, 4, 4],) if not big or th else ()):
                for comp, r0 in itertools.product((False, True), (True, False)):
                    if big and me != [2, 2, 2] and not th and (comp or r0):
                        continue
                    yield dict(xtal=x, smat=sm, mesh=me, compact=comp, r0=r0,
                               points="all" if me == [2, 2, 2] and not big else "ir",
                               opt=comp, symq=False)
            yield dict(xtal=x, smat=sm, mesh=8.0 if not big else 6.0, grg=True, compact=True)
            yield dict(xtal=x, smat=sm, mesh=xtal.mesh_c(x, 3 - big, 2 - big), ms=False,
                       symq=True, bands=[0, 2])
            if not big and x not in xtal.CONV:
                yield dict(xtal=x, smat=[3, 1, 2] if not th else [3, 2, 2], mesh=xtal.mesh_c(x, 3, 2),
                           ms=False, compact=True)
                yield dict(xtal=x, smat=[3, 3, 1], psmat=[2, 2, 2], mesh=[3, 3, 3], compact=True,
                           ms=False)
                # wave vectors which do not fit the supercell: triplets of atoms whose
                # mutual vectors are not all the shortest have several phases
                for comp, r0 in itertools.product((False, True), (True, False)):
                    yield dict(xtal=x, smat=[3, 1, 1], mesh=[2, 2, 2], ms=False, compact=comp, r0=r0,
                               symq=comp)
            yield dict(xtal=x, smat=sm, mesh=[2, 2, 2], scale=1.07, compact=bool(big))
        for x in xtal.NAC:
            for nac in ("gonze", "wang"):
                yield dict(xtal=x, smat=smat(x), mesh=[2, 2, 2], nac=nac, points="ir")
                yield dict(xtal=x, smat=smat(x), mesh=[2, 2, 2], nac=nac, dir=[1, 0, 1],
                           points="gamma")

    def py():
        for x in ("tric2", "sc1", "nacl", "hex1"):
            sm = [2, 2, 1] if x in ("nacl", "tric2") else [3, 3, 1]
            for me in ([2, 2, 2], [3, 3, 3], [4, 4, 2] if x in ("tric2", "hex1") else [4, 4, 4]):
                if np.prod(me) > 10 and len(xtal.CELLS[x][1]) > 1:
                    continue
                yield dict(xtal=x, smat=sm, mesh=me, r0=False)
        for x in ("fcc1", "bcc1", "bct1", "tric1"):
            yield dict(xtal=x, smat=[3, 3, 1], mesh=16.0, grg=True, r0=False)

    def gauge():
        for x in ("sc1", "hex1", "cscl", "te", "tric2", "nacl", "hcp"):
            for me in ([2, 2, 2], [3, 3, 3]):
                for r0 in (True, False):
                    yield dict(xtal=x, smat=smat(x) if x != "te" else [1, 1, 1], mesh=me, r0=r0)

    def const():
        for c in (1e-10, 2.5):
            yield dict(xtal="sc1", smat=[2, 2, 2], mesh=[3, 3, 3], const=c)

    return [
        Space("options", options(), run, "full product of options x 5 skip masks on 3 systems",
              chunk=4),
        Space("crystals", crystals(), run, "all crystals, meshes, generalized grids, "
              "supercells, NAC", chunk=2),
        Space("python", py(), run_py, "implementation in Python", chunk=1),
        Space("gauge", gauge(), run_gauge, "rotation of degenerate modes", chunk=1),
        Space("constant", const(), run_const, "constant interaction"),
    ]


if __name__ == "__main__":
    vc.main(globals())
