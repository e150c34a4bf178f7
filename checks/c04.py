"""C04: triplets of a grid point are complete, disjoint and weighted right."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refgrid  # noqa: E402
import xtal  # noqa: E402
import c02  # noqa: E402

PROPERTY = "C04"
TECHNIQUE = ("explicit-state model checking: every triplet set of every grid point of all bounded "
             "grids is computed by the real code and compared with brute-force classes")
LEVEL = "model_checking"
LEVEL_NOTE = ("For each crystal, mesh, option and zone point (surface included) within the bound "
              "all pairs (q',q'') are partitioned by brute force under the stabiliser of q and "
              "the exchange, and compared with the listed triplets, weights and maps; the zone "
              "images are compared with the minimum over all combinations of images.")
ASSUMPTIONS = []


def make(case):
    from phono3py.phonon.grid import BZGrid
    from phonopy.structure.symmetry import Symmetry

    cell = xtal.unitcell(case["xtal"])
    ds = Symmetry(cell).dataset
    g = BZGrid(case["mesh"], lattice=cell.cell, symmetry_dataset=ds,
               is_time_reversal=case.get("gtr", True), use_grg=case.get("grg", False),
               store_dense_gp_map=case["dense"])
    return g, np.linalg.inv(cell.cell)


class Model:
    def __init__(self, g, reclat):
        self.g = g
        self.reclat = reclat
        self.D = np.array(g.D_diag)
        self.n = int(np.prod(self.D))
        D = self.D
        self.a = np.array([(i, j, k) for k in range(D[2]) for j in range(D[1])
                           for i in range(D[0])])
        self.adr = np.array(g.addresses)
        self.b2g = np.array(g.bzg2grg)
        self.L = reclat @ (np.array(g.Q) / D.astype(float))
        self.images = [np.where(self.b2g == k)[0] for k in range(self.n)]
        self.tol = 0.011 * (self.L ** 2).sum(axis=0).max()
        # the tolerance of the code is relative to the reduced microzone
        b, _ = refgrid.reduce_basis(self.L)
        self.tol = 0.011 * (b ** 2).sum(axis=0).max()

    def idx(self, a):
        return np.mod(a, self.D) @ [1, self.D[0], self.D[0] * self.D[1]]

    def classes(self, gr0, rots, tr, swap):
        rr = {tuple(np.ravel(r).tolist()) for r in rots}
        if tr:
            rr |= {tuple(-x for x in t) for t in rr}
        rr = [np.reshape(t, (3, 3)) for t in rr]
        q0 = self.a[gr0]
        stab = [r for r in rr if self.idx(r @ q0) == gr0]
        # orbits of q' under the stabiliser (a group: images are the orbit)
        im = np.array([self.idx(self.a @ r.T) for r in stab])
        orb = im.min(axis=0)
        third = self.idx(-q0 - self.a)
        if swap:
            cls = np.minimum(orb, orb[third])
        else:
            cls = orb
        return orb, cls, third, len(stab)


def same_partition(a, b):
    """Both maps give the same partition."""
    return (len(set(zip(a.tolist(), b.tolist()))) == len(set(a.tolist()))
            == len(set(b.tolist())))


def check(m, gp, tp, w, mt, mq, orb, cls, third, obs, shortest=True):
    n = m.n
    gr0 = m.b2g[gp]
    tp, w, mt, mq = (np.array(x) for x in (tp, w, mt, mq))
    if mt.shape != (n,) or mq.shape != (n,):
        raise Bad("sizes of maps %s %s for %d points" % (mt.shape, mq.shape, n))
    if not same_partition(mt, cls) or (mt[mt] != mt).any():
        raise Bad("point %d: classes of triplets are wrong" % gp)
    if not same_partition(mq, orb) or (mq[mq] != mq).any():
        raise Bad("point %d: classes of q' are wrong" % gp)
    u = np.unique(mt)
    if tp.shape != (len(u), 3) or w.shape != (len(u),):
        raise Bad("point %d: %s triplets of %d classes" % (gp, tp.shape, len(u)))
    cnt = np.bincount(cls, minlength=n)
    if w.sum() != n:
        raise Bad("point %d: sum of weights %d" % (gp, w.sum()))
    if tp.min() < 0 or tp.max() >= len(m.adr):
        raise Bad("point %d: indices of triplets out of range" % gp)
    for i, t in enumerate(tp):
        r = m.b2g[t]
        if r[0] != gr0:
            raise Bad("triplet %s of point %d (%d) begins with %d" % (t, gp, gr0, r[0]))
        if r[2] != third[r[1]]:
            raise Bad("triplet %s of point %d violates momentum conservation" % (t, gp))
        if cls[r[1]] != cls[u[i]]:
            raise Bad("triplet %d %s of point %d is of another class than %d"
                      % (i, t, gp, u[i]))
        if w[i] != cnt[cls[r[1]]]:
            raise Bad("triplet %s of point %d has weight %d, class size %d"
                      % (t, gp, w[i], cnt[cls[r[1]]]))
        if shortest:
            im = [m.adr[m.images[k]] for k in r]
            G = (im[0][:, None, None] + im[1][None, :, None] + im[2][None, None, :])
            v = G.reshape(-1, 3) @ m.L.T
            d = (v * v).sum(axis=1)
            h = m.adr[t].sum(axis=0)
            zero = d.min() < 1e-12
            if zero and h.any():
                raise Bad("triplet %s of point %d has G=%s though G=0 is possible" % (t, gp, h))
            obs.note("umklapp" if h.any() else "normal")
        obs.state((tuple(m.D), int(w[i]), bool(m.adr[t].sum(axis=0).any())))
    obs.step(len(tp))


def run(case, obs):
    from phono3py.phonon3.triplets import (get_all_triplets, get_nosym_triplets_at_q,
                                           get_triplets_at_q)

    try:
        g, reclat = make(case)
    except RuntimeError:
        obs.outcome("refused")
        return
    m = Model(g, reclat)
    ident = np.arange(m.n)
    rots = np.array(g.rotations)
    for gp in range(len(m.adr)):
        gr0 = m.b2g[gp]
        # the first image of a point, or any point of the surface
        for tr, swap in itertools.product((True, False), repeat=2):
            orb, cls, third, ns = m.classes(gr0, rots, tr, swap)
            out = get_triplets_at_q(gp, g, is_time_reversal=tr, swappable=swap)
            check(m, gp, *out, orb, cls, third, obs)
            obs.outcome((vc.rd(out[0]), vc.rd(out[1])))
            obs.state(("stab", ns, len(out[0])))
        # explicit rotations (a subgroup)
        orb, cls, third, ns = m.classes(gr0, [np.eye(3, dtype=int)], True, True)
        out = get_triplets_at_q(gp, g, reciprocal_rotations=[np.eye(3, dtype=int)])
        check(m, gp, *out, orb, cls, third, obs, shortest=False)
        out = get_nosym_triplets_at_q(gp, g)
        check(m, gp, *out, ident, ident, third, obs)
        al = get_all_triplets(gp, g)
        if not np.array_equal(al, out[0]):
            raise Bad("point %d: the two full lists of triplets differ" % gp)


def run_api(case, obs):
    """Triplets held by the interaction and joint-DOS objects."""
    ph3 = xtal.phono3py(case["xtal"], (1, 1, 1), is_mesh_symmetry=case["ms"], with_fc=False,
                        is_symmetry=case["s"])
    try:
        ph3.mesh_numbers = case["mesh"]
    except RuntimeError as e:
        if "symmetry is broken" not in str(e):
            raise
        obs.note("refused")
        return
    fc2, fc3 = xtal.model(case["xtal"], (1, 1, 1))
    ph3.fc2, ph3.fc3 = fc2, fc3
    ph3.init_phph_interaction()
    it = ph3.phph_interaction
    g = it.bz_grid
    m = Model(g, np.linalg.inv(ph3.primitive.cell))
    rots = np.array(g.rotations) if case["s"] else np.array([np.eye(3, dtype=int)])
    if case["jd"]:
        from phono3py import Phono3pyJointDos

        pj = Phono3pyJointDos(ph3.phonon_supercell, ph3.phonon_primitive, ph3.fc2,
                              mesh=case["mesh"], is_mesh_symmetry=case["ms"],
                              is_symmetry=case["s"], log_level=0)
        pj.initialize(case["mesh"])
    order = list(range(len(m.adr)))
    if case["rev"]:
        order = order[::-1]
    for gp in order:
        gr0 = m.b2g[gp]
        if case["ms"]:
            orb, cls, third, _ = m.classes(gr0, rots, True, True)
        else:
            ident = np.arange(m.n)
            _, _, third, _ = m.classes(gr0, rots, True, True)
            orb = cls = ident
        for store in (True, False):
            it.set_grid_point(gp, store_triplets_map=store)
            tp, w, mt, mq = it.get_triplets_at_q()
            if store:
                ref = (tp, w, mt, mq)
                check(m, gp, tp, w, mt, mq, orb, cls, third, obs)
            else:
                if not (np.array_equal(tp, ref[0]) and np.array_equal(w, ref[1])):
                    raise Bad("triplets differ when maps are not stored")
                if mt is not None or mq is not None:
                    raise Bad("maps stored though not asked for")
        obs.outcome((vc.rd(tp), vc.rd(w)))
    if case["jd"]:
        jdos = pj._jdos if hasattr(pj, "_jdos") else None
        if jdos is not None:
            for gp in order:
                jdos.set_grid_point(gp)
                tp, w = jdos.get_triplets_at_q()[:2]
                it.set_grid_point(gp)
                ref = it.get_triplets_at_q()
                if not (np.array_equal(tp, ref[0]) and np.array_equal(w, ref[1])):
                    raise Bad("joint DOS at %d: triplets differ from those of the interaction"
                              % gp)
                obs.note("jdos")


def run_direction(case, obs):
    """Gamma point with a direction of approach: only its stabiliser is used."""
    from phonopy.structure.symmetry import Symmetry

    ph3 = xtal.phono3py(case["xtal"], (1, 1, 1), nac="gonze", use_grg=case["grg"],
                        with_fc=False)
    try:
        ph3.mesh_numbers = case["mesh"]
    except RuntimeError as e:
        if "symmetry is broken" not in str(e):
            raise
        obs.note("refused")
        return
    ph3.fc2, ph3.fc3 = xtal.model(case["xtal"], (1, 1, 1))
    d = np.array(case["d"], dtype=float)
    ph3.init_phph_interaction(nac_q_direction=d)
    it = ph3.phph_interaction
    g = it.bz_grid
    m = Model(g, np.linalg.inv(ph3.primitive.cell))
    ops = Symmetry(ph3.primitive).dataset.rotations
    recs = {tuple(np.rint(np.linalg.inv(r).T).astype(int).ravel().tolist()) for r in ops}
    recs |= {tuple(-x for x in t) for t in recs}
    Q = np.array(g.Q).astype(float)
    DQ = np.diag(m.D) @ np.linalg.inv(Q)
    rots, full = [], []
    for t in sorted(recs):
        r = np.reshape(t, (3, 3))
        x = DQ @ r @ np.linalg.inv(DQ)
        if np.abs(x - np.rint(x)).max() > 1e-6:
            continue  # not an operation of the grid
        x = np.rint(x).astype(int)
        full.append(x)
        if np.abs(r @ d - d).max() < 1e-8:
            rots.append(x)
    gam = np.where((m.adr == 0).all(axis=1))[0][0]
    gps = [gam] + [x for x in range(len(m.adr)) if x != gam][:: max(1, len(m.adr) // 3)]
    for again in range(2):
        orb, cls, third, _ = m.classes(m.b2g[gam], rots, False, True)
        it.nac_q_direction = d
        it.set_grid_point(gam, store_triplets_map=True)
        out = it.get_triplets_at_q()
        check(m, gam, *out, orb, cls, third, obs)
        obs.outcome((vc.rd(out[0]), vc.rd(out[1])))
        obs.state(("dir", len(rots), len(full), len(out[0])))
        # without direction, and other points: the whole group
        it.nac_q_direction = None
        for gp in gps:
            orb, cls, third, _ = m.classes(m.b2g[gp], full, True, True)
            it.set_grid_point(gp, store_triplets_map=True)
            check(m, gp, *it.get_triplets_at_q(), orb, cls, third, obs)


def spaces(tier):
    th = tier == "thorough"
    names = list(xtal.CELLS)

    def meshes():
        for x in names:
            for me in itertools.product(range(1, 5 if th else 4), repeat=3):
                for de in (True, False):
                    yield dict(xtal=x, mesh=list(me), dense=de)
            for me in ([4, 4, 4], [4, 4, 2], [5, 5, 5], [5, 5, 3]) + (
                    ([6, 6, 6],) if th else ()):
                for de in (True, False):
                    if me[0] > 4 and not th and x not in ("fcc1", "hex1", "tric1", "te", "rhom1"):
                        continue
                    yield dict(xtal=x, mesh=me, dense=de)

    def notr():
        for x in names:
            for me in ([2, 2, 2], [3, 3, 3], [4, 4, 2], [4, 4, 4]):
                yield dict(xtal=x, mesh=me, dense=True, gtr=False)

    def grg():
        for x in names:
            for le in range(4, 20 if th else 14, 2):
                yield dict(xtal=x, mesh=float(le), dense=bool(le % 4), grg=True)

    def api():
        for x in ("sc1", "fcc1", "hex1", "tric1", "mono1", "te", "nacl", "wz"):
            for me in ([2, 2, 2], [3, 3, 3], [4, 4, 2] if x not in ("fcc1", "nacl", "mono1")
                       else [4, 4, 4]):
                for ms in (True, False):
                    for s in (True, False):
                        yield dict(xtal=x, mesh=me, ms=ms, s=s, rev=ms, jd=True)

    def direction():
        for x in ("nacl", "zb", "cscl", "wz", "tric2"):
            for d in itertools.product((-1, 0, 1), repeat=3):
                if not any(d) or (not th and x == "tric2" and d > (0, 0, 1)):
                    continue
                for me in ([3, 3, 3], [4, 4, 2] if x in ("wz", "tric2") else [4, 4, 4]):
                    yield dict(xtal=x, mesh=me, grg=False, d=d)
                for le in (8.0, 12.0) + ((16.0, 20.0) if th else ()):
                    yield dict(xtal=x, mesh=le, grg=True, d=d)

    return [
        Space("direction", direction(), run_direction, "Gamma point with all directions "
              "{-1,0,1}^3, regular and generalized grids, 5 crystals"),
        Space("meshes", meshes(), run, "22 crystals, all meshes 1..%d^3 and larger; all zone "
              "points; time reversal, exchange on/off" % (4 if th else 3), chunk=1),
        Space("no-time-reversal", notr(), run, "group without time reversal"),
        Space("generalized", grg(), run, "generalized grids by length"),
        Space("api", api(), run_api, "interaction and joint DOS objects, with and without mesh "
              "symmetry, both orders of points"),
    ]


if __name__ == "__main__":
    vc.main(globals())
