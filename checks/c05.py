"""C05: integration weights equal the exact tetrahedron or Gaussian weights."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C05"
TECHNIQUE = ("explicit-state model checking: all triplets, band pairs and frequency points of all "
             "bounded grids are evaluated by the real code on quantised dispersions and compared "
             "with a B-spline model of the linear tetrahedron")
LEVEL = "model_checking"
LEVEL_NOTE = ("All orderings and degeneracies of four vertex values on small integer levels are "
              "enumerated for the tetrahedron formulae; all triplets of all grid points of the "
              "bounded grids, both storages, both batch modes, for the assembled weights. Oracle: "
              "the density of a linear function on a simplex is a B-spline whose knots are the "
              "vertex values (no formula shared with the code); tetrahedra and neighbours are "
              "recomputed from the lattice.")
ASSUMPTIONS = ["weights at a frequency exactly equal to the value of a vertex are compared in one "
               "space only (known finding omega-on-vertex)"]

TOL = 1e-9


def mspline(x, t):
    """Normalised B-spline (integral 1); knots t (..., k+1) sorted; x broadcast."""
    n = t.shape[-1] - 1
    x = np.broadcast_to(x, t.shape[:-1])
    m = []
    for i in range(n):
        w = t[..., i + 1] - t[..., i]
        inside = (x >= t[..., i]) & (x < t[..., i + 1])
        m.append(np.where(inside, 1 / np.where(w > 0, w, 1), 0.0))
    for k in range(2, n + 1):
        new = []
        for i in range(n - k + 1):
            w = t[..., i + k] - t[..., i]
            v = ((x - t[..., i]) * m[i] + (t[..., i + k] - x) * m[i + 1])
            new.append(np.where(w > 0, k / (k - 1.0) * v / np.where(w > 0, w, 1), 0.0))
        m = new
    return m[0]


def vertex_weight(om, v):
    """Weight of vertex 0 of tetrahedra v (..., 4) at om, tetrahedron volume 1."""
    t = np.sort(np.concatenate([v, v[..., :1]], axis=-1), axis=-1)
    return mspline(om, t) / 4


def vertex_cumulative(om, v):
    """Integral of vertex_weight up to om, by exact piecewise-quadratic/cubic quadrature.

    The spline has degree 3 on each interval: 2-point Gauss-Legendre is exact up to 3.
    """
    t = np.sort(np.concatenate([v, v[..., :1]], axis=-1), axis=-1)
    om = np.broadcast_to(om, t.shape[:-1])
    s = np.zeros(t.shape[:-1])
    g = np.array([-1, 1]) / np.sqrt(3)
    flat = t[..., -1] == t[..., 0]
    for i in range(4):
        a = np.minimum(t[..., i], om)
        b = np.minimum(t[..., i + 1], om)
        for x in g:
            s += (b - a) / 2 * mspline((a + b) / 2 + x * (b - a) / 2, t)
    s = np.where(flat, om >= t[..., 0], s)
    return s / 4


def on_vertex(om, v):
    """om is the value of a vertex of the tetrahedra v (..., 4)."""
    return (abs(v - om) < 1e-12).any(axis=-1)


def tetrahedra_of(diag):
    """The 24 tetrahedra around the origin for main diagonal ``diag`` (corner 0..7, 1 of 4)."""
    a = np.array(diag)
    out = set()
    for perm in itertools.permutations(range(3)):
        p = a.copy()
        vs = [p.copy()]
        for k in perm:
            p[k] = 1 - p[k]
            vs.append(p.copy())
        vs = np.array(vs)
        for o in vs:
            out.add(frozenset(map(tuple, (vs - o).tolist())))
    return out


DIAG = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]  # one end of each main diagonal
TETS = {d: tetrahedra_of(d) for d in DIAG}


def check_geometry(mz, rel):
    """rel (24,4,3) are the tetrahedra of a shortest main diagonal of microzone mz (columns)."""
    rel = np.array(rel)
    if rel.shape != (24, 4, 3) or rel[:, 0].any():
        raise Bad("tetrahedra do not begin at the central point")
    got = {frozenset(map(tuple, t.tolist())) for t in rel}
    ln = {}
    for d in DIAG:
        v = mz @ (1 - 2 * np.array(d))
        ln[d] = v @ v
    mn = min(ln.values())
    for d in DIAG:
        if got == TETS[d]:
            if ln[d] > mn * (1 + 1e-7):
                raise Bad("main diagonal %s of length^2 %g is not the shortest, %g"
                          % (d, ln[d], mn))
            return d
    raise Bad("tetrahedra are not those around one main diagonal")


def run_formula(case, obs):
    """Weights of 24 tetrahedra: all value patterns."""
    import phono3py._phono3py as p3
    from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

    lv = case["levels"]
    # 4 vertices take all patterns of levels; the grid 2x1x1... is too small to have 4 free
    # vertices per tetrahedron, so a 3x3x3 grid with F on the tetrahedron of interest is used
    D = np.array([4, 4, 4], dtype="int64")
    adr = np.array([(i, j, k) for k in range(4) for j in range(4) for i in range(4)],
                   dtype="int64")
    gmap = np.arange(65, dtype="int64")
    rel = get_tetrahedra_relative_grid_address(np.array(case["mz"], dtype=float))
    check_geometry(np.array(case["mz"], dtype=float), rel)
    pats = list(itertools.product(lv, repeat=3))
    c = case["c"]
    gp = np.array([21], dtype="int64")  # (1,1,1)
    oms = np.array(case["om"], dtype=float)
    for it in case["tets"]:
        idx = [int(((adr[21] + r) % 4) @ [1, 4, 16]) for r in rel[it]]
        vals = np.full((64, len(pats)), c, dtype=float)
        for b, p in enumerate(pats):
            for k, x in zip(idx[1:], p):
                vals[k, b] = x
        vals[21] = c
        v = np.array([[vals[int(((adr[21] + r) % 4) @ [1, 4, 16])] for r in t] for t in rel])
        v = np.moveaxis(v, 2, 0)  # band, 24, 4
        for fn in ("I", "J"):
            iw = np.zeros((1, len(oms), len(pats)))
            p3.integration_weights_at_grid_points(
                iw, oms, np.array(rel, dtype="int64", order="C"), D, gp,
                np.array(vals, order="C"), adr, gmap, np.arange(64, dtype="int64"), 2, fn)
            for k, om in enumerate(oms):
                f = vertex_weight if fn == "I" else vertex_cumulative
                ref = f(om, v).sum(axis=1) / 6
                amb = on_vertex(om, v).any(axis=1)
                if not np.isfinite(iw).all():
                    raise Bad("non-finite weight at om=%g %s" % (om, fn))
                dev = abs(iw[0, k] - ref)
                if case.get("on"):
                    dev[~amb] = 0
                    # a jump of the weight itself has no value
                    t = np.concatenate([v, v[..., :1]], axis=-1)
                    dev[((abs(t - om) < 1e-12).sum(axis=-1) >= 4).any(axis=1)] = 0
                    if dev.max() > TOL:
                        b = int(dev.argmax())
                        raise Bad("%s weight at %g with vertices %s, centre %g: %.12g, exact %.12g"
                                  % (fn, om, pats[b], c, iw[0, k, b], ref[b]),
                                  key="omega-on-vertex")
                dev[amb] = 0
                if dev.max() > TOL:
                    b = int(dev.argmax())
                    raise Bad("%s weight at %g with vertices %s, centre %g: %.12g, exact %.12g"
                              % (fn, om, pats[b], c, iw[0, k, b], ref[b]))
                obs.step(len(pats))
                obs.state((fn, om, case["c"], it))
            obs.outcome(vc.rd(iw))


class PP:
    """Stand-in for Interaction/JointDos: grid, triplets, phonons."""

    def __init__(self, g, triplets, freqs):
        self.bz_grid = g
        self._t = triplets
        self._f = freqs

    def get_triplets_at_q(self):
        return self._t, None, None, None

    def get_phonons(self):
        return self._f, None, None

    def run_phonon_solver(self, grid_points=None):
        pass


def make_grid(case):
    from phono3py.phonon.grid import BZGrid
    from phonopy.structure.symmetry import Symmetry

    cell = xtal.unitcell(case["xtal"])
    ds = Symmetry(cell).dataset
    g = BZGrid(case["mesh"], lattice=cell.cell, symmetry_dataset=ds,
               use_grg=case.get("grg", False), store_dense_gp_map=case["dense"],
               force_SNF=case.get("snf", False))
    return g, np.linalg.inv(cell.cell)


class GridModel:
    """q-points of the grid by integer arithmetic on the grid lattice."""

    def __init__(self, g, reclat):
        self.g = g
        self.D = np.array(g.D_diag)
        self.n = int(np.prod(self.D))
        self.Q = np.array(g.Q)
        self.b2g = np.array(g.bzg2grg)
        self.q = np.array(g.addresses) @ (self.Q / self.D.astype(float)).T
        self.mz = np.array(g.microzone_lattice)
        self.step = np.linalg.inv(reclat) @ self.mz  # columns: microzone in reduced q
        if abs(abs(np.linalg.det(self.step)) * self.n - 1) > 1e-8:
            raise Bad("microzone has not 1/N of the volume of the zone")
        self.Qinv = np.rint(np.linalg.inv(self.Q)).astype(int)

    def index(self, q):
        a = (q @ self.Qinv.T) * self.D
        r = np.rint(a).astype(int)
        if abs(a - r).max() > 1e-6:
            raise Bad("a neighbouring point is not on the grid")
        return np.mod(r, self.D) @ [1, self.D[0], self.D[0] * self.D[1]]


def dispersion(n, nb, kind):
    """Values per grid point: quantised, with many degeneracies, deterministic."""
    i = np.arange(n)
    if kind == "levels":
        f = np.array([(i * (2 * b + 3) + i // (b + 2)) % (4 + b) for b in range(nb)], dtype=float)
    elif kind == "negative":
        f = np.array([(i * (2 * b + 3) + i // (b + 2)) % (4 + b) - 1 for b in range(nb)],
                     dtype=float)
    else:  # generic
        f = np.array([np.mod(np.sqrt(2 + b) * (i + 1) * (i + 7 * b + 2), 3.0)
                      for b in range(nb)])
    return f.T.copy()


def run_grid(case, obs):
    from phono3py.other.tetrahedron_method import (get_integration_weights,
                                                   get_tetrahedra_relative_grid_address,
                                                   get_unique_grid_points)
    from phono3py.phonon3.triplets import (get_triplets_at_q, get_nosym_triplets_at_q,
                                           get_triplets_integration_weights)
    from phono3py.phonon.func import gaussian

    try:
        g, reclat = make_grid(case)
    except RuntimeError:
        obs.note("refused")
        return
    m = GridModel(g, reclat)
    rel = get_tetrahedra_relative_grid_address(m.mz)
    d = check_geometry(m.mz, rel)
    obs.state((case["xtal"], d))
    shift = rel @ m.step.T  # (24,4,3) in reduced q
    nb = case["nb"]
    fg = dispersion(m.n, nb, case["kind"])
    fb = np.array(fg[m.b2g], dtype="double", order="C")
    if case["kind"] == "generic":
        oms = np.array([0.1, 0.77, 1.3, 2.21, 3.05, 4.6, 5.9, 7.0])
    else:
        oms = np.array([-0.5, 0.0, 0.25, 0.5, 1.0, 1.75, 2.5, 2.125, 3.5, 4.625, 6.5, 12.0])
    clip = np.maximum(fg, 0)
    gps = range(len(m.b2g)) if case["all"] else sorted({0, 1, len(m.b2g) - 1, len(m.b2g) // 2})
    for gp in gps:
        tp = (get_nosym_triplets_at_q if case["nosym"] else get_triplets_at_q)(gp, g)[0]
        pp = PP(g, tp, fb)
        v1 = m.index(m.q[tp[:, 1]][:, None, None] + shift)  # (ntp,24,4)
        v2 = m.index(m.q[tp[:, 2]][:, None, None] - shift)
        f1, f2 = clip[v1], clip[v2]  # (ntp,24,4,nb)
        # exact
        F1 = f1[..., :, None]
        F2 = f2[..., None, :]
        shp = (len(tp), len(oms), nb, nb)
        ref = []
        amb = np.zeros(shp, dtype=bool)
        for comb in (-F1 + F2, F1 - F2, F1 + F2):
            w = np.empty(shp)
            v = np.moveaxis(comb, 2, -1)  # ntp,24,nb,nb,4
            for k, om in enumerate(oms):
                w[:, k] = vertex_weight(om, v).sum(axis=1) / 6
                amb[:, k] |= on_vertex(om, v).any(axis=1)
            ref.append(w)
        exact = [ref[2], ref[0] - ref[1], ref[0] + ref[1] + ref[2]]
        for ncol in (2, 3):
            gg, gz = get_triplets_integration_weights(pp, oms, None,
                                                      is_collision_matrix=(ncol == 3))
            compare(gg, gz, exact, amb, ncol, shp, obs, "tetrahedron gp=%d" % gp)
        # batches
        for sel in ([0], [3, 1], list(range(1, len(oms), 2))):
            g2, gz2 = get_triplets_integration_weights(pp, np.array(oms[sel]), None)
            if not (np.array_equal(g2, gg[:2][:, :, sel]) and np.array_equal(gz2, gz[:, sel])):
                raise Bad("gp=%d: weights depend on the batch of frequencies" % gp)
        k = len(tp) // 2
        ppp = PP(g, np.array(tp[k:k + 1], order="C"), fb)
        g2, gz2 = get_triplets_integration_weights(ppp, oms, None)
        if not (np.array_equal(g2, gg[:2, k:k + 1]) and np.array_equal(gz2, gz[k:k + 1])):
            raise Bad("gp=%d: weights depend on the batch of triplets" % gp)
        if case.get("py") and case["kind"] != "negative":
            g2, _ = get_triplets_integration_weights(pp, oms, None, lang="Py")
            e = abs(g2 - np.array(exact[:2]))
            e[:, amb] = 0
            # python route of phonopy is compared where no vertex is on the frequency
            if case["kind"] == "generic" and e.max() > 1e-7:
                raise Bad("gp=%d: python weights differ from exact by %g" % (gp, e.max()))
        # electron-phonon type
        import phono3py._phono3py as p3
        g4 = np.zeros((1,) + shp)
        z4 = np.zeros(shp, dtype="byte")
        p3.triplets_integration_weights(
            g4, z4, oms, np.array(rel @ g.P.T, dtype="int64", order="C"), g.D_diag,
            np.array(tp, dtype="int64", order="C"), fb, fb, g.addresses, g.gp_map,
            g.store_dense_gp_map * 1 + 1, 4)
        # both points move together (electrons k, k+q)
        v2e = m.index(m.q[tp[:, 2]][:, None, None] + shift)
        v = np.moveaxis(-fg[v1][..., :, None] + fg[v2e][..., None, :], 2, -1)
        w = np.empty(shp)
        am = np.zeros(shp, dtype=bool)
        for k, om in enumerate(oms):
            w[:, k] = vertex_weight(om, v).sum(axis=1) / 6
            am[:, k] = on_vertex(om, v).any(axis=1)
        compare(g4, z4, [w], am, 1, shp, obs, "delta(f1-f2) gp=%d" % gp)
        # Gaussian
        for sigma, cut in ((0.3, None), (0.3, 3.0), (1.1, 1.0), (0.05, 4.0)):
            x1 = fb[tp[:, 1]][:, None, :, None]
            x2 = fb[tp[:, 2]][:, None, None, :]
            o = oms[None, :, None, None]
            ds = [o + x1 - x2, o - x1 + x2, o - x1 - x2]
            gs = [np.exp(-x * x / 2 / sigma ** 2) / np.sqrt(2 * np.pi) / sigma for x in ds]
            zero = np.zeros(shp, dtype=bool)
            edge = np.zeros(shp, dtype=bool)
            if cut is not None:
                c = cut * sigma  # the cutoff is in units of sigma
                zero = (abs(ds[0]) > c) & (abs(ds[1]) > c) & (abs(ds[2]) > c)
                edge = ((abs(abs(ds[0]) - c) < 1e-9) | (abs(abs(ds[1]) - c) < 1e-9)
                        | (abs(abs(ds[2]) - c) < 1e-9))
                gs = [np.where(zero, 0, x) for x in gs]
            ex = [gs[2], gs[0] - gs[1], gs[0] + gs[1] + gs[2]]
            for ncol in (2, 3):
                gg2, gz2 = get_triplets_integration_weights(
                    pp, oms, sigma, sigma_cutoff=cut,
                    is_collision_matrix=(ncol == 3))
                compare(gg2, gz2, ex, edge, ncol, shp, obs,
                        "gaussian %g cutoff %s gp=%d" % (sigma, cut, gp))
                if cut is not None and ((np.array(gz2, dtype=bool) != zero) & ~edge).any():
                    raise Bad("gp=%d: flags of zero weights differ from the cutoff" % gp)
            if cut is None:
                gp_, _ = get_triplets_integration_weights(pp, oms, sigma, lang="Py")
                if abs(gp_ - np.array(ex[:2])).max() > 1e-9:
                    raise Bad("gp=%d: python Gaussian weights differ" % gp)
    # one-phonon weights (density-of-states type): whole grid, parts, mapped points
    v = m.index(m.q[np.arange(len(m.b2g))][:, None, None] + shift)
    vv = np.moveaxis(fg[v], 3, 1)  # nbz, nb, 24, 4
    for fn in ("I", "J"):
        f = vertex_weight if fn == "I" else vertex_cumulative
        ref = np.stack([f(om, vv).sum(axis=2) / 6 for om in oms], axis=1)
        am = np.stack([on_vertex(om, vv).any(axis=2) for om in oms], axis=1)
        allp = np.arange(len(m.b2g))
        for gps, mp, val in (
                (None, None, fb),
                (allp[::-1].copy(), None, fb),
                (allp[1::2], None, np.asfortranarray(fb)),
                (None, np.array(m.b2g), fg),
                (np.arange(0, len(allp), 3, dtype="int32"), np.array(m.b2g, dtype="int32"), fg)):
            if gps is not None and len(gps) == 0:
                continue
            iw = get_integration_weights(oms, val, g, grid_points=gps, bzgp2irgp_map=mp,
                                         function=fn)
            sel = np.array(g.grg2bzg) if gps is None else np.array(gps)
            e = abs(iw - ref[sel])
            e[am[sel]] = 0
            if not np.isfinite(iw).all() or e.max() > TOL:
                raise Bad("one-phonon weights %s differ by %g" % (fn, e.max()))
            obs.step(iw.size)
        obs.outcome(vc.rd(iw))
    # points needed for the weights
    for gps in ([0], [1 % m.n, 0], list(range(m.n))[::2]):
        b = np.array(g.grg2bzg)[gps]
        u = set(m.b2g[get_unique_grid_points(b, g)].tolist())
        need = set(m.index(m.q[b][:, None, None] + shift).ravel().tolist())
        if not need <= u:
            raise Bad("points %s needed for the weights are not listed" % sorted(need - u)[:5])
        if u != need:
            obs.note("more-neighbours")


def compare(gg, gz, exact, amb, ncol, shp, obs, what):
    if gg.shape != (ncol,) + shp:
        raise Bad("%s: shape %s" % (what, gg.shape))
    if not np.isfinite(gg).all():
        raise Bad("%s: non-finite weights" % what)
    for a in range(ncol):
        e = abs(gg[a] - exact[a])
        e[amb] = 0
        if e.max() > TOL:
            k = np.unravel_index(e.argmax(), e.shape)
            raise Bad("%s: weight %d of triplet %d, frequency %d, bands %d,%d is %.10g, exact %.10g"
                      % ((what, a) + k + (gg[a][k], exact[a][k])))
    z = np.array(gz, dtype=bool)
    if gg[:, z].any():
        raise Bad("%s: weights flagged zero are not" % what)
    if not set(np.unique(gz).tolist()) <= {0, 1}:
        raise Bad("%s: flags are not 0 or 1" % what)
    obs.note("zero-flag", int(z.sum()))
    obs.step(gg.size)
    obs.outcome(vc.rd(gg[0].sum()))


def spaces(tier):
    th = tier == "thorough"
    names = list(xtal.CELLS)
    mzs = [np.eye(3).tolist(), [[1, .3, .3], [0, 1, .3], [0, 0, 1]],
           [[1, -.3, -.3], [0, 1, .3], [0, 0, 1]],
           [[1, -.3, .3], [0, 1, -.3], [0, 0, 1]],
           [[1, .3, -.3], [0, 1, -.3], [0, 0, 1]]]

    def formula():
        lv = [0, 1, 2, 3] if not th else [0, 1, 2, 3, 4]
        om = [-0.5, 0, 0.5, 1, 1.3, 1.5, 2, 2.25, 2.75, 3, 3.5] + ([4, 3.9] if th else [])
        for mz in mzs:
            for c in lv:
                for t0 in range(0, 24, 4 if not th else 2):
                    if not th and t0 not in (0, 12) and mz != mzs[0]:
                        continue
                    yield dict(mz=mz, c=c, levels=lv, om=om, tets=[t0, t0 + 1])

    def grid():
        for x in names:
            for me in ([1, 1, 1], [2, 2, 2], [3, 3, 3], [1, 2, 3], [4, 4, 2], [4, 3, 1]) + (
                    ([5, 5, 5], [4, 4, 4], [5, 4, 3]) if th else ()):
                n = int(np.prod(me))
                for de in (True, False):
                    for kind in ("levels", "generic", "negative"):
                        if not th and de and kind == "negative":
                            continue
                        yield dict(xtal=x, mesh=me, dense=de, nb=2 if n > 8 else 3, kind=kind,
                                   all=n <= 8 or (th and n <= 30), nosym=n <= 4,
                                   py=n <= 8)
        for x in names:
            for le in (6.0, 9.0, 12.0) if th else (6.0, 9.0):
                for snf in (False, True):
                    yield dict(xtal=x, mesh=le, grg=True, snf=snf, dense=snf, nb=2,
                               kind="levels", all=False, nosym=False, py=False)
                    if th:
                        yield dict(xtal=x, mesh=le, grg=True, snf=snf, dense=not snf, nb=2,
                                   kind="generic", all=False, nosym=False, py=False)

    return [
        Space("formulae", formula(), run_formula, "all values of the vertices of a tetrahedron "
              "on %d levels x centre value x all 24 tetrahedra x frequencies on, between and "
              "outside the levels; five microzones" % (5 if th else 4)),
        Space("on-vertex", [dict(mz=mzs[0], c=0, levels=[0, 1, 2, 3], om=[1.0], tets=[0],
                                 on=True)], run_formula,
              "frequency equal to the value of a vertex"),
        Space("grids", grid(), run_grid, "22 crystals x meshes, generalized grids; all triplets "
              "of zone points, band pairs; tetrahedron, Gaussian and cutoff"),
    ]


if __name__ == "__main__":
    vc.main(globals())
