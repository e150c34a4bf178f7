"""C02: irreducible grid points represent the whole grid exactly once."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refgrid  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C02"
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of bounded crystals x meshes "
             "x grid points x operations on the real code against a brute-force orbit model")
LEVEL = "model_checking"
LEVEL_NOTE = ("The point group of each crystal is found by brute force over all integer matrices "
              "with elements -1..1; orbits of all q-points are closed under it and compared with "
              "the tables of the real code for every mesh, shift, time-reversal setting and "
              "storage convention of the bound; every point is rotated by every operation.")
ASSUMPTIONS = ["spglib finds the space group of the small ideal crystals (compared with brute "
               "force: a difference is reported)"]

_G = {}


def group(name, tr):
    k = (name, tr)
    if k not in _G:
        lat, sym, pos = xtal.CELLS[name]
        _G[k] = refgrid.reciprocal_group(refgrid.crystal_rotations(lat, sym, pos), tr)
    return _G[k]


def run(case, obs):
    from phono3py.phonon.grid import BZGrid
    from phonopy.structure.symmetry import Symmetry

    cell = xtal.unitcell(case["xtal"])
    sym = case.get("sym", True)
    ds = Symmetry(cell).dataset if sym else None
    if sym:
        grp = group(case["xtal"], case["tr"])
    else:
        grp = refgrid.reciprocal_group([np.eye(3, dtype=int)], case["tr"])
    kw = dict(lattice=cell.cell, symmetry_dataset=ds, is_time_reversal=case["tr"],
              is_shift=case.get("shift"), store_dense_gp_map=case["dense"],
              use_grg=case.get("grg", False), force_SNF=case.get("snf", False),
              SNF_coordinates=case.get("coord", "reciprocal"))
    mats = np.array([np.reshape(t, (3, 3)) for t in sorted(grp)])
    shift = np.array(case.get("shift") or [0, 0, 0])
    try:
        g = BZGrid(case["mesh"], **kw)
    except RuntimeError as e:
        # may be refused only if the grid is not invariant
        m = np.ravel(case["mesh"])
        if len(m) == 1 and not case["grg"]:
            from phonopy.structure.grid_points import length2mesh

            m = np.array(length2mesh(m[0], cell.cell, rotations=ds.rotations))
        if len(m) != 3:
            raise Bad("grid of %s refused: %s" % (case["mesh"], e))
        D = m
        x = np.einsum("i,nij,j->nij", D, mats, 1.0 / D)
        inv = np.abs(x - np.rint(x)).max() < 1e-9
        if inv:
            d = np.rint(x).astype(int) @ shift - shift
            inv = (d % 2 == 0).all()
        if inv:
            raise Bad("invariant grid refused: %s" % e)
        obs.outcome("refused")
        obs.state(("refused", tuple(m)))
        obs.step()
        return
    check(g, mats, np.linalg.inv(cell.cell), shift, obs, case.get("all_rot", True))


def check(g, mats, reclat, shift, obs, all_rot=True):
    from phono3py.phonon.grid import get_grid_points_by_rotations, get_ir_grid_points

    D = np.array(g.D_diag)
    n = int(np.prod(D))
    Q, P = np.array(g.Q), np.array(g.P)
    PS = P @ shift
    Qinv = np.rint(np.linalg.inv(Q)).astype(int)
    QD = Q / D.astype(float)
    rops = np.array(g.reciprocal_operations)
    have = [tuple(r.ravel().tolist()) for r in rops]
    if len(set(have)) != len(have) or set(have) != {tuple(m.ravel().tolist()) for m in mats}:
        raise Bad("group of the grid has %d operations (%d different), the crystal %d"
                  % (len(have), len(set(have)), len(mats)))
    x = np.einsum("i,nij,j->nij", D.astype(float), Qinv @ rops @ Q, 1.0 / D)
    xi = np.rint(x).astype(int)
    if np.abs(x - xi).max() > 1e-7 or any(((r @ PS - PS) % 2).any() for r in xi):
        raise Bad("grid is not invariant under the group but is accepted")
    if (xi != np.array(g.rotations)).any():
        raise Bad("operations in the basis of the grid are wrong")
    rc = np.array(g.rotations_cartesian)
    vc.close(rc, reclat @ rops @ np.linalg.inv(reclat), 1e-8, "cartesian operations")
    # all points of the regular grid, doubled addresses with shift
    a = np.array([(i, j, k) for k in range(D[2]) for j in range(D[1]) for i in range(D[0])])
    rot = np.empty((len(xi), n), dtype=int)
    for i, r in enumerate(xi):
        b = (a * 2 + PS) @ r.T - PS
        assert (b % 2 == 0).all()
        b = np.mod(b // 2, D)
        rot[i] = b @ [1, D[0], D[0] * D[1]]
    orbit = [frozenset(c.tolist()) for c in rot.T]
    irgp, w, irmap = (np.array(v) for v in get_ir_grid_points(g))
    if irmap.shape != (n,):
        raise Bad("size of the map")
    for k in range(n):
        if irmap[k] not in orbit[k]:
            raise Bad("point %d is mapped to %d outside its orbit %s"
                      % (k, irmap[k], sorted(orbit[k])))
        if irmap[irmap[k]] != irmap[k]:
            raise Bad("representative %d of %d is mapped to %d" % (irmap[k], k, irmap[irmap[k]]))
        if len({int(irmap[j]) for j in orbit[k]}) != 1:
            raise Bad("orbit of %d has several representatives" % k)
    obs.step(n)
    if not np.array_equal(np.sort(irgp), np.unique(irmap)):
        raise Bad("irreducible points are not the representatives")
    if len(w) != len(irgp) or w.sum() != n:
        raise Bad("weights sum up to %d of %d" % (w.sum(), n))
    for gp, ww in zip(irgp, w):
        if ww != len(orbit[gp]):
            raise Bad("weight of %d is %d, size of orbit %d" % (gp, ww, len(orbit[gp])))
        obs.state((tuple(D), tuple(PS), len(xi), int(ww)))
    # rotation of points
    adr = np.array(g.addresses)
    b2g = np.array(g.bzg2grg)
    g2b = np.array(g.grg2bzg)
    sub = np.arange(len(xi))[::-1]
    if all_rot:
        for bz in range(len(adr)):
            rp = np.array(get_grid_points_by_rotations(bz, g))
            if not np.array_equal(rp, g2b[rot[:, b2g[bz]]]):
                i = int(np.where(rp != g2b[rot[:, b2g[bz]]])[0][0])
                raise Bad("point %d %s rotated by operation %d gives %s, expected %s"
                          % (bz, adr[bz], i, rp[i], g2b[rot[i, b2g[bz]]]),
                          key="rotation-shift" if PS.any() else None)
            rp2 = np.array(get_grid_points_by_rotations(
                bz, g, reciprocal_rotations=g.rotations[sub]))
            if not np.array_equal(rp2, rp[sub]):
                raise Bad("rotations given explicitly")
            rs = np.array(get_grid_points_by_rotations(bz, g, with_surface=True))
            want = (adr[bz] * 2 + PS) @ np.swapaxes(xi, 1, 2)
            got = adr[rs] * 2 + PS
            if (want != got).any():
                i = int(np.where((want != got).any(axis=1))[0][0])
                raise Bad("zone point %d %s rotated by operation %d gives %s at %s"
                          % (bz, adr[bz], i, rs[i], adr[rs[i]]))
            obs.step(3 * len(xi))
    obs.outcome((tuple(D), tuple(PS), vc.rd(irmap), vc.rd(w)))


def run_api(case, obs):
    """The grid of the calculator object."""
    ph3 = xtal.phono3py(case["xtal"], (1, 1, 1), is_mesh_symmetry=case["ms"],
                        use_grg=case["grg"],
                        SNF_coordinates=case["co"], is_symmetry=case["s"], with_fc=False)
    try:
        ph3.mesh_numbers = case["mesh"]
    except RuntimeError:
        obs.outcome("refused")
        m = np.ravel(case["mesh"])
        if case["grg"] or len(m) == 3 and len(set(m.tolist())) == 1 or not case["s"]:
            raise Bad("grid refused")
        return
    if case["s"]:
        grp = group(case["xtal"], True)
    else:  # no symmetry at all, without time reversal
        grp = refgrid.reciprocal_group([np.eye(3, dtype=int)], False)
    mats = np.array([np.reshape(t, (3, 3)) for t in sorted(grp)])
    D = np.array(ph3.grid.D_diag)
    if not np.array_equal(ph3.mesh_numbers, D):
        raise Bad("mesh numbers %s of grid %s" % (ph3.mesh_numbers, D))
    check(ph3.grid, mats, np.linalg.inv(xtal.unitcell(case["xtal"]).cell),
          np.zeros(3, dtype=int), obs, all_rot=np.prod(D) < 200)


def spaces(tier):
    th = tier == "thorough"
    names = list(xtal.CELLS)
    m = 6 if th else 4

    def meshes():
        for x in names:
            for me in itertools.product(range(1, m + 1), repeat=3):
                for tr in (True, False):
                    yield dict(xtal=x, mesh=list(me), tr=tr,
                               dense=(sum(me) + tr) % 2 == 0)

    def big():
        for x in names:
            for me in ([5, 5, 5], [6, 6, 6], [6, 6, 4], [7, 7, 7], [8, 8, 8], [5, 5, 3]):
                for tr in (True, False):
                    for de in (True, False):
                        yield dict(xtal=x, mesh=me, tr=tr, dense=de)

    def shifts():
        for x in names:
            for me in itertools.product(range(1, (5 if th else 4)), repeat=3):
                if not th and len(set(me)) == 3:
                    continue
                for s in itertools.product((0, 1), repeat=3):
                    for tr in (True, False):
                        yield dict(xtal=x, mesh=list(me), tr=tr, shift=list(s),
                                   dense=(sum(me) + tr) % 2 == 0)

    def nosym():
        for x in ("sc1", "fcc1", "tric1"):
            for me in itertools.product(range(1, 5), repeat=3):
                for tr in (True, False):
                    yield dict(xtal=x, mesh=list(me), tr=tr, sym=False, dense=True)

    def grg():
        for x in names:
            for le in range(3, 30 if th else 19, 2):
                for snf in (False, True):
                    for co in ("reciprocal", "direct"):
                        yield dict(xtal=x, mesh=float(le), tr=True, grg=True, snf=snf,
                                   coord=co, dense=bool((le // 2) % 2), all_rot=le < 16)
                yield dict(xtal=x, mesh=float(le), tr=True, grg=False, dense=True,
                           all_rot=le < 16)

    def api():
        for x in names:
            for me in ([2, 2, 2], [3, 3, 3], [3, 3, 2], [2, 3, 4], 8.0, 13.0):
                for ms in (True, False):
                    for s in (True, False):
                        for gr in ((True, False) if np.ndim(me) == 0 and s else (False,)):
                            yield dict(xtal=x, mesh=me, ms=ms, s=s, grg=gr,
                                       co="direct" if ms else "reciprocal")

    return [
        Space("meshes", meshes(), run, "22 crystals, all meshes 1..%d^3, time reversal on/off; "
              "all points x all operations" % m, chunk=8),
        Space("big-meshes", big(), run, "selected larger meshes"),
        Space("shifts", shifts(), run, "all half shifts", chunk=8),
        Space("nosym", nosym(), run, "no symmetry", chunk=8),
        Space("generalized", grg(), run, "mesh lengths with generalized grids", chunk=4),
        Space("api", api(), run_api, "grids of the calculator"),
    ]


if __name__ == "__main__":
    vc.main(globals())
