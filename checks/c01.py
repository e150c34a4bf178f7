"""C01: the reciprocal grid is complete, its zone points are shortest."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refgrid  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C01"
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of bounded grids on the "
             "real code against an executable reference model")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every lattice of the alphabet (22 crystals + all upper-triangular unimodular "
              "changes of basis with entries -1..1 of 6 of them) x mesh x shift x storage "
              "convention within the bound is built by the real code; every grid point and "
              "address is compared with the brute-force reference. Ties closer than 1e-6 of the "
              "shortest reciprocal vector squared are exact by construction of the lattices.")
ASSUMPTIONS = ["lattice reduction of phonopy (get_reduced_bases) returns a basis of the lattice"]


def lat_of(case):
    lat = np.array(xtal.CELLS[case["xtal"]][0], dtype=float)
    u = case.get("u")
    if u is not None:
        m = np.array([[1, u[0], u[1]], [0, 1, u[2]], [0, 0, 1]])
        lat = m @ lat
    return lat


def run(case, obs):
    from phono3py.phonon.grid import BZGrid

    lat = lat_of(case)
    reclat = np.linalg.inv(lat)  # columns are reciprocal vectors
    mesh = case["mesh"]
    shift = case["shift"]
    g = BZGrid(mesh, lattice=lat, is_shift=shift,
               store_dense_gp_map=case["dense"])
    obs.step()
    D = np.array(g.D_diag)
    n = int(np.prod(D))
    if case.get("gm") is None and D.tolist() != list(mesh):
        raise Bad("mesh %s became %s" % (mesh, D))
    check_grid(g, reclat, np.array(shift or [0, 0, 0]), case["dense"], obs,
               lookup=case.get("lookup", False))


def check_grid(g, reclat, shift, dense, obs, lookup=False):
    D = np.array(g.D_diag)
    n = int(np.prod(D))
    Q = np.array(g.Q)
    adr = np.array(g.addresses)
    b2g = np.array(g.bzg2grg)
    g2b = np.array(g.grg2bzg)
    gpm = np.array(g.gp_map)
    sh = refgrid.Shortest(reclat)
    PS = np.array(g.P) @ shift
    if (np.array(g.PS) != PS).any():
        raise Bad("transformed shift %s, expected %s" % (g.PS, PS))
    QD = Q / D.astype(float)
    vc.close(g.QDinv, QD, 1e-12, "QDinv")
    if len(b2g) != len(adr) or len(g2b) != n:
        raise Bad("sizes of maps: %d %d %d %d" % (len(b2g), len(adr), len(g2b), n))
    # regular-grid number of every address
    red = np.mod(adr, D)
    num = red[:, 0] + D[0] * red[:, 1] + D[0] * D[1] * red[:, 2]
    if (num != b2g).any():
        i = int(np.where(num != b2g)[0][0])
        raise Bad("zone point %d with address %s is congruent with %d, not %d"
                  % (i, adr[i], num[i], b2g[i]))
    if (b2g[g2b] != np.arange(n)).any():
        raise Bad("maps between regular and zone grid are not inverse")
    # blocks
    block = [np.where(b2g == k)[0] for k in range(n)]
    for k in range(n):
        if dense:
            listed = np.arange(gpm[k], gpm[k + 1])
        else:
            listed = np.r_[k, n + np.arange(gpm[8 * n + k], gpm[8 * n + k + 1])]
        if not np.array_equal(np.sort(listed), block[k]):
            raise Bad("images of point %d by the map are %s, by address %s"
                      % (k, listed, block[k]))
    if dense and (gpm[0] != 0 or gpm[-1] != len(adr)):
        raise Bad("ends of the map")
    # near ties are resolved only up to 1 % of the squared microzone length
    loose = 0.011 * ((reclat @ QD) ** 2).sum(axis=0).max()
    Qinv = np.rint(np.linalg.inv(Q)).astype(int)
    for k in range(n):
        a = adr[block[k]]
        if len({tuple(x) for x in a.tolist()}) != len(a):
            raise Bad("repeated image of point %d" % k)
        q = QD @ (a[0] + PS / 2.0)
        G, dmin, dnext = sh(q)
        want = {tuple(((a[0] + D * (Qinv @ x)).astype(int)).tolist()) for x in G}
        have = {tuple(x) for x in a.tolist()}
        if not want <= have:
            raise Bad("point %d: shortest images %s missing in %s"
                      % (k, sorted(want - have), sorted(have)))
        for x in have - want:
            v = reclat @ (QD @ (np.array(x) + PS / 2.0))
            if v @ v > dmin + loose:
                raise Bad("point %d: listed image %s is not shortest (%g > %g)"
                          % (k, x, v @ v, dmin))
        obs.state((tuple(D), len(have), round(dmin, 6)))
        obs.step()
    gam = adr[g.gp_Gamma]
    if (np.mod(gam, D) != 0).any() or g.gp_Gamma != g2b[0]:
        raise Bad("Gamma is %d %s" % (g.gp_Gamma, gam))
    m = np.array(g.microzone_lattice)
    vc.close(m, reclat @ QD @ np.array(g.P), 1e-7, "microzone lattice")
    if lookup:
        r = range(-7, 8)
        allad = np.array(list(itertools.product(r, r, r)))
        got = np.array(g.get_indices_from_addresses(allad))
        if got.shape != (len(allad),):
            raise Bad("shape of looked up indices")
        bad = np.where((np.mod(adr[got] - allad, D) != 0).any(axis=1))[0]
        if len(bad):
            raise Bad("address %s gives point %d of address %s"
                      % (allad[bad[0]], got[bad[0]], adr[got[bad[0]]]))
        one = allad[::7]
        for x in one:
            i = g.get_indices_from_addresses(x)
            if i != g2b[b2g[i]] or (np.mod(adr[i] - x, D) != 0).any():
                raise Bad("address %s gives point %s" % (x, i))
        obs.step(len(allad) + len(one))
    obs.outcome((tuple(D), len(adr), vc.rd(adr), vc.rd(gpm)))


def run_sym(case, obs):
    """Grids of crystals with symmetry and by matrices."""
    from phono3py.phonon.grid import BZGrid
    from phonopy.structure.symmetry import Symmetry

    cell = xtal.unitcell(case["xtal"])
    ds = Symmetry(cell).dataset
    try:
        g = BZGrid(case["mesh"], lattice=cell.cell, symmetry_dataset=ds,
                   use_grg=case["grg"], is_time_reversal=case["tr"],
                   force_SNF=case["snf"], SNF_coordinates=case["coord"],
                   store_dense_gp_map=case["dense"])
    except RuntimeError as e:
        obs.note("refused")
        obs.outcome("refused %s" % e)
        return
    obs.step()
    check_grid(g, np.linalg.inv(cell.cell), np.zeros(3, dtype=int), case["dense"], obs,
               lookup=case["dense"])


def spaces(tier):
    th = tier == "thorough"
    m = 5 if th else 4
    meshes = [list(x) for x in itertools.product(range(1, m + 1), repeat=3)]
    shifts = [None] + [list(x) for x in itertools.product((0, 1), repeat=3)][1:]
    names = list(xtal.CELLS)

    def base():
        for x in names:
            for me in meshes:
                for de in (True, False):
                    yield dict(xtal=x, mesh=me, dense=de, shift=None, lookup=True)

    def shifted():
        for x in ("sc1", "fcc1", "bcc1", "hex1", "rhom1", "mono1", "tric1"):
            for me in meshes:
                if max(me) > (4 if th else 3):
                    continue
                for s in shifts[1:]:
                    for de in (True, False):
                        yield dict(xtal=x, mesh=me, dense=de, shift=s)

    def skew():
        for x in ("sc1", "fcc1", "bcc1", "hex1", "tet1", "tric1"):
            for u in itertools.product((-1, 0, 1), repeat=3):
                for me in itertools.product((2, 3, 4) if th else (1, 2, 4), repeat=3):
                    for de in (True, False):
                        yield dict(xtal=x, u=list(u), mesh=list(me), dense=de, shift=None)

    def big():
        for x in names:
            for me in ([5, 5, 5], [6, 6, 6], [7, 6, 5], [8, 8, 2], [1, 1, 12], [9, 1, 1]) + (
                    ([8, 8, 8], [9, 9, 9], [10, 10, 10]) if th else ()):
                for de in (True, False):
                    yield dict(xtal=x, mesh=list(me), dense=de, shift=None, lookup=True)

    def sym():
        for x in names:
            for me in ([2.0 * k + 3 for k in range(1, 20 if th else 9)]):
                for grg in (True, False):
                    for snf in ((False, True) if grg else (False,)):
                        for co in (("reciprocal", "direct") if grg else ("reciprocal",)):
                            for de in (True, False):
                                yield dict(xtal=x, mesh=me, grg=grg, snf=snf, coord=co,
                                           dense=de, tr=True)

    return [
        Space("meshes", base(), run, "all meshes 1..%d^3, 22 lattices, 2 conventions, "
              "addresses -7..7^3" % m, chunk=16),
        Space("big-meshes", big(), run, "selected larger meshes"),
        Space("shifts", shifted(), run, "7 lattices, all half shifts", chunk=16),
        Space("skew", skew(), run, "all unimodular triangular changes of basis -1..1 of 6 "
              "lattices", chunk=16),
        Space("lengths", sym(), run_sym, "mesh lengths 5..., generalized grids, both SNF "
              "coordinates", chunk=4),
    ]


if __name__ == "__main__":
    vc.main(globals())
