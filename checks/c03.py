"""C03: generalized grids and Smith normal forms are exact."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refgrid  # noqa: E402
import xtal  # noqa: E402
import c01  # noqa: E402
import c02  # noqa: E402

PROPERTY = "C03"
TECHNIQUE = ("explicit-state model checking: all 3x3 integer matrices and grid definitions within "
             "a bound are run on the real code and compared with exact integer algebra")
LEVEL = "model_checking"
LEVEL_NOTE = ("Complete enumeration of integer matrices with small entries (thorough: -2..2, "
              "1.9 million) for the decomposition; all crystals x mesh lengths x both coordinate "
              "choices x forced or natural decomposition for the grids.")
ASSUMPTIONS = ["spglib's standardised lattice defines the conventional cell"]

MATS = {}


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def snf_of(M, force):
    from phono3py.phonon.grid import GridMatrix

    g = GridMatrix(M, np.eye(3), transformation_matrix=np.eye(3), force_SNF=force)
    return g


def check_snf(M, obs, force=True):
    d = det3(M)
    try:
        g = snf_of(np.array(M), force)
    except RuntimeError:
        if d == 0:
            obs.note("singular")
            return
        raise Bad("decomposition of %s fails" % (M,))
    if d == 0:
        if force:
            raise Bad("singular matrix %s is accepted" % (M,))
        return
    D = [int(x) for x in g.D_diag]
    P, Q = np.array(g.P).tolist(), np.array(g.Q).tolist()
    diag = all(M[i][j] == 0 for i in range(3) for j in range(3) if i != j)
    if diag and not force:
        if D != [abs(M[i][i]) for i in range(3)] or P != np.eye(3).tolist() or Q != P:
            raise Bad("diagonal matrix %s gives D=%s" % (M, D))
        return
    if min(D) < 1 or D[1] % D[0] or D[2] % D[1]:
        raise Bad("%s: diagonal %s is no divisor chain" % (M, D))
    if abs(det3(P)) != 1 or abs(det3(Q)) != 1:
        raise Bad("%s: transformations not unimodular %d %d" % (M, det3(P), det3(Q)))
    x = mul(mul(P, M), Q)
    if x != [[D[0], 0, 0], [0, D[1], 0], [0, 0, D[2]]]:
        raise Bad("%s: P M Q = %s, not %s" % (M, x, D))
    if not np.array_equal(g.grid_matrix, M):
        raise Bad("grid matrix is %s, not %s" % (g.grid_matrix, M))
    obs.state(tuple(D))
    obs.outcome((tuple(D), str(P), str(Q)))


def run_snf(case, obs):
    """All matrices whose first rows are given."""
    r = case["range"]
    vals = range(r[0], r[1] + 1)
    head = case["head"]
    for t in itertools.product(vals, repeat=9 - len(head)):
        e = tuple(head) + t
        M = [list(e[0:3]), list(e[3:6]), list(e[6:9])]
        check_snf(M, obs, True)
        obs.step()


def run_tri(case, obs):
    """Triangular matrices with larger entries (and transposes, permutations)."""
    a, b = case["diag"][:2]
    n = case["n"]
    for c in case["cs"]:
        for x in itertools.product(range(0, n), repeat=3):
            M = [[a, x[0], x[1]], [0, b, x[2]], [0, 0, c]]
            for k, M2 in enumerate((M, np.transpose(M).tolist(), [M[2], M[0], M[1]],
                                    [[-v for v in M[0]], M[1], M[2]])):
                for force in (True, False):
                    check_snf(M2, obs, force)
                    obs.step()


def run_grid(case, obs):
    """Grid by a mesh length and the conventional cell."""
    from phono3py.phonon.grid import BZGrid
    from phonopy.structure.symmetry import Symmetry

    cell = xtal.unitcell(case["xtal"])
    ds = Symmetry(cell).dataset
    le = case["length"]
    g = BZGrid(le, lattice=cell.cell, symmetry_dataset=ds, use_grg=True,
               force_SNF=case["snf"], SNF_coordinates=case["coord"])
    D = np.array(g.D_diag)
    n = int(np.prod(D))
    if n < 1 or D.min() < 1:
        raise Bad("mesh numbers %s" % D)
    Q = np.array(g.Q)
    QD = Q / D.astype(float)
    M = g.grid_matrix if g.grid_matrix is not None else np.diag(D)
    M = np.array(M)
    if abs(det3(M.tolist())) != n:
        raise Bad("%d points for a matrix of determinant %d" % (n, det3(M.tolist())))
    a = np.array(list(itertools.product(*[range(d) for d in D])))
    q = a @ QD.T
    Mq = q @ M.T
    if np.abs(Mq - np.rint(Mq)).max() > 1e-6:
        raise Bad("points are not those of the matrix %s" % M)
    fr = np.rint(np.mod(q, 1) * n).astype(int) % n
    if len({tuple(x) for x in fr.tolist()}) != n:
        raise Bad("points repeated")
    grp = np.array([np.reshape(t, (3, 3)) for t in sorted(c02.group(case["xtal"], True))])
    x = M @ grp @ np.linalg.inv(M)
    if np.abs(x - np.rint(x)).max() > 1e-6:
        raise Bad("grid %s is not invariant under the point group" % M.tolist())
    # supercell dual to the grid is a diagonal one of the conventional cell
    S = M @ cell.cell
    G = S @ S.T
    Gs = np.array(ds.std_lattice) @ np.array(ds.std_lattice).T
    N2 = np.diag(G) / np.diag(Gs)
    N = np.rint(np.sqrt(N2)).astype(int)
    vc.close(N.astype(float) ** 2, N2, 1e-5, "multiplicities of the conventional cell")
    Gc = np.outer(N, N) * Gs
    # signs of basis vectors may differ
    if np.abs(np.abs(G) - np.abs(Gc)).max() > 1e-4 * np.abs(Gc).max():
        raise Bad("grid is not along the conventional cell")
    if case["coord"] == "reciprocal":
        rl = np.linalg.norm(np.linalg.inv(ds.std_lattice), axis=0)
        want = np.maximum(np.rint(rl * le).astype(int), 1)
        fracs = np.abs(np.mod(rl * le, 1) - 0.5)
        # equal lengths are given equal numbers
        for i in range(3):
            if fracs[i] > 1e-3 and N[i] != want[i]:
                same = [j for j in range(3) if abs(rl[j] - rl[i]) < 1e-5]
                if len(same) == 1 or all(N[j] != want[i] for j in same):
                    raise Bad("multiplicities %s for length %s, expected %s" % (N, le, want))
    obs.state((tuple(D), n))
    obs.outcome((vc.rd(D), str(M.tolist())))
    obs.step()
    if n <= 400:
        c01.check_grid(g, np.linalg.inv(cell.cell), np.zeros(3, dtype=int), True, obs)


def run_matrix(case, obs):
    """Grids by explicit matrices, without symmetry."""
    from phono3py.phonon.grid import BZGrid

    cell = xtal.unitcell(case["xtal"])
    a, b, c = case["d"]
    for x in itertools.product((-1, 0, 1), repeat=3):
        M = [[a, x[0], 0], [0, b, x[1]], [x[2], 0, c]]
        d = det3(M)
        if d < 1:
            continue
        g = BZGrid(M, lattice=cell.cell, transformation_matrix=np.eye(3),
                   force_SNF=case["snf"], store_dense_gp_map=case["dense"])
        D = np.array(g.D_diag)
        if np.prod(D) != d:
            raise Bad("%s: %s points" % (M, D))
        ad = np.array(list(itertools.product(*[range(v) for v in D])))
        q = ad @ (np.array(g.Q) / D.astype(float)).T
        Mq = q @ np.array(M).T
        if np.abs(Mq - np.rint(Mq)).max() > 1e-7:
            raise Bad("points are not those of the matrix %s" % M)
        obs.step()
        c01.check_grid(g, np.linalg.inv(cell.cell), np.zeros(3, dtype=int), case["dense"], obs)


def run_tmat(case, obs):
    """Transformation matrices: only inverses of integer matrices are accepted."""
    from phono3py.phonon.grid import GridMatrix

    T = np.array(case["t"]) / case["den"]
    inv = np.linalg.inv(T)
    ok = np.abs(inv - np.rint(inv)).max() < 1e-6 and np.rint(np.linalg.det(inv)) >= 1
    lat = np.array([[3.0, 0.2, 0.1], [0.3, 3.4, -0.2], [-0.4, 0.1, 4.4]])
    try:
        g = GridMatrix(12.0, lat, transformation_matrix=T, use_grg=True)
    except (RuntimeError, AssertionError):
        if ok:
            raise Bad("transformation matrix %s refused" % T.tolist())
        obs.outcome("refused")
        return
    if not ok:
        raise Bad("transformation matrix %s, whose inverse is no integer matrix of positive "
                  "determinant, is accepted" % T.tolist(), key="tmat")
    conv = inv.T @ lat
    N = np.maximum(np.rint(np.linalg.norm(np.linalg.inv(conv), axis=0) * 12.0), 1).astype(int)
    M = np.array(g.grid_matrix) if g.grid_matrix is not None else np.diag(g.D_diag)
    want = np.rint(inv).astype(int).T * N[:, None]
    # same lattice of points
    x = M @ np.linalg.inv(want)
    if np.abs(x - np.rint(x)).max() > 1e-6 or abs(abs(np.linalg.det(x)) - 1) > 1e-6:
        raise Bad("grid matrix %s, expected %s" % (M.tolist(), want.tolist()))
    obs.outcome(str(M.tolist()))
    obs.state(str(M.tolist()))
    obs.step()


def spaces(tier):
    th = tier == "thorough"
    names = list(xtal.CELLS)
    if th:
        r = (-2, 2)
        heads = itertools.product(range(-2, 3), repeat=4)
    else:
        r = (-1, 2)
        heads = itertools.product(range(-1, 3), repeat=3)

    def tri():
        m = 13 if th else 9
        for a in range(1, m):
            for b in range(1, m):
                yield dict(diag=[a, b], n=4 if th else 3, cs=list(range(1, m)))

    def grid():
        for x in names:
            for le in np.arange(2.0, 30 if th else 20, 0.75 if th else 1.5):
                for snf in (True, False):
                    for co in ("reciprocal", "direct"):
                        yield dict(xtal=x, length=float(le), snf=snf, coord=co)

    def matrix():
        for x in ("sc1", "fcc1", "hex1", "tric1", "bcts"):
            for d in itertools.product(range(1, 5 if th else 4), repeat=3):
                for snf in (True, False):
                    yield dict(xtal=x, d=list(d), snf=snf, dense=snf)

    def tmat():
        for t in itertools.product((-1, 0, 1), repeat=9):
            m = np.reshape(t, (3, 3))
            if abs(np.linalg.det(m)) < 0.5:
                continue
            for den in (1, 2):
                if den == 2 and not th and sum(t) % 3:
                    continue
                yield dict(t=m.tolist(), den=den)

    return [
        Space("snf", [dict(head=list(h), range=list(r)) for h in heads], run_snf,
              "all matrices with entries %d..%d" % r),
        Space("snf-triangular", tri(), run_tri, "triangular matrices, larger entries"),
        Space("conventional", grid(), run_grid, "22 crystals x lengths x coordinates", chunk=2),
        Space("matrix", matrix(), run_matrix, "explicit grid matrices"),
        Space("transformation", tmat(), run_tmat, "all transformation matrices of entries "
              "-1..1, also halved", chunk=32),
    ]


if __name__ == "__main__":
    vc.main(globals())
