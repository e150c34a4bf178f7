"""Crystals, exact model force constants and Phono3py objects of small size.

The force constants come from a pair potential written out analytically
(nothing of phono3py is used), so that all symmetries hold exactly.
"""

import functools
import itertools

import numpy as np


def _cells():
    a = 4.0
    fcc = np.array([[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]])
    bcc = np.array([[-a / 2, a / 2, a / 2], [a / 2, -a / 2, a / 2], [a / 2, a / 2, -a / 2]])
    s3 = np.sqrt(3) / 2
    hexl = np.array([[3.0, 0, 0], [-1.5, 3.0 * s3, 0], [0, 0, 4.9]])
    u = 0.375
    c = {
        # name: (lattice rows, symbols, scaled positions)
        "sc1": (np.eye(3) * 3.0, ["Si"], [[0, 0, 0]]),
        "fcc1": (fcc, ["Al"], [[0, 0, 0]]),
        "bcc1": (bcc, ["Fe"], [[0, 0, 0]]),
        "tet1": (np.diag([3.0, 3.0, 4.2]), ["Si"], [[0, 0, 0]]),
        "ort1": (np.diag([3.0, 3.5, 4.2]), ["Si"], [[0, 0, 0]]),
        "hex1": (hexl, ["Mg"], [[0, 0, 0]]),
        "mono1": (np.array([[3.0, 0, 0], [0, 3.6, 0], [-0.9, 0, 4.1]]), ["Si"], [[0, 0, 0]]),
        "tric1": (np.array([[3.0, 0.1, 0.2], [0.45, 3.3, -0.3], [-0.6, 0.5, 3.9]]), ["Si"], [[0, 0, 0]]),
        "bct1": (np.array([[-1.5, 1.5, 2.35], [1.5, -1.5, 2.35], [1.5, 1.5, -2.35]]), ["Si"], [[0, 0, 0]]),
        "bcts": (np.array([[-1.5, 1.5, 1.05], [1.5, -1.5, 1.05], [1.5, 1.5, -1.05]]) * 1.2, ["Si"], [[0, 0, 0]]),
        "fco1": (np.array([[0, 1.9, 2.5], [1.6, 0, 2.5], [1.6, 1.9, 0]]), ["Si"], [[0, 0, 0]]),
        "cco1": (np.array([[1.6, 2.0, 0], [-1.6, 2.0, 0], [0, 0, 4.3]]), ["Si"], [[0, 0, 0]]),
        "rhom1": (np.array([[2.8, 0.6, 0.6], [0.6, 2.8, 0.6], [0.6, 0.6, 2.8]]), ["Si"], [[0, 0, 0]]),
        "cscl": (np.eye(3) * 3.6, ["Cs", "Cl"], [[0, 0, 0], [0.5, 0.5, 0.5]]),
        "nacl": (fcc * 1.3, ["Na", "Cl"], [[0, 0, 0], [0.5, 0.5, 0.5]]),
        "dia": (fcc * 1.35, ["Si", "Si"], [[0, 0, 0], [0.25, 0.25, 0.25]]),
        "zb": (fcc * 1.35, ["Ga", "As"], [[0, 0, 0], [0.25, 0.25, 0.25]]),
        "hcp": (np.array([[3.2, 0, 0], [-1.6, 3.2 * s3, 0], [0, 0, 5.2]]), ["Mg", "Mg"],
                [[1 / 3, 2 / 3, 0.25], [2 / 3, 1 / 3, 0.75]]),
        "wz": (np.array([[3.1, 0, 0], [-1.55, 3.1 * s3, 0], [0, 0, 4.98]]),
               ["Al", "Al", "N", "N"],
               [[1 / 3, 2 / 3, 0.001], [2 / 3, 1 / 3, 0.501],
                [1 / 3, 2 / 3, u + 0.006], [2 / 3, 1 / 3, u + 0.506]]),
        "tric2": (np.array([[3.6, 0.1, 0.2], [0.45, 3.9, -0.3], [-0.6, 0.5, 4.3]]), ["Si", "O"],
                  [[0, 0, 0], [0.47, 0.55, 0.41]]),
        # tetragonal P4 (4-fold axis only, no mirror): 2 atoms on axes
        "p4": (np.diag([3.6, 3.6, 4.4]), ["Si", "O", "O"],
               [[0, 0, 0], [0.5, 0.5, 0.43], [0.5, 0.5, 0.9]]),
        # trigonal P3-like lattice of Te chains (P3_1 21: screw axes)
        "te": (np.array([[4.4, 0, 0], [-2.2, 4.4 * s3, 0], [0, 0, 5.9]]), ["Te", "Te", "Te"],
               [[0.27, 0, 1 / 3], [0, 0.27, 2 / 3], [-0.27, -0.27, 0]]),
    }
    return c


CELLS = _cells()

# conventional cells with a primitive matrix (not in the lists of all crystals)
_F = [[0, 0, 0], [0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]
CONV = {
    "naclc": (np.eye(3) * 5.2, ["Na"] * 4 + ["Cl"] * 4,
              _F + [[(x + 0.5) % 1 for x in p] for p in _F], "F"),
    "bccc": (np.eye(3) * 4.0, ["Fe"] * 2, [[0, 0, 0], [0.5, 0.5, 0.5]], "I"),
    # atoms of the two kinds interleaved
    "diac": (np.eye(3) * 5.4, ["Si"] * 8,
             [x for p in _F for x in (p, [(y + 0.25) % 1 for y in p])], "F"),
}


def unitcell(name):
    from phonopy.structure.atoms import PhonopyAtoms

    lat, sym, pos = (CELLS[name] if name in CELLS else CONV[name])[:3]
    return PhonopyAtoms(symbols=sym, cell=lat, scaled_positions=pos)


# ---------------------------------------------------------------- pair model
def pair_fc(supercell, rcut, full=True):
    """Exact fc2 and fc3 of a pair potential in the periodic supercell.

    Every pair at distance d<rcut has U(r) = k/2 (r-d)^2 + g/6 (r-d)^3, with
    smooth k(d), g(d) which depend on the kinds of the two atoms.
    """
    lat = np.array(supercell.cell)
    pos = supercell.scaled_positions
    num = supercell.numbers
    n = len(num)
    nmax = np.ceil(rcut * np.linalg.norm(np.linalg.inv(lat), axis=0)).astype(int) + 1
    shifts = np.array(list(itertools.product(*[range(-m, m + 1) for m in nmax])))
    fc2 = np.zeros((n, n, 3, 3))
    fc3 = np.zeros((n, n, n, 3, 3, 3))
    eye = np.eye(3)
    kinds = sorted(set(num.tolist()))
    for i in range(n):
        for j in range(n):
            d = (pos[j] - pos[i] + shifts) @ lat
            r = np.linalg.norm(d, axis=1)
            for v, x in zip(d, r):
                if x < 1e-6 or x >= rcut:
                    continue
                s = kinds.index(num[i]) + kinds.index(num[j])
                w = np.exp(-1.1 * (x - 2.0)) * (1 - x / rcut) ** 2 * 8
                k = w * (6.0 + 1.3 * s)
                g = -w * (20.0 + 7.0 * s)
                nv = v / x
                nn = np.outer(nv, nv)
                h2 = k * nn  # d2U/dv2 (U'=0 at equilibrium)
                t = np.einsum("a,bc->abc", nv, nn)
                dn = eye - nn
                sym = (np.einsum("a,bc->abc", nv, dn) + np.einsum("b,ac->abc", nv, dn)
                       + np.einsum("c,ab->abc", nv, dn))
                h3 = g * t + k / x * sym  # d3U/dv3
                # E = 1/2 sum_{i,j}; u_j - u_i
                for a, sa in ((i, -1), (j, 1)):
                    for b, sb in ((i, -1), (j, 1)):
                        fc2[a, b] += 0.5 * sa * sb * h2
                        for c, sc in ((i, -1), (j, 1)):
                            fc3[a, b, c] += 0.5 * sa * sb * sc * h3
    return fc2, fc3


RCUT = {
    "bct1": 5.6, "bcts": 5.2, "fco1": 5.6, "cco1": 5.8,
    "sc1": 5.9, "fcc1": 5.6, "bcc1": 5.6, "tet1": 5.9, "ort1": 5.9, "hex1": 6.2,
    "mono1": 6.0, "tric1": 6.0, "rhom1": 5.2, "cscl": 6.0, "nacl": 5.0, "dia": 5.4,
    "zb": 5.4, "hcp": 5.9, "wz": 4.3, "tric2": 6.4, "p4": 5.6, "te": 6.0,
    "naclc": 5.0, "bccc": 5.6, "diac": 5.4,
}


# supercells in which three-phonon coupling does not vanish
SMAT = {x: (3, 3, 3) for x in CELLS if len(CELLS[x][1]) == 1}
SMAT.update({"cscl": (2, 2, 2), "nacl": (2, 2, 2), "dia": (2, 2, 2), "zb": (2, 2, 2),
             "hcp": (2, 2, 2), "tric2": (2, 2, 2), "p4": (2, 2, 1), "te": (2, 2, 1),
             "wz": (1, 1, 1), "naclc": (2, 2, 2), "bccc": (2, 2, 2), "diac": (1, 1, 1)})


def mesh_c(name, a, c):
    """a x a x c where the crystal allows it, else a x a x a."""
    return [a, a, c] if name in ("tet1", "hex1", "ort1", "tric1", "hcp", "wz", "p4",
                                 "te", "tric2") else [a, a, a]


def forces_of(fc2, fc3, disps):
    """Forces -dE/du of E = 1/2 fc2 uu + 1/6 fc3 uuu (lists of displacements)."""
    f = -np.einsum("ijab,njb->nia", fc2, disps)
    f -= 0.5 * np.einsum("ijkabc,njb,nkc->nia", fc3, disps, disps)
    return f


@functools.lru_cache(maxsize=None)
def model(name, smat, rcut=None):
    """(supercell fc2, fc3) of the crystal in a diagonal supercell ``smat``."""
    from phonopy.structure.cells import get_supercell

    sc = get_supercell(unitcell(name), np.diag(smat) if np.ndim(smat) == 1 else smat)
    fc2, fc3 = pair_fc(sc, rcut or RCUT[name])
    return fc2, fc3 + density_fc3(sc, rcut or RCUT[name])


def density_fc3(supercell, rcut):
    """fc3 of an energy of densities: elements of three different atoms.

    E = sum_i (rho_i - rho0_i)^2 / 2, rho_i = sum_j phi(r_ij), at equilibrium:
    third derivatives are products of first and second derivatives of rho_i.
    """
    lat = np.array(supercell.cell)
    pos = supercell.scaled_positions
    num = supercell.numbers
    n = len(num)
    nmax = np.ceil(rcut * np.linalg.norm(np.linalg.inv(lat), axis=0)).astype(int) + 1
    shifts = np.array(list(itertools.product(*[range(-m, m + 1) for m in nmax])))
    kinds = sorted(set(num.tolist()))
    gs = np.zeros((n, n, 3))
    hs = np.zeros((n, n, 3, n, 3))
    for i in range(n):
        g, h = gs[i], hs[i]
        for j in range(n):
            d = (pos[j] - pos[i] + shifts) @ lat
            r = np.linalg.norm(d, axis=1)
            sel = (r > 1e-6) & (r < rcut)
            for v, x in zip(d[sel], r[sel]):
                w = np.exp(-0.8 * (x - 2.0)) * (1 - x / rcut) ** 2 * (4.0 + kinds.index(num[j]))
                nv = v / x
                h2 = -2.1 * w * np.outer(nv, nv) + w / x * (np.eye(3) - np.outer(nv, nv))
                for a, sa in ((i, -1), (j, 1)):
                    g[a] += sa * w * nv
                    for b, sb in ((i, -1), (j, 1)):
                        h[a, :, b] += sa * sb * h2
    t = (gs.reshape(n, 3 * n).T @ hs.reshape(n, 9 * n * n)).reshape((3 * n,) * 3)
    fc3 = t + t.transpose(1, 0, 2) + t.transpose(1, 2, 0)
    return np.array(fc3.reshape(n, 3, n, 3, n, 3).transpose(0, 2, 4, 1, 3, 5), order="C")


NAC = {
    "nacl": dict(born=[1.1, -1.1], eps=2.4),
    "zb": dict(born=[2.1, -2.1], eps=10.5),
    "cscl": dict(born=[1.3, -1.3], eps=2.9),
    "wz": dict(born=[2.5, 2.5, -2.5, -2.5], eps=4.6, aniso=0.2),
    "naclc": dict(born=[1.1, -1.1], eps=2.4),
    "tric2": dict(born=[1.7, -1.7], eps=3.3, aniso=0.4),
}


def nac_params(name, method="gonze"):
    d = NAC[name]
    an = d.get("aniso", 0.0)
    m = np.diag([1, 1, 1 + an])
    return {
        "born": np.array([b * m for b in d["born"]]),
        "dielectric": d["eps"] * np.diag([1, 1, 1 + an / 2]),
        "factor": 14.399652,
        "method": method,
    }


def phono3py(name, smat=(2, 2, 2), compact=False, nac=None, is_symmetry=True,
             with_fc=True, phonon_smat=None, **kw):
    """Phono3py with the model force constants."""
    from phono3py import Phono3py

    ph3 = Phono3py(unitcell(name), supercell_matrix=np.diag(smat),
                   primitive_matrix=CONV[name][3] if name in CONV else np.eye(3),
                   phonon_supercell_matrix=None if phonon_smat is None else np.diag(phonon_smat),
                   is_symmetry=is_symmetry, log_level=0, **kw)
    if nac:
        ph3.nac_params = nac_params(name, nac)
    if with_fc:
        fc2, fc3 = model(name, tuple(smat))
        if phonon_smat is not None:
            fc2 = model(name, tuple(phonon_smat))[0]
        if compact:
            p2s = ph3.primitive.p2s_map
            ph3.fc2 = np.array(fc2[ph3.phonon_primitive.p2s_map], dtype="double", order="C")
            ph3.fc3 = np.array(fc3[p2s], dtype="double", order="C")
        else:
            ph3.fc2 = fc2.copy()
            ph3.fc3 = fc3.copy()
    return ph3
