"""Reference model of phonons and three-phonon coupling (plain numpy).

Only atomic positions and force constants are taken from the objects under
test; shortest vectors, phases, dynamical matrices and interaction strengths
are computed here.
"""

import itertools

import numpy as np

THZ = 15.633302  # checked below against the constants
EV = 1.602176634e-19
AMU = 1.66053906660e-27
HBAR_EVS = 6.582119569e-16


class Ref:
    """Crystal with force constants (full arrays of the supercell)."""

    def __init__(self, supercell, primitive, fc2, fc3=None, symprec=1e-5):
        self.slat = np.array(supercell.cell)
        self.plat = np.array(primitive.cell)
        self.spos = np.array(supercell.positions)
        self.p2s = np.array(primitive.p2s_map)
        self.s2p = np.array(primitive.s2p_map)
        self.masses = np.array(primitive.masses)
        self.np = len(self.p2s)
        self.ns = len(self.spos)
        self.s2pp = np.array([list(self.p2s).index(i) for i in self.s2p])
        self.fc2 = fc2
        self.fc3 = fc3
        self.nb = 3 * self.np
        # shortest vectors from primitive atom i to supercell atom j
        inv = np.linalg.inv(self.slat)
        m = np.ceil(np.linalg.norm(self.slat, axis=1).max()
                    * np.linalg.norm(inv, axis=0)).astype(int) + 1
        sh = np.array(list(itertools.product(*[range(-x, x + 1) for x in np.minimum(m, 3)])))
        sh = sh @ self.slat
        self.vec = {}
        for i in range(self.np):
            for j in range(self.ns):
                d = self.spos[j] - self.spos[self.p2s[i]]
                d = d - np.rint(d @ inv) @ self.slat
                v = d + sh
                r = np.linalg.norm(v, axis=1)
                self.vec[i, j] = v[r < r.min() + symprec]
        self.pinv = np.linalg.inv(self.plat)
        self.multi_max = max(len(v) for v in self.vec.values())

    def phases(self, q):
        """ph[i, j]: averaged exp(2 pi i q.(r_j - r_i)) over shortest vectors."""
        ph = np.zeros((self.np, self.ns), dtype=complex)
        for (i, j), v in self.vec.items():
            ph[i, j] = np.exp(2j * np.pi * ((v @ self.pinv) @ q)).mean()
        return ph

    def dm(self, q, fc2=None):
        """Dynamical matrix at q (fractional) without NAC."""
        fc2 = self.fc2 if fc2 is None else fc2
        ph = self.phases(q)
        d = np.zeros((self.nb, self.nb), dtype=complex)
        for i in range(self.np):
            for j in range(self.ns):
                jj = self.s2pp[j]
                d[3 * i:3 * i + 3, 3 * jj:3 * jj + 3] += fc2[self.p2s[i], j] * ph[i, j]
        sm = np.repeat(np.sqrt(self.masses), 3)
        d = d / np.outer(sm, sm)
        return (d + d.conj().T) / 2

    def dm_wang(self, q, nac, direction=None):
        """With the interpolation of Wang et al.; direction (fractional) at q=0."""
        qq = np.array(q, dtype=float)
        if np.abs(qq).max() < 1e-10:
            if direction is None:
                return self.dm(q)
            qq = np.array(direction, dtype=float)
        qc = self.pinv @ qq
        qz = np.einsum("a,iab->ib", qc, nac["born"])
        vol = abs(np.linalg.det(self.plat))
        fac = nac["factor"] * 4 * np.pi / vol / (qc @ nac["dielectric"] @ qc)
        n = self.ns // self.np
        fc2 = self.fc2.copy()
        for i in range(self.np):
            for j in range(self.ns):
                fc2[self.p2s[i], j] += np.outer(qz[i], qz[self.s2pp[j]]) * fac / n
        return self.dm(q, fc2)

    def ft3(self, i, j, k, q1, q2, ph1=None, ph2=None):
        """sum over images of j and k with origin at primitive atom i."""
        ph1 = self.phases(q1) if ph1 is None else ph1
        ph2 = self.phases(q2) if ph2 is None else ph2
        js = np.where(self.s2pp == j)[0]
        ks = np.where(self.s2pp == k)[0]
        f = self.fc3[self.p2s[i]][np.ix_(js, ks)]
        return np.einsum("j,k,jkabc->abc", ph1[i, js], ph2[i, ks], f)

    def v3(self, q3, r0_average):
        """fc3 in reciprocal space [i,j,k,3,3,3] of q3 (3 x 3, rows; fractional)."""
        q3 = np.array(q3, dtype=float)
        g = q3.sum(axis=0)
        pos = self.spos[self.p2s] @ self.pinv
        pre = np.exp(2j * np.pi * pos @ g)
        ph = [self.phases(q) for q in q3]
        out = np.zeros((self.np,) * 3 + (3, 3, 3), dtype=complex)
        for i, j, k in itertools.product(range(self.np), repeat=3):
            v = self.ft3(i, j, k, None, None, ph[1], ph[2]) * pre[i]
            if r0_average:
                w = self.ft3(j, i, k, None, None, ph[0], ph[2]) * pre[j]
                u = self.ft3(k, j, i, None, None, ph[1], ph[0]) * pre[k]
                v = (v + w.transpose(1, 0, 2) + u.transpose(2, 1, 0)) / 3
            out[i, j, k] = v
        return out

    def strength(self, q3, freqs, eigs, r0_average=True, cutoff=0.0, symq=False):
        """|Phi|^2 [nb, nb, nb] without unit conversion, from given modes."""
        nb = self.nb
        if symq:
            out = np.zeros((nb, nb, nb))
            for p in itertools.permutations(range(3)):
                s = self.strength([q3[x] for x in p], [freqs[x] for x in p],
                                  [eigs[x] for x in p], r0_average, cutoff)
                out += np.transpose(s, np.argsort(p))
            return out / 6
        v = self.v3(q3, r0_average)
        v = v.transpose(0, 3, 1, 4, 2, 5).reshape(nb, nb, nb)
        sm = np.repeat(np.sqrt(self.masses), 3)
        e = [x / sm[:, None] for x in eigs]
        a = np.einsum("ijk,ia,jb,kc->abc", v, *e, optimize=True)
        f = [np.array(x) for x in freqs]
        ok = [x > cutoff for x in f]
        fi = [np.where(o, 1 / np.where(o, x, 1), 0) for o, x in zip(ok, f)]
        return abs(a) ** 2 * np.einsum("a,b,c->abc", *fi)


def freqs_of(eigvals, factor):
    return np.sqrt(abs(eigvals)) * np.sign(eigvals) * factor


def unit_conversion(num_grid):
    """eV^2 of the squared interaction strength (hbar^3/(36*8) ...)."""
    hbar = HBAR_EVS * EV
    return (hbar ** 3 / 36 / 8 * EV ** 2 / (1e-10) ** 6 / (2 * np.pi * 1e12) ** 3
            / AMU ** 3 / num_grid / EV ** 2)
