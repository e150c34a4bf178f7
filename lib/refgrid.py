"""Reference model of q-point grids (independent of phono3py)."""

import functools
import itertools

import numpy as np

UNI = np.array(list(itertools.product((-1, 0, 1), repeat=3)))


@functools.lru_cache(maxsize=None)
def _all_w():
    e = np.array(list(itertools.product((-1, 0, 1), repeat=9)), dtype=int)
    w = e.reshape(-1, 3, 3)
    d = np.rint(np.linalg.det(w)).astype(int)
    return w[np.abs(d) == 1]


def crystal_rotations(lattice, symbols, positions, tol=1e-5):
    """Rotations W (x' = W x + w) which map the crystal onto itself.

    Brute force over all matrices of elements -1, 0, 1.
    """
    lat = np.array(lattice, dtype=float)  # rows
    met = lat @ lat.T
    w = _all_w()
    ok = np.abs(np.einsum("nki,kl,nlj->nij", w, met, w) - met).max(axis=(1, 2)) < tol * met.max()
    pos = np.array(positions, dtype=float)
    kinds = sorted(set(symbols))
    num = np.array([kinds.index(s) for s in symbols])
    out = []
    for r in w[ok]:
        rp = pos @ r.T
        for j in np.where(num == num[0])[0]:
            t = pos[j] - rp[0]
            x = rp + t
            d = x[:, None, :] - pos[None, :, :]
            d -= np.rint(d)
            hit = (np.linalg.norm(d @ lat, axis=2) < tol * 10) & (num[:, None] == num[None, :])
            if (hit.sum(axis=1) == 1).all() and (hit.sum(axis=0) == 1).all():
                out.append(r)
                break
    return np.array(out)


def reciprocal_group(rotations, time_reversal=True):
    """Set of matrices acting on fractional q (columns): W^T (and -W^T)."""
    s = {tuple(np.array(r).T.ravel().tolist()) for r in rotations}
    if time_reversal:
        s |= {tuple(-x for x in t) for t in s}
    return s


def images(q, reclat, n=4, tol=1e-7):
    """Shortest images q+G: integer G list within relative tol of the minimum.

    ``reclat`` columns are the reciprocal basis vectors. Returns (G list,
    shortest squared length, next squared length outside tol).
    """
    g = np.array(list(itertools.product(range(-n, n + 1), repeat=3)))
    g = g - np.rint(q).astype(int)
    v = (q + g) @ reclat.T
    d = (v * v).sum(axis=1)
    m = d.min()
    scale = (reclat ** 2).sum(axis=0).max()
    sel = d < m + tol * scale
    rest = d[~sel]
    return g[sel], m, rest.min()


def reduce_basis(reclat, maxit=100):
    """Pairwise (Selling-like) reduction: columns of a short basis, U with B U."""
    b = np.array(reclat, dtype=float)
    u = np.eye(3, dtype=int)
    for _ in range(maxit):
        done = True
        for i in range(3):
            others = [j for j in range(3) if j != i]
            best = np.dot(b[:, i], b[:, i])
            for x, y in itertools.product((-1, 0, 1), repeat=2):
                if x == y == 0:
                    continue
                c = b[:, i] + x * b[:, others[0]] + y * b[:, others[1]]
                if np.dot(c, c) < best - 1e-10 * best:
                    b[:, i] = c
                    u[:, i] = u[:, i] + x * u[:, others[0]] + y * u[:, others[1]]
                    done = False
                    break
        if done:
            break
    return b, u


class Shortest:
    """Shortest images with a basis reduced once (exhaustive in its window)."""

    def __init__(self, reclat, n=2):
        self.reclat = np.array(reclat, dtype=float)
        self.b, self.u = reduce_basis(reclat)  # b = reclat @ u
        self.uinv = np.rint(np.linalg.inv(self.u)).astype(int)
        self.g = np.array(list(itertools.product(range(-n, n + 1), repeat=3)))
        self.scale = (self.b ** 2).sum(axis=0).min()

    def __call__(self, q, tol=1e-6):
        """All images (integer G in the original basis), min d2, next d2."""
        x = self.uinv @ np.asarray(q, dtype=float)
        n = np.rint(x).astype(int)
        gg = self.g - n
        v = (x + gg) @ self.b.T
        d = (v * v).sum(axis=1)
        m = d.min()
        sel = d < m + tol * self.scale
        return gg[sel] @ self.u.T, m, d[~sel].min()
