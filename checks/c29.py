"""C29: correlation matrices of displacements of the harmonic ensemble, and force constants as its averages.

matrices  crystals x supercells x masses x temperatures x cutoffs, also with imaginary
          modes and in every order of temperatures: the matrices are the functions of
          the dynamical matrix they are defined by, invariant under the crystal's
          operations, inverse to each other, with the norm of the distribution
mesh      the same from phonons at the commensurate points, for all supercells
ensemble  all points of a product rule which is exact for the polynomials involved:
          the ensemble averages are the force constants of the model
failures  temperatures and frequencies out of range: no trace of a failure is left
"""

import itertools
import sys
import warnings
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
from vcommon import Bad, Space, main

import xtal

PROPERTY = "C29"
TECHNIQUE = (
    "exhaustive enumeration on the real code: all configurations of crystals, supercells, masses, temperatures, cutoffs and "
    "orders of calls, judged by matrix functions of the dynamical matrix; the ensemble is enumerated completely with a "
    "product rule exact for the moments involved"
)
LEVEL = "model_checking"
LEVEL_NOTE = "bounded: supercells up to 54 atoms for matrices, up to 3 atoms for ensembles; one set of force constants of each crystal"

# CODATA 2018
HBAR = 1.054571817e-34
KB = 1.380649e-23
AMU = 1.66053906660e-27
EV = 1.602176634e-19
UNIT = np.sqrt(EV / AMU) * 1e10 / (2 * np.pi) * 1e-12  # sqrt(eV / A^2 / AMU) in THz

CRYST = {"sc1": [(1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 3, 3)], "cscl": [(1, 1, 1), (2, 1, 1), (2, 2, 1)],
         "zb": [(1, 1, 1), (2, 1, 1), (2, 2, 2)], "tric1": [(1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1)],
         "tric2": [(1, 1, 1), (2, 1, 1), (2, 2, 1)], "hcp": [(1, 1, 1), (2, 2, 1), (3, 1, 1)],
         "wz": [(1, 1, 1), (2, 1, 1)], "te": [(1, 1, 1), (2, 1, 1)], "mono1": [(2, 1, 1), (2, 2, 1)],
         "ort1": [(2, 1, 1), (3, 1, 1)], "p4": [(1, 1, 1), (2, 1, 1)], "nacl": [(1, 1, 1), (2, 2, 1)]}
TEMPS = (5.0, 80.0, 300.0, 2000.0)


_memo = {}


def crystal(name, sm, masses=None):
    key = (name, tuple(sm), masses)
    if key not in _memo:
        p = xtal.phono3py(name, sm, with_fc=False)
        if masses:
            p.masses = np.arange(1, len(p.primitive) + 1) * masses
        fc2 = xtal.pair_fc(p.supercell, xtal.RCUT.get(name, 3.0))[0]
        _memo.clear()
        _memo[key] = (p, fc2)
    return _memo[key]


def flat(fc2):
    n = len(fc2)
    return fc2.transpose(0, 2, 1, 3).reshape(3 * n, 3 * n)


def sigma2(f, temp):
    """Mean square of a normal coordinate in AMU A^2, of a frequency in THz."""
    w = 2 * np.pi * f * 1e12
    return HBAR / (2 * w) / np.tanh(HBAR * w / (2 * KB * temp)) / AMU * 1e20


def expected(fc2, masses, temp, cut):
    m = np.repeat(np.sqrt(masses), 3)
    lam, vec = np.linalg.eigh(flat(fc2) / np.outer(m, m))
    f = np.sqrt(np.abs(lam)) * np.sign(lam) * UNIT
    if np.any(np.abs(f - cut) < 1e-4 * np.abs(f).max() + 1e-9) and cut > 1e-3:
        return None  # a mode at the cutoff
    use = f > max(cut, 1e-3)
    a2 = np.zeros_like(f)
    a2[use] = sigma2(f[use], temp)
    inv = np.zeros_like(f)
    inv[use] = 1 / a2[use]
    psi = (vec * a2) @ vec.T / np.outer(m, m)
    ups = (vec * inv) @ vec.T * np.outer(m, m)
    return f, psi, ups, -0.5 * np.log(2 * np.pi * a2[use]).sum(), (vec[:, use] @ vec[:, use].T)


def near(a, b, what, tol=3e-5):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Bad("%s: shape %s, should be %s" % (what, a.shape, b.shape))
    s = max(np.abs(b).max(), 1e-30)
    d = np.abs(a - b).max() / s
    if not d < tol:
        raise Bad("%s differs by %.3g of %.3g" % (what, d * s, s))


def low_modes(fc2, masses):
    """Zero modes must be told from the others: acoustic modes at gamma are zero within rounding."""
    m = np.repeat(np.sqrt(masses), 3)
    lam = np.linalg.eigvalsh(flat(fc2) / np.outer(m, m))
    f = np.sqrt(np.abs(lam)) * UNIT
    return np.any((f > 2e-4) & (f < 0.05))


def run_matrices(case, obs):
    from phono3py.sscha.sscha import DispCorrMatrix, SupercellPhonon, get_sscha_matrices

    name, sm, masses, kind = case["name"], case["smat"], case["masses"], case["kind"]
    p, fc2 = crystal(name, sm, masses)
    s = p.supercell
    ops = p.symmetry.symmetry_operations
    if kind == "negative":
        fc2 = -fc2
    if kind == "mixed":  # some modes are imaginary
        fc2 = fc2.copy()
        lam = np.linalg.eigvalsh(flat(fc2))
        shift = np.sort(np.abs(lam))[len(lam) // 2]
        n = len(s)
        fc2 = fc2 - shift * (np.eye(n)[:, :, None, None] - 1.0 / n) * np.eye(3)
    if low_modes(fc2, s.masses):
        obs.outcome("soft modes")
        return
    given = fc2.copy()
    for cut in (None, 0.0, 1e-2, 2.0, 4.0, 1e3):
        c = 1e-2 if cut is None or cut == 0.0 else cut
        if cut == 0.0:
            continue  # acoustic modes are then at the cutoff
        objs = [get_sscha_matrices(s, fc2, cutoff_frequency=cut if cut is not None else 1e-2)]
        ph = SupercellPhonon(s, fc2)
        objs.append(DispCorrMatrix(ph, cutoff_frequency=cut if cut is not None else 1e-2))
        for order in itertools.permutations(case["temps"], 2):
            for temp, (k, uu) in itertools.product(order, enumerate(objs)):
                what = "%s %s, masses %s, %s, cutoff %s, %s K of %s, object %d" % (
                    name, sm, masses, kind, cut, temp, order, k)
                want = expected(fc2, s.masses, temp, c)
                if want is None:
                    continue
                f, psi, ups, lnorm, proj = want
                uu.run(temp)
                obs.step()
                sp = uu.supercell_phonon
                if np.any(np.abs(f) > 1e-2):
                    near(sp.frequencies[np.abs(f) > 1e-2], f[np.abs(f) > 1e-2], what + ": frequencies")
                near(sp.force_constants, flat(fc2), what + ": force constants", 1e-12)
                near(uu.psi_matrix, psi, what + ": correlation matrix")
                near(uu.upsilon_matrix, ups, what + ": inverse correlation matrix")
                m = np.repeat(np.sqrt(s.masses), 3)
                near((uu.psi_matrix * np.outer(m, m)) @ (uu.upsilon_matrix / np.outer(m, m)), proj,
                     what + ": product of both matrices")
                with np.errstate(all="ignore"):
                    ln = np.log(uu.prefactor)
                if abs(lnorm) < 600 and not abs(ln - lnorm) < 1e-4 * max(1, abs(lnorm)):
                    raise Bad("%s: logarithm of the norm %s is not %s" % (what, ln, lnorm))
                if temp == order[0] and k == 0 and not masses:  # masses of one element may differ
                    invariant(uu.psi_matrix, s, ops, what)
                obs.state((what, round(float(np.trace(psi)), 8)))
    if np.abs(given - fc2).max() > 0:
        raise Bad("%s %s: force constants given were changed" % (name, sm))
    obs.outcome((name, len(s), kind))


def invariant(mat, s, ops, what):
    n = len(s)
    x = mat.reshape(n, 3, n, 3).transpose(0, 2, 1, 3)
    lat = s.cell.T
    pos = s.scaled_positions
    scale = np.abs(x).max()
    for r, t in zip(ops["rotations"], ops["translations"]):
        d = (pos @ r.T + t)[:, None] - pos[None]
        d -= np.rint(d)
        perm = np.argmin(np.abs(d).sum(axis=2), axis=1)
        c = lat @ r @ np.linalg.inv(lat)
        y = np.einsum("ab,ijbc,dc->ijad", c, x, c)
        if np.abs(x[np.ix_(perm, perm)] - y).max() > 1e-6 * scale:
            raise Bad("%s: not invariant under %s" % (what, r.tolist()))


def run_mesh(case, obs):
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix

    from phono3py.sscha.sscha import DispCorrMatrixMesh

    name, sm, masses = case["name"], case["smat"], case["masses"]
    p, fc2 = crystal(name, sm, masses)
    s, q = p.supercell, p.primitive
    if low_modes(fc2, s.masses):
        obs.outcome("soft modes")
        return
    dm = get_dynamical_matrix(fc2, s, q)
    for cut in (1e-2, 3.0):
        uu = DispCorrMatrixMesh(q, s, cutoff_frequency=cut)
        pts = uu.commensurate_points
        if len(pts) != len(s) // len(q) or len({tuple(np.rint(x * 720).astype(int) % 720) for x in pts}) != len(pts):
            raise Bad("%s %s: commensurate points %s" % (name, sm, pts.tolist()))
        freqs, vecs = [], []
        for x in pts:
            dm.run(x)
            lam, vec = np.linalg.eigh(dm.dynamical_matrix)
            freqs.append(np.sqrt(np.abs(lam)) * np.sign(lam) * UNIT)
            vecs.append(vec)
        freqs, vecs = np.array(freqs), np.array(vecs)
        for order in itertools.permutations(case["temps"], 2):
            for temp in order:
                what = "%s %s, masses %s, commensurate points, cutoff %s, %s K of %s" % (name, sm, masses, cut, temp, order)
                want = expected(fc2, s.masses, temp, cut)
                if want is None:
                    continue
                a, b = freqs.copy(), vecs.copy()
                uu.run(a, b, temp)
                obs.step()
                if np.any(a != freqs) or np.any(b != vecs):
                    raise Bad("%s: phonons given were changed" % what)
                near(uu.psi_matrix, want[1], what + ": correlation matrix")
                near(uu.upsilon_matrix, want[2], what + ": inverse correlation matrix")
                obs.state(what)
    obs.outcome((name, len(s)))


def run_ensemble(case, obs):
    from phono3py.sscha.sscha import SecondOrderFC, SupercellPhonon, ThirdOrderFC

    name, sm, temp = case["name"], case["smat"], case["temp"]
    p, fc2 = crystal(name, sm, case["masses"])
    s = p.supercell
    n = len(s)
    rng = case["rule"]
    f, psi, ups, _, proj = expected(fc2, s.masses, temp, 1e-2)
    m = np.repeat(np.sqrt(s.masses), 3)
    lam, vec = np.linalg.eigh(psi)
    use = lam > 1e-8 * lam.max()
    amp = vec[:, use] * np.sqrt(lam[use])
    k = int(use.sum())
    fc3 = np.zeros((n, n, n, 3, 3, 3))
    x = np.cos(np.arange(n**3 * 27) * 1.7 + 0.3).reshape(3 * n, 3 * n, 3 * n)
    x = sum(x.transpose(o) for o in itertools.permutations(range(3))) / 6
    t = np.eye(n) - 1.0 / n  # no force of a rigid translation
    t = np.kron(t, np.eye(3))
    x = np.einsum("abc,ai,bj,ck->ijk", x, t, t, t, optimize=True)
    fc3 = x.reshape(n, 3, n, 3, n, 3).transpose(0, 2, 4, 1, 3, 5)
    if rng == "product":  # Gauss-Hermite rule of three points with weights 1:4:1 in each coordinate
        z = np.array(list(itertools.product((-np.sqrt(3), 0, 0, 0, 0, np.sqrt(3)), repeat=k)))
    else:  # moments up to the second only
        z = np.vstack([np.eye(k), -np.eye(k)]) * np.sqrt(k)
    u = z @ amp.T
    phi = flat(fc2)
    for cubic, drift, log, rev in itertools.product((0, 1), (0, 1), (0,), (False, True)):
        force = -u @ phi - (0.5 * np.einsum("abc,la,lb->lc", x, u, u, optimize=True) if cubic else 0)
        if drift:
            force = force + 0.37 * np.resize([1.0, -2.0, 0.5], 3 * n)
        uu, ff = (u[::-1], force[::-1]) if rev else (u, force)
        what = "%s %s, %s K, masses %s, rule %s, cubic %s, constant force %s" % (
            name, sm, temp, case["masses"], rng, cubic, drift)
        d, g = uu.reshape(-1, n, 3).copy(), ff.reshape(-1, n, 3).copy()
        d0, g0 = d.copy(), g.copy()
        sp = SupercellPhonon(s, fc2)
        two = SecondOrderFC(d, g, sp, cutoff_frequency=1e-2, log_level=log)
        for _ in range(2):
            two.run(T=temp)
            obs.step()
            near(two.fc2, fc2, what + ": fc2", 1e-7)
        if rng == "product":
            three = ThirdOrderFC(d, g, sp, cutoff_frequency=1e-2, log_level=log)
            for _ in range(2):
                three.run(T=temp)
                obs.step()
                w = fc3 * cubic
                e = np.abs(three.fc3 - w).max()
                if not e < 1e-6 * np.abs(fc3).max():
                    raise Bad("%s: fc3 differs by %s of %s" % (what, e, np.abs(fc3).max()))
            near(three.displacements, uu, what + ": displacements", 1e-12)
            near(three.forces, ff, what + ": forces", 1e-12)
        if np.any(d != d0) or np.any(g != g0):
            raise Bad("%s: displacements or forces given were changed" % what)
        obs.state(what)
    obs.outcome((name, n, k, len(z)))


def run_failures(case, obs):
    """Calls which fail leave the handling of floating-point errors as it was."""
    from phono3py.phonon.func import sigma_squared
    from phono3py.sscha.sscha import get_sscha_matrices

    p, fc2 = crystal("zb", (1, 1, 1))
    for policy, temp, kind in itertools.product(("ignore", "warn", "raise"), (-1.0, 0.0, 0.1, 1.0, 5.0, 1e6),
                                                ("scalar", "array", "zero", "matrices")):
        what = "errors set to %s, %s K, %s" % (policy, temp, kind)
        old = np.seterr(all=policy)
        before = np.geterr()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    if kind == "matrices":
                        uu = get_sscha_matrices(p.supercell, fc2, 1e-2)
                        uu.run(temp)
                        got = None
                    else:
                        x = {"scalar": 3.0, "array": np.array([1.0, 15.0]), "zero": np.array([0.0, 2.0])}[kind]
                        got = sigma_squared(x, temp)
                except (FloatingPointError, ZeroDivisionError, OverflowError):
                    got = None
            after = np.geterr()
        finally:
            np.seterr(**old)
        if after != before:
            raise Bad("%s: handling of errors is %s afterwards" % (what, after))
        obs.step()
        if got is not None and kind != "zero" and temp > 0:
            near(got, sigma2(np.asarray({"scalar": 3.0, "array": [1.0, 15.0]}[kind]), temp), what)
        obs.state(what)
        obs.outcome((kind, got is None))


def spaces(tier):
    t = tier == "thorough"
    cs = []
    for name, sms in CRYST.items():
        for sm in sms:
            for masses in (None, 7.0):
                if (masses and np.prod(sm) > 4 or np.prod(sm) > 9) and not t:
                    continue
                cs.append(dict(name=name, smat=list(sm), masses=masses, temps=list(TEMPS) if t else list(TEMPS[:3])))
    yield Space("matrices", [dict(c, kind=k) for c in cs for k in ("stable", "negative", "mixed")], run_matrices,
                "crystals x supercells x masses x kinds of modes x cutoffs x pairs of temperatures")
    yield Space("mesh", cs, run_mesh, "crystals x supercells x masses x cutoffs x pairs of temperatures")
    es = []
    for name, sm in (("sc1", (2, 1, 1)), ("cscl", (1, 1, 1)), ("zb", (1, 1, 1)), ("tric2", (1, 1, 1)), ("ort1", (2, 1, 1)),
                     ("tric1", (2, 1, 1)), ("hcp", (1, 1, 1))) + ((("tric1", (3, 1, 1)), ("ort1", (3, 1, 1)))):
        for masses, temp in itertools.product((None, 7.0), TEMPS[:2] if not t else TEMPS):
            for rule in ("product", "cross"):
                if np.prod(sm) == 3 and rule == "product" and not t and (masses or temp != 80.0):
                    continue
                es.append(dict(name=name, smat=list(sm), masses=masses, temp=temp, rule=rule))
    yield Space("ensemble", es, run_ensemble, "all points of a product rule of 6^modes points")
    yield Space("failures", [{}], run_failures, "policies x temperatures x kinds of call")


if __name__ == "__main__":
    main(globals())
