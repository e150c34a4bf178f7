"""C14: coherences: Wigner and Kubo formulations."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import xtal  # noqa: E402
import c07  # noqa: E402
import c12  # noqa: E402
import c13  # noqa: E402

PROPERTY = "C14"
TECHNIQUE = ("explicit-state model checking: the Wigner and Kubo conductivity classes are driven by "
             "the real code over crystals, option lattices and patterns of linewidths (including "
             "zero) and compared block by block with an own velocity operator and star sums")
LEVEL = "model_checking"
LEVEL_NOTE = ("Velocity operators come from derivatives of an own dynamical matrix; products are "
              "compared summed over blocks of degenerate modes (independent of eigenvectors), mode "
              "contributions from linewidths, heat capacities and stars; Wigner direct solutions "
              "against the conventional ones; heat-capacity matrix over a lattice of pairs.")
ASSUMPTIONS = ["linewidths as decided by C08, C12", "direct solution as decided by C13",
               "gonze NAC: only structural relations of velocity operators"]
KB, THZEV, ORD = c12.KB, c12.THZEV, c12.ORD


def blocks(f, cut):
    return [b for b in c12.degenerate(f) if all(f[i] > cut for i in b)]


class Oper:
    """Velocity operators <i|dD|j> in THz^2 A with own eigenvectors."""

    def __init__(self, ph3, it, ref, name, smat, nac=None):
        ref.name, ref.smat = name, tuple(smat)
        ref.fc2 = xtal.model(name, tuple(smat))[0]
        self.ref = ref
        self.nac = nac
        self.factor = it.frequency_factor_to_THz
        self._c = {}

    def at(self, q):
        k = tuple(np.round(q, 9))
        if k not in self._c:
            if self.nac is None:
                d, dd = c12.dmat(self.ref, q)
            else:
                def dm(x):
                    return self.ref.dm_wang(x, self.nac)
                d = dm(q)
                dd = []
                h = 5e-6
                for a in np.eye(3):
                    s = self.ref.plat @ a * h
                    dd.append((dm(q + s) - dm(q - s)) / 2 / h)
                dd = np.array(dd)
            w, e = np.linalg.eigh(d)
            f = refphonon.freqs_of(w, self.factor)
            m = np.array([e.conj().T @ x @ e for x in dd]) * self.factor ** 2
            self._c[k] = f, m
        return self._c[k]

    def wigner(self, q):
        f, m = self.at(q)
        s = f[:, None] + f[None]
        return f, m / np.where(abs(s) > 1e-3, s, 1e300)

    def kubo(self, q):
        f, m = self.at(q)
        g = np.where(f > 1e-3, f, 1e300)
        return f, m / 2 / np.sqrt(np.outer(g, g))


def block_star(v, q, ops, cart, f, cut):
    """Sum over the star of v_a v_b* summed over blocks: [A, B, 6], order of star."""
    bl = blocks(f, cut)
    t = np.zeros((len(bl), len(bl), 3, 3), dtype=complex)
    for a, b in np.ndindex(t.shape[:2]):
        x = v[:, bl[a]][:, :, bl[b]].reshape(3, -1)
        t[a, b] = x @ x.conj().T
    arms = {}
    for r in ops:
        x = r @ q
        k = tuple(np.round((x - np.floor(x + 1e-7)) + 1e-9, 6) % 1.0)
        arms.setdefault(k, []).append(cart(r))
    out = 0
    for rs in arms.values():
        for c in rs:
            out = out + np.einsum("ac,xycd,bd->xyab", c, t, c) / len(rs)
    return np.stack([out[..., a, b] for a, b in ORD], axis=-1), len(arms), bl


def lump(x, bl):
    """Sum over blocks of the first two axes."""
    return np.array([[x[np.ix_(a, b)].sum(axis=(0, 1)) for b in bl] for a in bl])


def near(f):
    """Frequencies whose grouping by 1e-4 is decided by roundoff."""
    d = np.diff(np.sort(f))
    return ((d > 2e-6) & (d < 2e-3)).any()


def make(case, kind, it, **kw):
    from phono3py.conductivity import rta

    cls = {"wigner": rta.ConductivityWignerRTA, "kubo": rta.ConductivityKuboRTA,
           "standard": rta.ConductivityRTA}[kind]
    a = dict(temperatures=case["temps"], sigmas=case["sigmas"], is_isotope=case.get("iso", False),
             boundary_mfp=case.get("mfp"), is_kappa_star=case.get("star", True),
             gv_delta_q=case.get("dq"))
    a.update(kw)
    return cls(it, **a)


def gammas(case, shape):
    """Patterns of linewidths."""
    n = np.arange(np.prod(shape)).reshape(shape)
    p = case["pattern"]
    if p == "zero":
        return np.zeros(shape)
    g = 0.01 * (1 + n % 7)
    if p == "holes":
        g = np.where(n % 3 == 0, 0, g)
    if p == "wide":
        g = g * 300
    if p == "tiny":
        g = g * 1e-6
    return g


def setup(case):
    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    nac = it.nac_params if case.get("nac") else None
    op = Oper(ph3, it, ref, case["xtal"], case["smat"], nac)
    return ph3, it, ref, op


def degenerate_gamma(g, f):
    g = g.copy()
    for b in c12.degenerate(f):
        g[..., b] = g[..., b].mean(axis=-1)[..., None]
    return g


def widths(case, k, it, i, j, t, gv):
    g = np.array(k.gamma[j, t, i], dtype=float)
    if case.get("iso"):
        g = g + k.gamma_isotope[j, i]
    if case.get("mfp"):
        g = g + np.linalg.norm(gv, axis=1) * 1e-4 / 4 / np.pi / case["mfp"]
    return g


def go(case, k, it, obs):
    f = it.get_phonons()[0]
    if case.get("pattern"):
        g = gammas(case, k.gamma.shape if k.gamma is not None else None)
        for i, gp in enumerate(k.grid_points):
            g[:, :, i] = degenerate_gamma(g[:, :, i], f[gp])
        k.gamma = g
    for _ in k:
        obs.step()
    k.set_kappa_at_sigmas()


def run_wigner(case, obs):
    ph3, it, ref, op = setup(case)
    k = make(case, "wigner", it)
    go(case, k, it, obs)
    bz = it.bz_grid
    cut = case.get("cutoff", 1e-4)
    f = it.get_phonons()[0]
    rec = np.linalg.inv(ref.plat)
    ops = bz.reciprocal_operations if case.get("star", True) else [np.eye(3, dtype=int)]

    def cart(r):
        return rec @ r @ np.linalg.inv(rec)

    vol = abs(np.linalg.det(ref.plat))
    conv = c12.wmk(vol)
    P, C = np.array(k.mode_kappa_P_RTA), np.array(k.mode_kappa_C)
    if np.isnan(P).any() or np.isnan(C).any() or np.isnan(k.kappa_TOT_RTA).any():
        raise Bad("conductivity not finite: %s" % k.kappa_TOT_RTA)
    num = 0
    for i, gp in enumerate(k.grid_points):
        gp = int(gp)
        q = bz.QDinv @ bz.addresses[gp]
        fo, v = op.wigner(q)
        fg = f[gp]
        if near(fg) or case.get("nac") and np.abs(q).max() < 1e-9:
            obs.note("nearly degenerate or NAC at Gamma")
            num += block_star(v, q, ops, cart, fg, cut)[1]
            continue
        bl = blocks(fg, cut)
        bg = [b for b in blocks(fg, max(cut, 1e-2))]
        if np.abs(fo - fg).max() > 1e-5 * (1 + fg.max()) and np.abs(q).max() > 1e-9:
            raise Bad("frequencies at %d %s %s" % (gp, fo, fg))
        own, order, _ = block_star(v, q, ops, cart, fg, cut)
        num += order
        o = np.array(k.velocity_operator[i])  # (nb, nb, 3)
        vc.close(o, o.transpose(1, 0, 2).conj(), 1e-12, "hermiticity of the velocity operator",
                 scale=1 + np.abs(o).max())
        gonze = case.get("nac") == "gonze"
        if gonze:
            v = o.transpose(2, 0, 1)
            own = block_star(v, q, ops, cart, fg, cut)[0]
        if not bl:
            if np.abs(P[:, :, i]).any() or np.abs(C[:, :, i]).any():
                raise Bad("contribution of modes below the cutoff at %d" % gp)
            continue
        sc = 1 + np.abs(v[:, fg > cut][:, :, fg > cut]).max() ** 2
        # blocks of the operator itself
        for a, b in itertools.product(bg, repeat=2):
            x, y = (w[:, a][:, :, b].reshape(3, -1) for w in (o.transpose(2, 0, 1), v))
            vc.close(x @ x.conj().T, y @ y.conj().T, 2e-5, "velocity operator at %d, bands %s %s" % (
                gp, a, b), scale=sc)
        # group velocities: eigenvalues of the diagonal blocks
        gv = np.zeros((len(fg), 3))
        for b in blocks(fg, cut):
            for x in range(3):
                gv[b, x] = np.linalg.eigvalsh(v[x][np.ix_(b, b)])
        g2 = lump(np.array(k.gv_by_gv_operator[i]), bl)
        if len(bl):
            vc.close(g2, own, 2e-5, "squares of velocity operators over the star at %d" % gp,
                     scale=sc * len(ops))
        for j, t in np.ndindex(P.shape[:2]):
            temp = case["temps"][t]
            cv = c12.heat(fg, temp, cut)
            vc.close(k.mode_heat_capacities[t, i], cv, 3e-5, "heat capacities", scale=KB)
            g = widths(case, k, it, i, j, t, gv)
            skip = fg <= cut
            if np.abs(P[j, t, i][skip]).any() or np.abs(C[j, t, i][skip]).any() or np.abs(
                    C[j, t, i][:, skip]).any():
                raise Bad("contribution of modes below the cutoff at %d" % gp)
            for (x, a), (y, b) in itertools.product(enumerate(bl), repeat=2):
                gs = g[a].mean() + g[b].mean()
                if x == y and len(a) > 1 and 0 < gs < 1e-8:
                    obs.note("widths below roundoff of degenerate frequencies")
                    continue
                fa, fb = fg[a].mean(), fg[b].mean()
                pre = (fa + fb) / 4 * (cv[a].mean() / fa + cv[b].mean() / fb)
                if x == y:
                    lor = 1 / gs if gs > 0 else 0
                else:
                    lor = gs / ((fa - fb) ** 2 + gs ** 2)
                want = (own[x, y] * pre * lor * conv).real
                bound = max(np.abs(own[x, y]).max(), 1e-6 * sc) * max(pre * lor, KB * 1e-30 * lor, 1e-250) * conv
                cb = C[j, t, i][np.ix_(a, b)].sum(axis=(0, 1))
                if x == y:
                    vc.close(P[j, t, i][a].sum(axis=0), want, 1e-4,
                             "populations at %d bands %s T %s" % (gp, a, temp), scale=bound)
                    if np.abs(cb).any():
                        raise Bad("coherences within degenerate modes %s at %d" % (a, gp))
                else:
                    vc.close(cb, want, 1e-4, "coherences at %d bands %s %s T %s" % (gp, a, b, temp),
                             scale=bound)
        obs.state((gp, len(bl)))
    n = max(num, 1)
    c12.same(k.kappa_P_RTA, P.sum(axis=(2, 3)) / n, "populations", 1e-9)
    c12.same(k.kappa_C, C.sum(axis=(2, 3, 4)) / n, "coherences", 1e-9)
    c12.same(k.kappa_TOT_RTA, k.kappa_P_RTA + k.kappa_C, "total", 1e-9)
    if n != np.prod(bz.D_diag):
        raise Bad("%d points of the stars instead of %d" % (n, np.prod(bz.D_diag)))
    # conventional relaxation time approximation where no modes are degenerate
    s = make(case, "standard", it)
    if case.get("pattern"):
        s.gamma = np.array(k.gamma)
    for _ in s:
        pass
    s.set_kappa_at_sigmas()
    for i, gp in enumerate(k.grid_points):
        for b in blocks(f[gp], max(cut, 1e-2)):
            if len(b) == 1 and not near(f[gp]):
                for j, t in np.ndindex(P.shape[:2]):
                    g = widths(case, s, it, i, j, t, s.group_velocities[i])[b]
                    y = s.mode_heat_capacities[t, i, b] / 2 / np.where(g > 0, g, 1) * conv
                    if g[0] <= 0 or y[0] <= 0:
                        continue
                    if case.get("mfp") and g[0] < 1e-8:
                        continue
                    vc.close(P[j, t, i, b] / y, s.mode_kappa[j, t, i, b] / y, 1e-4,
                             "populations and conventional at %d band %s" % (gp, b),
                             scale=1 + np.abs(s.gv_by_gv[i]).max())
    obs.outcome((vc.rd(k.kappa_C), vc.rd(k.kappa_P_RTA)))
    obs.state((case["xtal"], case.get("pattern"), case.get("star", True)))


def cvmat(f, t, cut):
    """Heat-capacity matrix in eV/K."""
    n = len(f)
    out = np.zeros((n, n))
    if t <= 0:
        return out
    x = f * THZEV / KB / t
    occ = np.array([1 / np.expm1(v) if 0 < v < 600 else 0.0 for v in x])
    for i, j in np.ndindex(n, n):
        if f[i] <= cut or f[j] <= cut:
            continue
        if abs(x[i] - x[j]) < 1e-6:
            out[i, j] = KB * x[i] ** 2 * occ[i] * (occ[i] + 1)
        else:
            out[i, j] = KB * (occ[j] - occ[i]) / (x[i] - x[j]) * (x[i] + x[j]) ** 2 / 4
    return out


def run_bands(case, obs):
    """Selected bands: their rows of the velocity operator and of its products."""
    got = {}
    for bands in [None] + case["sets"]:
        ph3, it, ref, op = setup(dict(case, bands=bands))
        k = make(case, "wigner", it)
        for _ in k:
            obs.step()
        got[str(bands)] = [np.array(x) for x in (
            k.velocity_operator, k.gv_by_gv_operator, k.mode_heat_capacities.transpose(1, 2, 0))]
        names = ("velocity operator", "products of velocity operators", "heat capacities")
        for name, a, b in zip(names, got[str(bands)], got["None"]):
            b = b if bands is None else b[:, bands]
            vc.close(a, b, 1e-7, "%s of bands %s" % (name, bands), scale=np.abs(b).max() + 1e-12)
            obs.outcome(vc.rd(a, 6))
        obs.state((str(bands), case["xtal"]))


def run_kubo(case, obs):
    ph3, it, ref, op = setup(case)
    k = make(case, "kubo", it)
    go(case, k, it, obs)
    bz = it.bz_grid
    cut = case.get("cutoff", 1e-4)
    f = it.get_phonons()[0]
    rec = np.linalg.inv(ref.plat)
    ops = bz.reciprocal_operations if case.get("star", True) else [np.eye(3, dtype=int)]

    def cart(r):
        return rec @ r @ np.linalg.inv(rec)

    conv = c12.wmk(abs(np.linalg.det(ref.plat)))
    M = np.array(k.mode_kappa_mat)
    if not np.isfinite(M).all():
        raise Bad("not finite")
    num = 0
    for i, gp in enumerate(k.grid_points):
        gp = int(gp)
        q = bz.QDinv @ bz.addresses[gp]
        fo, v = op.kubo(q)
        fg = f[gp]
        if near(fg) or case.get("nac") and np.abs(q).max() < 1e-9:
            obs.note("nearly degenerate or NAC at Gamma")
            num += block_star(v, q, ops, cart, fg, cut)[1]
            continue
        own, order, bl = block_star(v, q, ops, cart, fg, cut)
        sc = 1 + (np.abs(own).max() if bl else 0)
        num += order
        gv = np.einsum("xii->ix", v).real
        if case.get("mfp") and any(len(b) > 1 for b in bl):
            obs.note("boundary scattering of degenerate modes")
            continue
        for j, t in np.ndindex(M.shape[:2]):
            temp = case["temps"][t]
            g = widths(case, k, it, i, j, t, gv)
            fb = fg.copy()
            for b in c12.degenerate(fg):
                fb[b] = fg[b].mean()
            cv = cvmat(fb, temp, cut)
            for (x, a), (y, b) in itertools.product(enumerate(bl), repeat=2):
                gs = g[a].mean() + g[b].mean()
                if x == y and len(a) > 1 and 0 < gs < 1e-8:
                    obs.note("widths below roundoff of degenerate frequencies")
                    continue
                df = (fb[a[0]] - fb[b[0]]) if x != y else 0
                lor = gs / (df ** 2 + gs ** 2) if gs > 0 else 0
                c = cv[a[0], b[0]]
                want = own[x, y] * c * lor * conv
                bound = max(np.abs(own[x, y]).max(), 1e-6 * sc) * max(1e-250, abs(c) * lor, KB * 1e-30 * lor) * conv
                got = M[j, t, i][np.ix_(a, b)].sum(axis=(0, 1))
                # constants enter exponents
                e = 0 if temp <= 0 else min(fb[a[0]], fb[b[0]]) * THZEV / KB / temp
                vc.close(got, want, 1e-4 * (1 + e), "elements at %d bands %s %s T %s" % (gp, a, b, temp),
                         scale=bound)
            skip = fg <= cut
            if np.abs(M[j, t, i][skip]).any() or np.abs(M[j, t, i][:, skip]).any():
                raise Bad("contribution of modes below the cutoff at %d" % gp)
        obs.state((gp, len(bl)))
    c12.same(k.kappa, M.sum(axis=(2, 3, 4)).real / num, "kappa", 1e-9)
    if num != np.prod(bz.D_diag):
        raise Bad("%d points of the stars instead of %d" % (num, np.prod(bz.D_diag)))
    obs.outcome(vc.rd(k.kappa))
    obs.state((case["xtal"], case.get("pattern"), case.get("star", True)))


def run_lbte(case, obs):
    """Direct solution with coherences."""
    from phono3py.conductivity.direct_solution import ConductivityWignerLBTE

    ph3, it, ref, op = setup(case)
    w = make(case, "wigner", it)
    go(case, w, it, obs)
    a = dict(temperatures=case["temps"], sigmas=case["sigmas"],
             is_isotope=case.get("iso", False), boundary_mfp=case.get("mfp"),
             is_kappa_star=case.get("star", True))
    k = ConductivityWignerLBTE(it, **a)
    for _ in k:
        k.delete_gp_collision_and_pp()
        obs.step()
    k.set_kappa_at_sigmas()
    s = c13.lbte(it, case)
    for _ in s:
        s.delete_gp_collision_and_pp()
    s.set_kappa_at_sigmas()
    pos = np.array(case["temps"]) > 0
    c12.same(k.gamma, w.gamma, "linewidths", 1e-9)
    c12.same(np.array(k.kappa_C)[:, pos].real, w.kappa_C[:, pos], "coherences", 1e-7)
    c12.same(np.array(k.mode_kappa_C)[:, pos].real, w.mode_kappa_C[:, pos], "mode coherences", 1e-7)
    c12.same(k.kappa_TOT_RTA, np.array(k.kappa_P_RTA) + np.array(k.kappa_C), "total RTA", 1e-9)
    c12.same(k.kappa_TOT_exact, np.array(k.kappa_P_exact) + np.array(k.kappa_C), "total", 1e-9)
    same_gv = True
    f = it.get_phonons()[0]
    for i, gp in enumerate(k.grid_points):
        same_gv &= all(len(b) == 1 for b in blocks(f[gp], case.get("cutoff", 1e-4)))
    if same_gv:
        for a, b, m in ((k.kappa_P_exact, s.kappa, "direct solution"),
                        (k.kappa_P_RTA, s.kappa_RTA, "RTA")):
            vc.close(a, b, 1e-4, "populations of the %s" % m, scale=1e-9 + np.abs(b).max())
        c12.same(k.kappa_P_RTA[:, pos], w.kappa_P_RTA[:, pos], "RTA of both classes", 1e-4)
    else:
        obs.note("velocities of degenerate modes differ")
    if not np.isfinite(np.array(k.kappa_TOT_exact)).all():
        raise Bad("not finite")
    obs.outcome((vc.rd(np.array(k.kappa_C).real), vc.rd(k.kappa_P_exact)))
    obs.state((case["xtal"], bool(same_gv)))


def run_heat(case, obs):
    """Heat-capacity matrix over all pairs of a lattice of frequencies."""
    from phono3py.phonon.heat_capacity_matrix import mode_cv_matrix
    from phonopy.units import THzToEv

    f = np.array(case["freqs"], dtype=float)
    with np.errstate(all="ignore"):
        c = mode_cv_matrix(case["temp"], f * THzToEv)
    want = cvmat(f, case["temp"], 1e-4)
    ok = np.outer(f > 1e-4, f > 1e-4)
    if not np.isfinite(c[ok]).all():
        raise Bad("heat capacity not finite at %s: %s" % (case["temp"], c))
    vc.close(c[ok], want[ok], 3e-4, "heat capacity matrix T %s" % case["temp"], scale=KB)
    vc.close(c[ok], c.T[ok], 3e-4, "symmetry", scale=KB)
    obs.state(case["temp"])
    obs.step(len(f) ** 2)
    obs.outcome(vc.rd(c[ok]))


def run_classes(case, obs):
    """Velocity classes at arbitrary points, with and without finite displacements."""
    from phono3py.phonon.group_velocity_matrix import GroupVelocityMatrix
    from phono3py.phonon.velocity_operator import VelocityOperator

    ph3, it, ref, op = setup(case)
    qs = [np.array(q) / case["den"] for q in itertools.product(range(case["den"]), repeat=3)]
    qs += [np.array([0.11, 0.23, 0.37]), np.array([0.5, 0.21, -0.33])]
    for cls, name in ((VelocityOperator, "wigner"), (GroupVelocityMatrix, "kubo")):
        for ql in (None, 1e-5):
            for sym in (None, it.primitive_symmetry):
                o = cls(it.dynamical_matrix, q_length=ql, symmetry=sym,
                        frequency_factor_to_THz=it.frequency_factor_to_THz)
                o.run(qs)
                for n, q in enumerate(qs):
                    f, v = getattr(op, name)(q)
                    if near(f):
                        obs.note("nearly degenerate")
                        continue
                    got = (o.velocity_operators[n].transpose(2, 0, 1) if name == "wigner"
                           else o.group_velocity_matrices[n])
                    bl = blocks(f, 1e-2)
                    sc = 1 + np.abs(v).max() ** 2
                    for a, b in itertools.product(bl, repeat=2):
                        x, y = (w[:, a][:, :, b] for w in (got, v))
                        vc.close(got[:, b][:, :, a], x.conj().transpose(0, 2, 1), 1e-9,
                                 "%s not hermitian" % name, scale=sc)
                        x, y = x.reshape(3, -1), y.reshape(3, -1)
                        vc.close(x @ x.conj().T, y @ y.conj().T, 3e-5,
                                 "%s at %s bands %s %s symmetry %s" % (name, q, a, b, sym is not None),
                                 scale=sc)
                    obs.step()
                    obs.state((name, ql, sym is None, n))


def base(x, **kw):
    c = c12.base(x, temps=[0, 300.0])
    c.update(kw)
    return c


def xs(tier):
    out = ["sc1", "hex1", "tric1", "mono1", "nacl", "cscl", "zb", "dia", "rhom1", "hcp", "p4"]
    if tier != "quick":
        out += ["fcc1", "bcc1", "tet1", "ort1", "bct1", "fco1", "cco1", "tric2", "te", "wz"]
    return [x for x in out if x in xtal.SMAT]


def cases(tier, kubo=False):
    out = []
    for x in xs(tier):
        out.append(base(x))
        out.append(base(x, star=False, sigmas=[None]))
    for x in (("nacl", "hex1") if tier == "quick" else ("nacl", "hex1", "zb", "mono1", "hcp")):
        for p in ("zero", "holes", "wide", "tiny"):
            out.append(base(x, pattern=p, temps=[0, 2.0, 300.0], sigmas=[0.5, None]))
        out.append(base(x, iso=True, mfp=0.05))
        out.append(base(x, dq=1e-4))
        out.append(base(x, cutoff=3.0))
        out.append(base(x, temps=[1.0, 5.0, 40.0, 2000.0]))
    if not kubo:
        for x in ("nacl", "cscl"):
            for n in ("wang", "gonze"):
                out.append(base(x, nac=n))
    for x in ("sc1", "hex1", "nacl", "mono1", "hcp", "zb", "rhom1"):
        m = [3, 3, 2] if x in ("hex1", "hcp") else [3, 2, 1] if x in ("mono1",) else [3, 3, 3]
        out.append(base(x, mesh=m, sigmas=[0.5, None]))
        if tier != "quick":
            out.append(base(x, mesh=m, sigmas=[0.5], star=False, temps=[100.0, 1000.0], iso=True))
            out.append(base(x, mesh=[4, 4, 4] if m[2] == 3 else [4, 4, 1], sigmas=[0.5]))
    out.append(base("fcc1", grg=True, mesh=12.0))
    out.append(base("nacl", grg=True, mesh=12.0))
    return out


def spaces(tier):
    q = tier == "quick"
    yield Space("wigner", cases(tier), run_wigner, "crystals x stars, linewidth patterns, options")
    yield Space("kubo", cases(tier, True), run_kubo, "crystals x stars, linewidth patterns, options")
    yield Space("bands", [base(x, star=st, sigmas=[None, 0.5], sets=[[0], [2, 1], [0, 4], [5, 3, 1]])
                          for x in (("nacl", "zb") if q else ("nacl", "zb", "hcp", "rhom2", "cscl")
                                    ) if x in xtal.SMAT
                          for st in (True, False)], run_bands, "crystals x stars x sets of bands")
    yield Space("direct", [base(x, temps=[0, 300.0], star=s) for x in
                           (("tric1", "mono1", "nacl", "hex1") if q else
                            ("tric1", "mono1", "nacl", "hex1", "sc1", "zb", "tric2", "rhom1", "ort1"))
                           for s in (True, False)], run_lbte, "direct solutions with coherences")
    fr = [0.05, 0.5, 0.5, 0.50001, 1.0, 3.0, 8.0, 14.0, 25.0, 60.0]
    yield Space("heat", [dict(freqs=fr, temp=t) for t in
                         (0.5, 1, 2, 5, 10, 30, 100, 300, 1000, 5000)], run_heat,
                "pairs of frequencies x temperatures")
    yield Space("classes", [base(x, den=2 if q else 4, mesh=[1, 1, 1]) for x in
                            (("sc1", "hex1", "nacl", "zb", "mono1") if q else xs(tier))],
                run_classes, "q-points x finite displacements x symmetry")


if __name__ == "__main__":
    vc.main(globals())
