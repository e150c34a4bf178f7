"""C13: direct solution of the linearised Boltzmann equation."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import xtal  # noqa: E402
import c07  # noqa: E402
import c08  # noqa: E402
import c12  # noqa: E402

PROPERTY = "C13"
TECHNIQUE = ("explicit-state model checking: collision matrices and direct solutions of all routes "
             "(irreducible, reducible, without symmetry, all solvers) are executed by the real code "
             "over crystals and option lattices and compared with a matrix assembled over all pairs "
             "of modes of the full zone")
LEVEL = "model_checking"
LEVEL_NOTE = ("The oracle assembles the full matrix over the whole grid without any symmetry, adds "
              "diagonal rates, and inverts it with numpy; raw elements of each route are compared "
              "with it elementwise and conductivities per mode.")
ASSUMPTIONS = ["strengths and weights of the calculation without mesh symmetry (C04, C05, C07)",
               "velocities as decided by C12; within degenerate sets matrix elements are averages"]
KB, THZEV = c12.KB, c12.THZEV
RTOL = 5e-5


def sinh_inv(f, t, cutoff):
    f = np.asarray(f, dtype=float)
    ok = f > cutoff
    with np.errstate(over="ignore"):
        return np.where(ok, 1 / np.sinh(np.where(ok, f, 1) * THZEV / (2 * KB * t)), 0)


class Full:
    """Matrix over all modes of the regular grid."""

    def __init__(self, case):
        c = dict(case, ms=False, bands=None)
        self.ph3, self.it, self.ref = c07.setup(c)
        self.it.run_phonon_solver()
        self.cut = case.get("cutoff", 1e-4)
        bz = self.bz = self.it.bz_grid
        self.gps = np.array(bz.grg2bzg)
        self.n = len(self.gps)
        self.f = self.it.get_phonons()[0]
        self.nb = self.f.shape[1]
        self.g = {}
        for i, gp in enumerate(self.gps):
            self.g[i] = c08.Golden(self.it, int(gp), range(self.nb), self.cut)
        self._w = {}
        self._m = {}

    def weights(self, i, sigma, scut):
        from phono3py.phonon3.triplets import get_triplets_integration_weights

        k = (i, sigma, scut)
        if k not in self._w:
            gp = int(self.gps[i])
            self.it.set_grid_point(gp)
            g, _ = get_triplets_integration_weights(
                self.it, np.array(self.f[gp]), sigma, scut, is_collision_matrix=True)
            g = np.array(g)
            if sigma and not scut:
                # delta functions from three Gaussians
                t = self.g[i].tp
                f0 = self.f[gp][None, :, None, None]
                f1 = self.f[t[:, 1]][:, None, :, None]
                f2 = self.f[t[:, 2]][:, None, None, :]
                own = 0
                for x in (f0 - f1 - f2, f0 + f1 - f2, f0 - f1 + f2):
                    y = np.exp(-x ** 2 / 2 / sigma ** 2) / np.sqrt(2 * np.pi) / sigma
                    own = own + y
                act = ((self.f[t[:, 1]] > self.cut)[:, None, :, None]
                       & (self.f[t[:, 2]] > self.cut)[:, None, None, :])
                vc.close(g[2] * act, own * act, 1e-6, "weights of the collision matrix",
                         scale=1 / sigma)
            self._w[k] = g[2]
        return self._w[k]

    def matrix(self, t, sigma, scut):
        """[q, j, q', j'] without main diagonal."""
        k = (t, sigma, scut)
        if k not in self._m:
            m = np.zeros((self.n, self.nb, self.n, self.nb))
            to = self.bz.bzg2grg
            for i in range(self.n):
                g = self.g[i]
                w = self.weights(i, sigma, scut)
                p = g.pp * w * c08.UNIT
                for a, (_, b1, b2) in enumerate(g.tp):
                    m[i, :, to[b1]] += p[a] @ sinh_inv(self.f[b2], t, self.cut)
                    if g.w[a] == 2:
                        m[i, :, to[b2]] += np.einsum(
                            "jkl,k->jl", p[a], sinh_inv(self.f[b1], t, self.cut))
                    elif g.w[a] != 1:
                        raise Bad("weight %s without symmetry" % g.w[a])
            self._m[k] = m
        return self._m[k]

    def average(self, m):
        """Average over degenerate sets on both sides."""
        m = m.copy()
        for i, gp in enumerate(self.gps):
            for s in c12.degenerate(self.f[gp]):
                m[i, s] = m[i, s].mean(axis=0)
                m[:, :, i, s] = m[:, :, i, s].mean(axis=2)[:, :, None]
        return m

    def gamma(self, t, sigma, scut):
        return np.array([self.g[i].total(t, sigma, scut) for i in range(self.n)])


def lbte(it, case, **kw):
    from phono3py.conductivity.direct_solution import ConductivityLBTE

    a = dict(temperatures=case["temps"], sigmas=case["sigmas"], sigma_cutoff=case.get("scut"),
             is_isotope=case.get("iso", False), boundary_mfp=case.get("mfp"),
             is_reducible_collision_matrix=case.get("red", False),
             is_kappa_star=case.get("star", True), pinv_method=case.get("method", 0),
             pinv_solver=case.get("solver", 0), is_full_pp=case.get("full", False),
             pinv_cutoff=case.get("pcut", 1e-8), lang=case.get("lang", "C"))
    a.update(kw)
    return ConductivityLBTE(it, **a)


def finish(k, it, obs=None):
    for _ in k:
        k.delete_gp_collision_and_pp()
        if obs:
            obs.step()


def same(a, b, what, rtol=RTOL, floor=1e-16):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    vc.close(a, b, rtol, what, scale=max(np.abs(b).max() if b.size else 0, floor))


def rotations(full, case):
    """(rotation of grid [n], cartesian) of the point group used."""
    bz = full.rbz
    if not case.get("star", True):
        return [np.arange(full.n)], [np.eye(3)]
    rec = np.linalg.inv(full.ref.plat)
    rots = np.array(bz.reciprocal_operations)
    q = (bz.QDinv @ bz.addresses[full.gps].T).T
    out, cart = [], []
    key = {tuple(np.round((x - np.floor(x + 1e-7)) * 5040).astype(int) % 5040): i
           for i, x in enumerate(q)}
    for r in rots:
        y = q @ r.T
        out.append(np.array([key[tuple(np.round((x - np.floor(x + 1e-7)) * 5040).astype(int) % 5040)]
                             for x in y]))
        cart.append(rec @ r @ np.linalg.inv(rec))
    return out, cart


def clean(full, gv, rots, cart):
    """Velocities equal within degenerate sets and covariant."""
    for i, gp in enumerate(full.gps):
        for s in c12.degenerate(full.f[gp]):
            if np.abs(gv[i, s] - gv[i, s[0]]).max() > 1e-4:
                return False
    for p, r in zip(rots, cart):
        if np.abs(gv[p] - gv @ r.T).max() > 1e-4:
            return False
    return True


class System:
    """Everything of one (crystal, mesh)."""

    CACHE = {}

    def __new__(cls, case):
        k = (case["xtal"], str(case["mesh"]), case.get("grg", False), case.get("nac"),
             case.get("cutoff"))
        if k not in cls.CACHE:
            cls.CACHE.clear()
            s = cls.CACHE[k] = object.__new__(cls)
            s.full = Full(case)
            ph3, it, ref, vel = c12.build(case)
            s.vel = vel
            f = s.full
            f.rbz = it.bz_grid
            it.run_phonon_solver()
            # same modes in all objects
            vc.close(it.get_phonons()[0][f.gps], f.f[f.gps], 1e-9, "frequencies")
            from phonopy.phonon.group_velocity import GroupVelocity

            v = GroupVelocity(it.dynamical_matrix, symmetry=it.primitive_symmetry,
                              frequency_factor_to_THz=it.frequency_factor_to_THz)
            bz = it.bz_grid
            v.run([bz.QDinv @ bz.addresses[g] for g in f.gps])
            s.gv = v.group_velocities
        return cls.CACHE[k]


def make(case):
    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    return it


def run(case, obs):
    """One route against the full matrix: raw elements and conductivity."""
    s = System(case)
    full = s.full
    it = make(case)
    k = lbte(it, case)
    finish(k, it, obs)
    bz = it.bz_grid
    gps = [int(x) for x in k.grid_points]
    to = bz.bzg2grg
    n, nb = full.n, full.nb
    star, red = case.get("star", True), case.get("red", False)
    if list(full.gps) != list(bz.grg2bzg):
        raise Bad("grids differ")
    rots, cart = rotations(full, case)
    f = full.f[full.gps]
    raw = np.array(k.collision_matrix)
    sig, temps = case["sigmas"], case["temps"]
    gam = {}
    for (j, sg), (t, temp) in itertools.product(enumerate(sig), enumerate(temps)):
        gam[j, t] = full.gamma(temp, sg, case.get("scut"))
        for i, gp in enumerate(gps):
            c08.same(k.gamma[j, t, to[gp] if red else i], gam[j, t][to[gp]],
                     "linewidth %d %s %s" % (gp, sg, temp), floor=1e-12)
        if temp <= 0:
            continue
        m = full.average(full.matrix(temp, sg, case.get("scut")))
        sc = max(np.abs(m).max(), 1e-12)
        for i, gp in enumerate(gps):
            r = to[gp]
            if red:
                got = raw[j, t, r]
                want = m[r]
                got = _avg(got, full, r)
                vc.close(got, want, RTOL, "collision matrix row %d sigma %s T %s" % (gp, sg, temp),
                         scale=sc)
            else:
                got = raw[j, t, i]  # (nb, 3, ir, nb, 3)
                want = np.zeros_like(got)
                for a, g2 in enumerate(gps):
                    for p, c in zip(rots, cart):
                        want[:, :, a] += np.einsum("jk,ab->jakb", m[r][:, p[to[g2]]], c)
                got = _avg_ir(got, full, r, [to[g] for g in gps])
                vc.close(got, want, RTOL, "reduced collision matrix row %d sigma %s T %s" % (
                    gp, sg, temp), scale=sc * len(rots))
            obs.trace()
    # conductivity
    iso = np.array(k.gamma_isotope) if case.get("iso") else None
    k.set_kappa_at_sigmas()
    gv = np.array(s.gv)
    if star:
        g2 = np.zeros_like(gv)
        for gp in gps:
            r = to[gp]
            mult = sum(p[r] == r for p in rots)
            for p, c in zip(rots, cart):
                g2[p[r]] += gv[r] @ c.T / mult
        gvp = g2
    else:
        gvp = gv
    conv = c12.wmk(abs(np.linalg.det(full.ref.plat))) * 1.0
    for (j, sg), (t, temp) in itertools.product(enumerate(sig), enumerate(temps)):
        if temp <= 0:
            if np.abs(k.kappa[j, t]).max() > 0:
                raise Bad("kappa at zero temperature")
            continue
        diag = gam[j, t].copy()
        if iso is not None:
            if red:
                gi = iso[j]
                full_iso = np.zeros((n, nb))
                for gp in gps:
                    for p in rots:
                        full_iso[p[to[gp]]] = gi[to[gp]]
            else:
                full_iso = np.zeros((n, nb))
                for i, gp in enumerate(gps):
                    for p in rots:
                        full_iso[p[to[gp]]] = iso[j, i]
            diag = diag + full_iso
        if case.get("mfp"):
            v = np.linalg.norm(gvp if red else gv, axis=2)
            if not red:
                for gp in gps:
                    for p in rots:
                        v[p[to[gp]]] = np.linalg.norm(gv[to[gp]], axis=1)
            diag = diag + v * 1e-4 / 4 / np.pi / case["mfp"]
        m = full.matrix(temp, sg, case.get("scut"))
        x = gvp * (f * THZEV * sinh_inv(f, temp, full.cut) / (4 * KB * temp ** 2))[:, :, None]
        d = np.einsum("ij,ab->iajb", np.eye(n), np.eye(nb)) * diag[:, :, None, None]
        w = full.average(m) + d if red else full.average(m + d)
        a = w.reshape(n * nb, n * nb)
        a = (a + a.T) / 2
        e, v = np.linalg.eigh(a)
        pc = case.get("pcut", 1e-8)
        ok = (abs(e) if case.get("method", 0) == 0 or case.get("solver") == 7 else e) > pc
        if case.get("solver") == 7:
            # np.linalg.pinv: relative cutoff
            ok = abs(e) > 1e-15 * abs(e).max()
            if ((abs(e) > 1e-18 * abs(e).max()) & (abs(e) < 1e-11 * abs(e).max())).any():
                obs.note("near singular for pinv")
                continue
        edge = abs(abs(e) - pc) < 0.2 * pc
        small = ok & (abs(e) < 1e-6)
        if edge.any() or small.any():
            obs.note("eigenvalue near cutoff")
            continue
        xx = x.reshape(-1, 3)
        ei = np.where(ok, 1 / np.where(ok, e, 1), 0)
        y = v @ (ei[:, None] * (v.T @ xx))
        fac = conv * KB * temp ** 2 / n
        # W/mK: unit of conversion factor has eV
        kap = fac * (xx.T @ y + y.T @ xx)
        if red and star or not star and red:
            kap = np.mean([r @ kap @ r.T for r in _rotc(it, case)], axis=0)
        want = np.array([kap[p] for p in c12.ORD])
        if not np.isfinite(k.kappa[j, t]).all():
            raise Bad("kappa not finite %s" % k.kappa[j, t])
        cond = 1 / abs(e[ok]).min() * abs(e).max() if ok.any() else 1
        same(k.kappa[j, t], want, "kappa sigma %s T %s" % (sg, temp), max(1e-4, 1e-9 * cond))
        # relaxation time approximation
        if red:
            dd = np.diag(a).reshape(n, nb)
        else:
            dd = diag
        good = (f > full.cut)
        if (dd[good] <= 1e-12).any():
            obs.note("mode without scattering")
        else:
            if red:
                xr = x
            else:
                xr = gv * (f * THZEV * sinh_inv(f, temp, full.cut) / (4 * KB * temp ** 2))[:, :, None]
            yr = np.where(good, 1 / np.where(good, dd, 1), 0)[:, :, None] * xr
            if red or not star:
                kr = fac * 2 * np.einsum("ija,ijb->ab", xr, yr)
                if red:
                    kr = np.mean([r @ kr @ r.T for r in _rotc(it, case)], axis=0)
            else:
                kr = 0
                for gp in gps:
                    r = to[gp]
                    mult = sum(p[r] == r for p in rots)
                    o = np.einsum("ja,jb->ab", xr[r], yr[r])
                    kr = kr + sum(2 * fac * c @ o @ c.T for c in cart) / mult
            same(k.kappa_RTA[j, t], np.array([kr[p] for p in c12.ORD]),
                 "kappa of the diagonal, sigma %s T %s" % (sg, temp), 1e-4)
        # averaged strengths
        if case.get("full"):
            ave = np.array(k.averaged_pp_interaction)
            for i, gp in enumerate(full.gps):
                if not red and gp not in gps:
                    continue
                g = full.g[i]
                want = np.einsum("t,tjkl->j", g.w, g.pp) / nb ** 2
                got = ave[i if red else gps.index(gp)].copy()
                for d in c12.degenerate(full.f[gp]):
                    got[d], want[d] = got[d].mean(), want[d].mean()
                c08.same(got, want, "averaged strength at %d" % gp)
        # mode contributions add up
        same(k.mode_kappa[j, t].sum(axis=(0, 1)) / n, k.kappa[j, t], "sum of modes", 1e-9)
        obs.outcome(vc.rd(k.kappa[j, t]))
    obs.state((case["xtal"], str(case["mesh"]), star, red, case.get("solver", 0),
               case.get("method", 0), len(gps), clean(full, gv, rots, cart)))


def _rotc(it, case):
    if not case.get("star", True):
        return [np.eye(3)]
    rec = np.linalg.inv(np.array(it.primitive.cell))
    return [rec @ r @ np.linalg.inv(rec) for r in it.bz_grid.reciprocal_operations]


def _avg(row, full, r):
    row = row.copy()
    for s in c12.degenerate(full.f[full.gps[r]]):
        row[s] = row[s].mean(axis=0)
    for i, gp in enumerate(full.gps):
        for s in c12.degenerate(full.f[gp]):
            row[:, i, s] = row[:, i, s].mean(axis=1)[:, None]
    return row


def _avg_ir(row, full, r, cols):
    row = row.copy()
    for s in c12.degenerate(full.f[full.gps[r]]):
        row[s] = row[s].mean(axis=0)
    for i, c in enumerate(cols):
        for s in c12.degenerate(full.f[full.gps[c]]):
            row[:, :, i, s] = row[:, :, i, s].mean(axis=2)[:, :, None]
    return row


def run_group(case, obs):
    """All routes of one system in one process (the full matrix is shared)."""
    base = {k: v for k, v in case.items() if k != "routes"}
    for r in case["routes"]:
        try:
            run(dict(base, **r), obs)
        except Bad as e:
            e.args = ("%s: %s" % (r, e.args[0]),)
            raise
        obs.step()


def base(x, **kw):
    c = c12.base(x, temps=[300.0], sigmas=[1.0])
    c.update(kw)
    return c


STD = [dict(star=a, red=b) for a in (True, False) for b in (False, True)]


def cases_crystals(tier):
    q = tier == "quick"
    xs = ["sc1", "fcc1", "bcc1", "tet1", "hex1", "mono1", "tric1", "rhom1", "nacl", "cscl", "dia"]
    if not q:
        xs += ["ort1", "bct1", "fco1", "cco1", "zb", "hcp", "p4", "tric2", "naclc", "bccc"]
    out = []
    for x in xs:
        out.append(base(x, routes=STD, temps=[0, 60.0, 300.0]))
        if len(xtal.CELLS.get(x, xtal.CONV.get(x))[1]) == 1:
            out.append(base(x, routes=[dict(ms=False, star=False, red=r) for r in (False, True)],
                            sigmas=[None]))
    if q:
        return [c for c in out if not (c["xtal"] in ("mono1", "tric1", "cscl")
                                       and c["sigmas"] == [None])]
    for x in ("sc1", "fcc1", "bcc1", "hex1"):
        out.append(base(x, mesh=xtal.mesh_c(x, 4, 3), routes=STD))
    for x in ("fcc1", "bcc1", "nacl"):
        out.append(base(x, grg=True, mesh=12.0, routes=STD))
    return out


def cases_options(tier):
    out = []
    for x in ("fcc1", "hex1") if tier == "quick" else ("fcc1", "hex1", "sc1", "nacl"):
        rt = []
        for s in (3, 4, 5, 7):
            for m in (0, 1):
                for r in (False, True):
                    rt.append(dict(solver=s, method=m, red=r))
        out.append(base(x, routes=rt))
        rt = [dict(iso=i, mfp=m, red=r, full=fu) for i in (False, True) for m in (None, 0.02)
              for r in (False, True) for fu in (False, True)]
        out.append(base(x, routes=rt, sigmas=[1.0, 0.6]))
        rt = [dict(scut=c, red=r, sigmas=s, ms=None not in s, star=None not in s) for c in (None, 3.0) for r in (False, True)
              for s in ([None, 1.0], [1.0, None], [0.5, 1.2])]
        out.append(base(x, routes=rt))
        rt = [dict(pcut=c, method=m, red=r) for c in (1e-3, 3e-2, 0.2) for m in (0, 1)
              for r in (False, True)]
        out.append(base(x, routes=rt))
        out.append(base(x, cutoff=1.2, routes=STD))
    for x, m in (("bcc1", [4, 4, 4]), ("hex1", [4, 4, 2])):
        for c in (3.5,) if tier == "quick" else (2.5, 3.5, 6.0, 9.0):
            out.append(base(x, mesh=m, cutoff=c, routes=STD))
    return out


def run_lang(case, obs):
    """Implementations in C and python; solution of collective phonons."""
    it = make(dict(case, r0=False))
    for red in (False, True):
        got = {}
        for lang in ("C", "Py"):
            c = dict(case, red=red, lang=lang)
            k = lbte(it, c)
            finish(k, it, obs)
            k.set_kappa_at_sigmas()
            got[lang] = k.kappa.copy()
        same(got["Py"], got["C"], "languages, reducible %s" % red, 1e-7)
        obs.state(red)
        obs.outcome(vc.rd(got["C"]))


def run_collective(case, obs):
    from phono3py.conductivity.direct_solution import ConductivityLBTE  # noqa: F401

    it = make(case)
    a = lbte(it, case)
    finish(a, it, obs)
    a.set_kappa_at_sigmas()
    for s in (3, 4, 5):
        b = lbte(it, dict(case, solver=s), solve_collective_phonon=True)
        finish(b, it, obs)
        b.set_kappa_at_sigmas()
        same(b.kappa, a.kappa, "collective phonons, solver %d" % s, 1e-5)
        obs.state(s)
        obs.outcome(vc.rd(b.kappa))


def run_colmat(case, obs):
    """CollisionMatrix class: languages, symmetry of elements, order of grid points.

    The average over the three origins exists in C only.
    """
    from phono3py.phonon3.collision_matrix import CollisionMatrix

    it = make(dict(case, r0=False))
    gps = c07.points(it, "ir")
    for sigma, temp in itertools.product(case["sigmas"], case["temps"]):
        res = {}
        for lang in ("C", "Py"):
            c = CollisionMatrix(it, is_reducible_collision_matrix=True, lang=lang)
            for order in (gps, gps[::-1]):
                for gp in order:
                    c.set_grid_point(gp)
                    c.set_sigma(sigma)
                    c.run_integration_weights()
                    c.run_interaction()
                    c.temperature = temp
                    c.run()
                    res.setdefault(gp, []).append(np.array(c.get_collision_matrix()))
                    obs.step()
        for gp, v in res.items():
            for w in v[1:]:
                same(w, v[0], "collision matrix %d of languages/orders" % gp, 1e-8, 1e-12)
        obs.state((sigma, temp))


def spaces(tier):
    q = tier == "quick"
    yield Space("crystals", cases_crystals(tier), run_group,
                "crystals x (star, reducible) x widths x temperatures")
    yield Space("options", cases_options(tier), run_group,
                "solvers x methods of inversion x cutoffs; isotopes, boundary, full; lists of widths")
    yield Space("languages", [base(x, mesh=[2, 2, 2]) for x in
                              (("fcc1", "tet1") if q else ("fcc1", "tet1", "hex1", "nacl"))], run_lang,
                "C and python")
    yield Space("class", [base(x, sigmas=[None, 1.0], temps=[0, 300.0]) for x in
                          (("fcc1", "hex1") if q else ("fcc1", "hex1", "bcc1", "nacl", "tet1"))],
                run_colmat, "CollisionMatrix objects")
    yield Space("collective", [base(x) for x in (("fcc1", "hex1") if q else
                                                 ("fcc1", "hex1", "nacl", "tet1", "sc1", "mono1"))],
                run_collective, "collective phonons x solvers")


if __name__ == "__main__":
    vc.main(globals())
