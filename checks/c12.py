"""C12: the RTA conductivity is the mode sum over the whole zone."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import xtal  # noqa: E402
import c07  # noqa: E402
import c08  # noqa: E402
import c11  # noqa: E402

PROPERTY = "C12"
TECHNIQUE = ("explicit-state model checking: the conductivity class is driven by the real code over "
             "all crystals, option lattices and all orders and subsets of grid points of small "
             "meshes, and compared with an independent sum over modes and stars")
LEVEL = "model_checking"
LEVEL_NOTE = ("Linewidths are compared with the golden rule, velocities with analytic derivatives of "
              "an own dynamical matrix, mode contributions and totals with own star sums over the "
              "full grid; all permutations and subsets of the irreducible points, all options that "
              "select a route, temperatures and widths in lists.")
ASSUMPTIONS = ["at degenerate points velocities follow the convention of phonopy's GroupVelocity "
               "(perturbation along a fixed direction, average over the little group of the "
               "reduced q-point)",
               "strengths and weights as decided by C05, C07, C08, C11"]
KB = 8.617333262e-5
THZEV = 4.135667696e-3
ORD = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))


def wmk(volume):
    """(THz A)^2 eV/K / (2 pi THz) / A^3 in W/mK."""
    return (1e12 * 1e-10) ** 2 / 1e-30 * refphonon.EV / 1e12 / (2 * np.pi) / volume


def heat(f, t, cutoff):
    """eV/K."""
    f = np.asarray(f, dtype=float)
    out = np.zeros(f.shape)
    if t <= 0:
        return out
    ok = (f > cutoff) & (f * THZEV < 100 * KB * t)
    x = f[ok] * THZEV / (KB * t)
    out[ok] = KB * x ** 2 * np.exp(x) / (np.exp(x) - 1) ** 2
    return out


def dmat(ref, q, nac=None):
    """Dynamical matrix and its three cartesian derivatives (q without 2 pi)."""
    nb = ref.nb
    d = np.zeros((nb, nb), dtype=complex)
    dd = np.zeros((3, nb, nb), dtype=complex)
    for (i, j), v in ref.vec.items():
        ph = np.exp(2j * np.pi * ((v @ ref.pinv) @ q))
        jj = ref.s2pp[j]
        fc = ref.fc2[ref.p2s[i], j]
        a, b = slice(3 * i, 3 * i + 3), slice(3 * jj, 3 * jj + 3)
        d[a, b] += fc * ph.mean()
        for x in range(3):
            dd[x][a, b] += fc * (2j * np.pi * v[:, x] * ph).mean()
    sm = np.repeat(np.sqrt(ref.masses), 3)
    m = np.outer(sm, sm)
    d, dd = d / m, dd / m
    return (d + d.conj().T) / 2, (dd + dd.conj().transpose(0, 2, 1)) / 2


def degenerate(f, tol=1e-4):
    out = [[0]]
    for i in range(1, len(f)):
        if abs(f[i] - f[out[-1][-1]]) < tol:
            out[-1].append(i)
        else:
            out.append([i])
    return out


class Velocity:
    def __init__(self, ph3, ref, cutoff=1e-4):
        ref.fc2 = ph3.fc2 if ph3.fc2.shape[0] == ph3.fc2.shape[1] else None
        if ref.fc2 is None:
            ref.fc2 = xtal.model(ref.name, ref.smat)[0]
        self.ref = ref
        self.factor = ph3.unit_conversion_factor if hasattr(
            ph3, "unit_conversion_factor") else refphonon.THZ
        self.ops = np.array(ph3.primitive_symmetry.reciprocal_operations)
        self.rec = np.linalg.inv(ref.plat)
        self._c = {}

    def at(self, q):
        k = tuple(np.round(q, 9))
        if k not in self._c:
            self._c[k] = self._at(np.array(q, dtype=float))
        return self._c[k]

    def _at(self, q):
        d, dd = dmat(self.ref, q)
        w, e = np.linalg.eigh(d)
        f = refphonon.freqs_of(w, self.factor)
        n = np.array([1, 2, 3]) / np.sqrt(14)
        pert = np.einsum("x,xab->ab", n, dd)
        gv = np.zeros((len(f), 3))
        for g in degenerate(f):
            s = e[:, g]
            u = s @ np.linalg.eigh(s.conj().T @ pert @ s)[1]
            for x in range(3):
                gv[g, x] = np.einsum("ai,ab,bi->i", u.conj(), dd[x], u).real
        gv = np.where((f > 1e-4)[:, None],
                      gv * self.factor ** 2 / 2 / np.where(f > 1e-4, f, 1)[:, None], 0)
        # little group
        qr = q - np.rint(q)
        rot = []
        for r in self.ops:
            if np.abs(qr - r @ qr).max() < 1e-5:
                rot.append(self.cart(r))
        return f, np.mean([gv @ r.T for r in rot], axis=0)

    def cart(self, r):
        return self.rec @ r @ np.linalg.inv(self.rec)


def star_sum(vel, q, gv, ops):
    """Sum of outer products over the distinct points of the star, and its order."""
    arms = {}
    for r in ops:
        x = r @ q
        k = tuple(np.round((x - np.floor(x + 1e-7)) + 1e-9, 6) % 1.0)
        arms.setdefault(k, []).append(r)
    out = np.zeros((len(gv), 3, 3))
    for rs in arms.values():
        s = 0
        for r in rs:
            v = gv @ vel.cart(r).T
            s = s + np.einsum("ia,ib->iab", v, v)
        out += s / len(rs)
    return np.stack([out[:, a, b] for a, b in ORD], axis=1), len(arms)


def build(case):
    ph3, it, ref = c07.setup(case)
    ref.name, ref.smat = case["xtal"], tuple(case["smat"])
    vel = Velocity(ph3, ref) if not case.get("nac") else None
    return ph3, it, ref, vel


def rta(it, case, **kw):
    from phono3py.conductivity.rta import ConductivityRTA

    a = dict(temperatures=case["temps"], sigmas=case["sigmas"], sigma_cutoff=case.get("scut"),
             is_isotope=case.get("iso", False), mass_variances=case.get("mv"),
             boundary_mfp=case.get("mfp"), is_kappa_star=case.get("star", True))
    a.update(kw)
    return ConductivityRTA(it, **a)


def golden(case, gps):
    _, it, ref = c07.setup(dict(case))
    it.run_phonon_solver()
    bands = np.array(c08.all_bands(case, ref))
    return {int(g): c08.Golden(it, int(g), bands, case.get("cutoff", 1e-4)) for g in gps}


def same(a, b, what, rtol=1e-6, floor=1e-20):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    vc.close(a, b, rtol, what, scale=max(np.abs(b).max() if b.size else 0, floor))


def judge(case, obs, k, it, ref, vel, gold, full_sum=True, gamma=True, tag=""):
    """Everything of a finished conductivity object against the oracle."""
    bz = it.bz_grid
    gps = [int(x) for x in k.grid_points]
    cut = case.get("cutoff", 1e-4)
    bands = np.array(c08.all_bands(case, ref))
    ops = bz.reciprocal_operations if case.get("star", True) else [np.eye(3, dtype=int)]
    f = it.get_phonons()[0]
    vol = abs(np.linalg.det(ref.plat))
    order = []
    total = np.zeros((len(case["sigmas"]), len(case["temps"]), 6))
    mode = np.zeros(total.shape[:2] + (len(gps), ref.nb, 6))
    vs = []
    for i, gp in enumerate(gps):
        q = bz.QDinv @ bz.addresses[gp]
        same(k.qpoints[i], q, tag + "q-point %d" % gp, 1e-12)
        same(k.frequencies[i], f[gp], tag + "frequencies %d" % gp, 1e-12)
        if vel is not None:
            fv, gv = vel.at(q)
            sens = np.array([min([abs(x - y) for y in fv if y is not x] + [9]) for x in fv])
            if (abs(fv - f[gp]) > 1e-5 * (1 + abs(fv).max())).any():
                raise Bad("%sfrequencies at %d: %s %s" % (tag, gp, fv, f[gp]))
            near = (sens > 1e-7) & (sens < 1e-2)  # direction of eigenvectors ill-defined
            if near.any():
                obs.note("nearly degenerate")
                gv = np.where(near[:, None], k.group_velocities[i] if len(bands) == ref.nb
                              else 0, gv)
        else:
            gv = k.group_velocities[i]
        same(k.group_velocities[i], gv[bands], tag + "velocities at %d" % gp, 1e-5, 1e-3)
        g2, n = star_sum(vel or Velocity.__new__(Velocity), q, gv, ops) if vel else (None, None)
        if vel is None:
            v = Velocity.__new__(Velocity)
            v.rec = np.linalg.inv(ref.plat)
            g2, n = star_sum(v, q, gv, ops)
        same(k.gv_by_gv[i], g2[bands], tag + "gv by gv at %d" % gp, 2e-5, 1e-6)
        order.append(n)
        vs.append(gv)
        for t, temp in enumerate(case["temps"]):
            same(k.mode_heat_capacities[t, i], heat(f[gp], temp, cut)[bands],
                 tag + "heat capacity %d %s" % (gp, temp), 3e-5)
        if gamma:
            for j, s in enumerate(case["sigmas"]):
                for t, temp in enumerate(case["temps"]):
                    c08.same(k.gamma[j, t, i], gold[gp].total(temp, s, case.get("scut")),
                             tag + "linewidth %d sigma %s T %s" % (gp, s, temp))
    if len(bands) < ref.nb:
        return
    # weights: number of points of the full grid in the orbit
    for i, gp in enumerate(gps):
        if k.grid_weights[i] != order[i]:
            raise Bad("%sweight of %d: %d instead of %d" % (tag, gp, k.grid_weights[i], order[i]))
    ignored = np.zeros(total.shape[:2], dtype=int)
    for i, gp in enumerate(gps):
        gv = vs[i]
        q = bz.QDinv @ bz.addresses[gp]
        v = vel
        if v is None:
            v = Velocity.__new__(Velocity)
            v.rec = np.linalg.inv(ref.plat)
        g2 = star_sum(v, q, gv, ops)[0]
        for j, t in np.ndindex(total.shape[:2]):
            g = np.array(k.gamma[j, t, i])
            if case.get("iso") or case.get("mv"):
                g = g + k.gamma_isotope[j, i]
            if case.get("mfp"):
                g = g + np.linalg.norm(gv, axis=1) * 1e-4 / 4 / np.pi / case["mfp"]
            cv = heat(f[gp], case["temps"][t], cut)
            ok = (f[gp] >= cut) & (g > 0)
            ignored[j, t] += (f[gp] < cut).sum()
            x = np.where(ok, cv / 2 / np.where(ok, g, 1), 0)
            mode[j, t, i] = g2 * x[:, None] * wmk(vol)
            # per mode, relative to the velocities of the grid point
            got = np.array(k.mode_kappa[j, t, i])
            lost = (x > 1e-250) & (np.abs(g2).max(axis=1) > 1e-6) & ~np.abs(got).any(axis=1)
            if lost.any() or np.abs(got[x <= 0]).any() or not np.isfinite(got).all():
                raise Bad("%smode kappa %d %d %d: zero or not finite: %s, expected %s" % (
                    tag, j, t, gp, got, mode[j, t, i]))
            ok = x > 1e-250
            same(got[ok] / (x * wmk(vol))[ok, None], g2[ok],
                 tag + "mode kappa / (heat capacity x lifetime) %d %d %d" % (j, t, gp), 8e-5, 1e-6)
    if np.abs(np.array(k.number_of_ignored_phonon_modes) - ignored).any():
        raise Bad("%signored modes %s instead of %s" % (
            tag, k.number_of_ignored_phonon_modes, ignored))
    same(k.kappa, k.mode_kappa.sum(axis=(2, 3)) / max(sum(order), 1), tag + "kappa", 1e-10)
    if full_sum:
        if sum(order) != np.prod(bz.D_diag):
            raise Bad("%s%d points instead of %d" % (tag, sum(order), np.prod(bz.D_diag)))
        if case.get("star", True):
            for j, t in np.ndindex(total.shape[:2]):
                x = k.kappa[j, t]
                m = np.array([[x[0], x[5], x[4]], [x[5], x[1], x[3]], [x[4], x[3], x[2]]])
                for r in ops:
                    c = np.linalg.inv(ref.plat) @ r @ ref.plat
                    same(c @ m @ c.T, m, tag + "symmetry of kappa", 1e-7)
    obs.outcome((tag, vc.rd(k.kappa)))


def isotope(case, k, it, obs):
    if not (case.get("iso") or case.get("mv")):
        return
    from phono3py.other.isotope import Isotope

    mv = np.array(case["mv"]) if case.get("mv") else c11.variances(it.primitive)
    bands = list(range(it.get_phonons()[0].shape[1]))

    class P:
        def get_phonons(s):
            return it.get_phonons()

        grid = bz_grid = it.bz_grid

    for j, s in enumerate(case["sigmas"]):
        for i, gp in enumerate(k.grid_points):
            r = c11.formula(P(), int(gp), mv, bands, s, case.get("cutoff", 1e-4))
            ok = ~c11.ties(P(), int(gp), bands) if s is None else np.ones(len(r), bool)
            same(k.gamma_isotope[j, i][ok], r[ok], "isotope rate %d %s" % (gp, s), 1e-7)


def run(case, obs):
    """One system, all routes of the case."""
    ph3, it, ref, vel = build(case)
    it.run_phonon_solver()
    gold = None
    for full, nu, det in case.get("routes", [(False, False, False)]):
        k = rta(it, case, is_full_pp=full, is_N_U=nu, is_gamma_detail=det)
        if gold is None:
            gold = golden(case, k.grid_points)
        for _ in k:
            obs.step()
        if case.get("bands") is None:
            k.set_kappa_at_sigmas()
        tag = "full %s N_U %s detail %s: " % (full, nu, det)
        judge(case, obs, k, it, ref, vel, gold, tag=tag)
        isotope(case, k, it, obs)
        if nu:
            n, u = k.get_gamma_N_U()
            for i, gp in enumerate(k.grid_points):
                for j, s in enumerate(case["sigmas"]):
                    for t, temp in enumerate(case["temps"]):
                        for x, p in ((n, "N"), (u, "U")):
                            c08.same(x[j, t, i], gold[int(gp)].total(
                                temp, s, case.get("scut"), part=p), tag + p)
        obs.state((case["xtal"], tuple(np.ravel(case["mesh"])), full, nu, det, case.get("star", True),
                   case.get("ms", True), case.get("grg", False), len(k.grid_points)))


def run_sets(case, obs):
    """Orders, subsets and equivalents of the irreducible grid points."""
    ph3, it, ref, vel = build(case)
    it.run_phonon_solver()
    base = rta(it, case)
    ir = [int(x) for x in base.grid_points]
    bz = it.bz_grid
    gold = golden(case, range(len(bz.addresses)))
    for _ in base:
        pass
    base.set_kappa_at_sigmas()
    n = len(ir)
    lists = []
    if case["what"] == "subsets":
        for m in range(0, 2 ** n):
            lists.append([g for i, g in enumerate(ir) if m >> i & 1])
    elif case["what"] == "orders":
        lists = [list(p) for p in itertools.permutations(ir)]
    elif case["what"] == "images":
        # each point of the whole zone with surface images, alone and as replacement
        from phono3py.phonon.grid import get_ir_grid_points

        m = get_ir_grid_points(bz)[2]
        for g in range(len(bz.addresses)):
            j = int(bz.grg2bzg[m[bz.bzg2grg[g]]])
            lists.append([g if x == j else x for x in ir])
    part = {}
    for gl in lists:
        if not gl:
            continue
        k = rta(it, case, grid_points=gl if case.get("aslist", True) else np.array(gl))
        for _ in k:
            obs.step()
        k.set_kappa_at_sigmas()
        judge(case, obs, k, it, ref, vel, gold, full_sum=case["what"] != "subsets", tag=str(gl))
        part[tuple(gl)] = (k.kappa.copy(), k.get_number_of_sampling_grid_points()
                           if hasattr(k, "get_number_of_sampling_grid_points") else None)
        if case["what"] in ("orders",):
            same(k.kappa, base.kappa, "kappa in the order %s" % gl, 1e-9)
        obs.state(tuple(gl))
    if case["what"] == "subsets":
        full = tuple(ir)
        for a in part:
            b = tuple(x for x in ir if x not in a)
            if b and part[a][1] is not None:
                (ka, na), (kb, nb) = part[a], part[b]
                same((ka * na + kb * nb) / (na + nb), base.kappa, "parts %s %s" % (a, b), 1e-9)


def run_ops(case, obs):
    """Sequences of operations on the conductivity object and on the interaction."""
    ph3, it, ref, vel = build(case)
    it.run_phonon_solver()
    base = rta(it, case)
    gold = golden(case, base.grid_points)
    for _ in base:
        pass
    base.set_kappa_at_sigmas()
    gam = base.gamma.copy()
    for ops in itertools.product(("temps", "set", "read", "iso"), repeat=case["depth"]):
        kw = {}
        k = rta(it, case, temperatures=None if ops[0] == "temps" else case["temps"])
        c = dict(case)
        scale = 1
        for o in ops:
            if o == "temps":
                k.temperatures = case["temps"]
            elif o == "read":
                scale *= 2
                k.gamma = gam * scale
            elif o == "set" and k.temperatures is not None:
                k.temperatures = list(case["temps"])
            obs.step()
        if k.temperatures is None:
            continue
        if scale > 1 and any(o in ("temps", "set") for o in ops[ops.index("read") + 1:]):
            pass
        for _ in k:
            pass
        k.set_kappa_at_sigmas()
        if scale > 1:
            same(k.gamma, gam * scale, "linewidth given", 1e-12)
        judge(c, obs, k, it, ref, vel, gold, gamma=scale == 1, tag=str(ops))
        obs.state(ops)


def run_average(case, obs):
    """Averaged and constant interaction strengths."""
    from phono3py.phonon3.triplets import get_triplets_integration_weights  # noqa: F401

    ph3, it, ref, vel = build(case)
    it.run_phonon_solver()
    k = rta(it, case, is_full_pp=True)
    gold = golden(case, k.grid_points)
    for _ in k:
        obs.step()
    ave = k.averaged_pp_interaction.copy()
    gps = [int(x) for x in k.grid_points]
    ng = np.prod(it.bz_grid.D_diag)
    for i, gp in enumerate(gps):
        g = gold[gp]
        r = np.einsum("t,tijk->i", g.w, g.pp) / ref.nb ** 2
        same(ave[i], r, "average interaction %d" % gp, 1e-9)

    def flat(values):
        out = {}
        for i, gp in enumerate(gps):
            g = c08.Golden.__new__(c08.Golden)
            g.__dict__.update(gold[gp].__dict__)
            g.pp = np.zeros_like(gold[gp].pp) + (np.array(values[i]) / ng)[None, :, None, None]
            out[gp] = g
        return out

    for mult in (1.0, 3.7):
        k2 = rta(it, case, use_ave_pp=True)
        k2.set_averaged_pp_interaction(ave * mult)
        for _ in k2:
            obs.step()
        k2.set_kappa_at_sigmas()
        judge(case, obs, k2, it, ref, vel, flat(ave * mult), tag="average %s: " % mult)
        obs.state(("ave", mult))
    # constant
    from phono3py.phonon3.interaction import Interaction  # noqa: F401

    c = 1.3e-10
    ph3.init_phph_interaction(constant_averaged_interaction=c)
    it2 = ph3.phph_interaction
    for full, nu, det in itertools.product((False, True), repeat=3):
        k3 = rta(it2, case, is_full_pp=full, is_N_U=nu, is_gamma_detail=det)
        for _ in k3:
            obs.step()
        k3.set_kappa_at_sigmas()
        judge(case, obs, k3, it2, ref, vel, flat([[c] * ref.nb] * len(gps)),
              tag="constant %s %s %s: " % (full, nu, det))
        same(k3.averaged_pp_interaction, np.array([
            [gold[g].w.sum() * c / ng] * ref.nb for g in gps]), "constant average", 1e-9)
        obs.state(("const", full, nu, det))


def run_api(case, obs):
    """run_thermal_conductivity: same numbers as the class."""
    import contextlib
    import io

    ph3, it, ref, vel = build(case)
    it.run_phonon_solver()
    gold = golden(case, rta(it, case).grid_points)
    ph3.sigmas = case["sigmas"]
    ph3.sigma_cutoff = case.get("scut")
    for full, nu, iso, mfp, star, log in case["api"]:
        c = dict(case, iso=iso, mfp=mfp, star=star)
        with contextlib.redirect_stdout(io.StringIO()):
            ph3.run_thermal_conductivity(
                temperatures=case["temps"], is_isotope=iso, boundary_mfp=mfp, is_kappa_star=star,
                is_full_pp=full, is_N_U=nu, log_level=log)
        k = ph3.thermal_conductivity
        if not star:
            gold = golden(case, k.grid_points)
        judge(c, obs, k, it, ref, vel, gold, tag="api: ")
        isotope(c, k, it, obs)
        obs.step()
        obs.state((full, nu, iso, mfp, star, log))


def sg(x, t=0.25):
    """Smearing width wide enough to couple modes."""
    return t


MESH = {"sc1": [3, 3, 3], "fcc1": [3, 3, 3], "bcc1": [3, 3, 3], "tet1": [3, 3, 2], "ort1": [3, 2, 2],
        "hex1": [3, 3, 2], "mono1": [2, 3, 2], "tric1": [2, 2, 3], "rhom1": [3, 3, 3],
        "cscl": [2, 2, 2], "nacl": [2, 2, 2], "dia": [2, 2, 2], "zb": [2, 2, 2], "hcp": [2, 2, 2],
        "te": [2, 2, 2], "p4": [2, 2, 2], "wz": [2, 2, 2], "tric2": [2, 2, 2], "bct1": [3, 3, 3],
        "fco1": [3, 3, 3], "cco1": [3, 3, 2], "bcts": [3, 3, 3], "naclc": [2, 2, 2],
        "bccc": [3, 3, 3], "diac": [2, 2, 2]}


def base(x, **kw):
    c = dict(xtal=x, smat=xtal.SMAT[x], mesh=MESH.get(x, [2, 2, 2]), temps=[0, 90.0, 300.0],
             sigmas=[0.8])
    c.update(kw)
    return c


def cases_crystals(tier):
    out = []
    quick = tier == "quick"
    xs = [x for x in xtal.SMAT if x != "wz"] if not quick else list(
        set(xtal.SMAT) - {"wz", "te", "p4", "bcts", "diac", "tric2"})
    for x in sorted(xs):
        for star, ms in ((True, True), (False, True), (True, False)):
            if not ms and (quick and x not in ("fcc1", "hex1", "nacl", "te", "mono1")):
                continue
            sig = [0.8] if star else [None]
            out.append(base(x, star=star, ms=ms, sigmas=sig, iso=ms and star))
    for x in ("bcc1", "fcc1", "bct1", "rhom1", "fco1", "cco1", "nacl", "zb"):
        for star in (True, False):
            mesh = 12.0 if x not in ("nacl", "zb") else 14.0
            out.append(base(x, star=star, mesh=mesh, grg=True, sigmas=[None, 0.8],
                            routes=[(False, False, False), (True, False, False)]))
    for x in ("nacl", "zb", "cscl"):
        for m in ("gonze", "wang"):
            for star in (True,) if quick else (True, False):
                out.append(base(x, nac=m, star=star, iso=star))
    if not quick:
        for x in ("sc1", "fcc1", "bcc1", "hex1", "tet1"):
            out.append(base(x, mesh=xtal.mesh_c(x, 5, 4), iso=True))
            out.append(base(x, mesh=xtal.mesh_c(x, 4, 3), star=False))
        for x in ("nacl", "hcp", "dia"):
            out.append(base(x, mesh=xtal.mesh_c(x, 3, 3), iso=True))
    return out


ROUTES = list(itertools.product((False, True), repeat=3))


def cases_options(tier):
    out = []
    for x in (("fcc1", "hex1") if tier == "quick" else ("fcc1", "hex1", "nacl", "tric1", "te")):
        for sig, scut in itertools.product(
                ([0.8], [None], [None, 0.8], [0.8, None], [0.5, 1.1], [1.1, 0.5], [None, 0.4, 0.9]),
                (None, 3.0)):
            out.append(base(x, sigmas=sig, scut=scut, routes=ROUTES))
        for iso, mfp, cut in itertools.product((False, True, "mv"), (None, 0.05, 1e6), (1e-4, 1.1)):
            c = base(x, sigmas=[None, 0.8], mfp=mfp, cutoff=cut, temps=[300.0, 20.0])
            if iso == "mv":
                c["mv"] = [1.3e-3 * (i + 1) for i in range(len(xtal.CELLS[x][1]))]
            else:
                c["iso"] = iso
            out.append(c)
        for b in ([0], [1, 2], [2, 0]):
            out.append(base(x, sigmas=[None, 0.8], bands=b, routes=ROUTES[:4]))
    return out


def spaces(tier):
    q = tier == "quick"
    sets = [base("fcc1", what="subsets"), base("fcc1", what="orders"), base("fcc1", what="images"),
            base("tet1", what="images", mesh=[2, 2, 2]), base("tet1", what="subsets", mesh=[2, 2, 2]),
            base("hex1", what="images", mesh=[2, 2, 2]), base("hex1", what="orders", mesh=[2, 2, 2])]
    if not q:
        sets += [base("hex1", what="subsets"), base("mono1", what="images"),
                 base("nacl", what="subsets"), base("nacl", what="orders"),
                 base("nacl", what="images"), base("rhom1", what="images"),
                 base("bcc1", what="images", mesh=12.0, grg=True)]
    yield Space("crystals", cases_crystals(tier), run,
                "all crystals x star x mesh symmetry x generalized grids x NAC; T in {0,90,300}")
    yield Space("options", cases_options(tier), run,
                "all routes (full, N/U, detail) x lists of widths x cutoff; isotopes x boundary x "
                "frequency cutoff x band subsets")
    yield Space("sets", sets, run_sets,
                "all subsets / permutations of irreducible points, each point of the zone with "
                "surface images as representative")
    yield Space("operations", [base("fcc1", depth=3, mesh=[2, 2, 2]),
                               base("hex1", depth=2 if q else 3, mesh=[2, 2, 2], mfp=0.1)], run_ops,
                "all sequences of temperatures/gamma settings up to the depth")
    yield Space("average", [base(x, sigmas=s) for x in (("fcc1",) if q else ("fcc1", "nacl", "hex1"))
                            for s in ([0.8], [None, 0.8])], run_average,
                "average and constant interaction x routes")
    api = list(itertools.product((False, True), (False, True), (False, True), (None, 0.1),
                                 (True, False), (0,)))
    api += [(f, n, True, m, True, lv) for f in (False, True) for n in (False, True)
            for m in (None, 0.1, 2000.0) for lv in (1, 2, 3)]
    yield Space("api", [base("fcc1", mesh=[2, 2, 2], sigmas=[None, 0.8], api=api)]
                + ([] if q else [base("hex1", sigmas=[0.8], api=api, scut=4.0)]), run_api,
                "options of run_thermal_conductivity in sequence on one object, log levels 0-3")


if __name__ == "__main__":
    vc.main(globals())
