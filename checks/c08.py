"""C08: the imaginary self-energy is one quantity whichever way it is computed."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import c07  # noqa: E402

PROPERTY = "C08"
TECHNIQUE = ("explicit-state model checking: every route to the linewidth is executed by the real "
             "code for all grid points, bands and option combinations of small systems and compared "
             "with an independent golden-rule sum")
LEVEL = "model_checking"
LEVEL_NOTE = ("Routes (stored strength, skipped strength, low-memory C loop, triplet-resolved, "
              "sampled frequencies, python reference) are crossed with grid points, integration "
              "methods, temperatures, band subsets, cutoffs, batch sizes and lists of widths and "
              "temperatures. Oracle: plain numpy sum over triplets; in one space over all pairs of "
              "the grid with independently computed strengths and Gaussians.")
ASSUMPTIONS = ["weights of the tetrahedron method are taken from get_triplets_integration_weights "
               "(decided by C05)"]

KB = 8.617333262e-5
THZEV = 4.135667696e-3
UNIT = 18 * np.pi / refphonon.HBAR_EVS ** 2 / (2 * np.pi * 1e12) ** 2
RTOL = 1e-9  # between routes
RTOLX = 3e-5  # constants of phonopy, in exponents


def bose(f, t):
    with np.errstate(over="ignore"):
        return 1 / (np.exp(f * THZEV / (KB * t)) - 1)


def deg_average(x, freqs, bands):
    """Average over degenerate modes among ``bands`` (last axis)."""
    out = np.array(x, dtype=float)
    groups = []
    for i, f in enumerate(freqs):
        if groups and abs(f - freqs[groups[-1][-1]]) < 1e-4:
            groups[-1].append(i)
        else:
            groups.append([i])
    for g in groups:
        k = [n for n, b in enumerate(bands) if b in g]
        if k:
            out[..., k] = out[..., k].mean(axis=-1, keepdims=True)
    return out


class Golden:
    """Golden-rule sum of one grid point from strengths and weights."""

    def __init__(self, it, gp, bands, cutoff):
        self.it = it
        it.set_grid_point(gp)
        self.gp = gp
        self.bands = np.array(bands)
        self.tp, self.w = (np.array(x) for x in it.get_triplets_at_q()[:2])
        self.f = it.get_phonons()[0]
        self.cutoff = cutoff
        it.run()
        self.pp = it.interaction_strength.copy()
        adr = it.bz_grid.addresses
        self.normal = ~(adr[self.tp].sum(axis=1).any(axis=1))
        self._g = {}

    def weights(self, sigma, scut, fp=None):
        from phono3py.phonon3.triplets import get_triplets_integration_weights

        k = (sigma, scut, None if fp is None else tuple(fp))
        if k not in self._g:
            self.it.set_grid_point(self.gp)
            x = self.f[self.gp][self.bands] if fp is None else np.array(fp, dtype=float)
            g, gz = get_triplets_integration_weights(self.it, np.array(x), sigma, scut)
            self._g[k] = np.array(g), np.array(gz)
        return self._g[k][0]

    def detail(self, t, sigma, scut=None, fp=None, event=None):
        """([freq,] triplet, band0, band, band) without weights of triplets."""
        g = self.weights(sigma, scut, fp)
        f1 = self.f[self.tp[:, 1]][:, :, None]
        f2 = self.f[self.tp[:, 2]][:, None, :]
        ok = (f1 > self.cutoff) & (f2 > self.cutoff)
        if t > 0:
            n1 = bose(np.where(f1 > self.cutoff, f1, 1.0), t)
            n2 = bose(np.where(f2 > self.cutoff, f2, 1.0), t)
        else:
            n1 = n2 = np.zeros(1)
        a = np.where(ok, n1 + n2 + 1, 0)
        b = np.where(ok, n1 - n2, 0)
        if event == 1:
            a = a * 0
        if event == 2:
            b = b * 0
        x = a[:, None] * g[0] + b[:, None] * g[1]
        if fp is None:
            return UNIT * x * self.pp
        # (freq, triplet, band0, band, band)
        return np.moveaxis(UNIT * x[:, :, None] * self.pp[:, None], 1, 0)

    def total(self, t, sigma, scut=None, fp=None, event=None, part=None):
        d = self.detail(t, sigma, scut, fp, event)
        w = self.w * (1 if part is None else (self.normal if part == "N" else ~self.normal))
        x = np.einsum("...tb,t->...b", d.sum(axis=(-1, -2)), w)
        return deg_average(x, self.f[self.gp], self.bands)


def same(a, b, what, rtol=RTOLX, floor=1e-18):
    a, b = np.asarray(a), np.asarray(b)
    vc.close(a, b, rtol, what, scale=max(np.abs(b).max() if b.size else 0, floor))


def all_bands(case, ref):
    b = case.get("bands")
    return list(range(ref.nb)) if b is None else [int(x) for x in np.hstack(b)]


SIG = [(None, None), (0.4, None), (0.4, 2.0)]


def run_routes(case, obs):
    from phono3py.phonon3.imag_self_energy import ImagSelfEnergy

    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    bands = all_bands(case, ref)
    cut = case.get("cutoff", 1e-4)
    temps = case.get("temps", [0.0, 40.0, 300.0])
    for gp in c07.points(it, case.get("points", "ir")):
        gm = Golden(it, gp, bands, cut)
        fb = gm.f[gp][gm.bands]
        fps = np.unique(np.concatenate([np.maximum(fb, 0) + 0.013,
                                        [0.0, gm.f.max() * 0.9, gm.f.max() * 1.7]]))
        tot = {}
        for sigma, scut in SIG:
            for t in temps:
                tot[sigma, scut, t] = gm.total(t, sigma, scut)
        # -- object, all orders of its options
        for detail, lang in ((False, "C"), (True, "C"), (False, "Py")):
            if lang == "Py" and not case.get("py"):
                continue
            ise = ImagSelfEnergy(it, with_detail=detail, lang=lang)
            ise.set_grid_point(gp)
            for full in (True, False):
                for sigma, scut in SIG:
                    ise.set_sigma(sigma, sigma_cutoff=scut)
                    ise.frequency_points = None
                    ise.run_integration_weights()
                    ise.run_interaction(is_full_pp=full)
                    for t in temps:
                        ise.temperature = t
                        ise.run()
                        what = "point %d sigma %s,%s T %s detail %s %s full %s" % (
                            gp, sigma, scut, t, detail, lang, full)
                        same(ise.imag_self_energy, tot[sigma, scut, t], what)
                        obs.outcome(vc.rd(ise.imag_self_energy))
                        obs.state((detail, lang, full, sigma, scut, t, len(gm.w)))
                        obs.step()
                        if detail:
                            N, U = ise.get_imag_self_energy_N_and_U()
                            same(N, gm.total(t, sigma, scut, part="N"), what + " N",
                                 floor=abs(tot[sigma, scut, t]).max() + 1e-18)
                            same(U, gm.total(t, sigma, scut, part="U"), what + " U",
                                 floor=abs(tot[sigma, scut, t]).max() + 1e-18)
                            same(ise.detailed_imag_self_energy, gm.detail(t, sigma, scut),
                                 what + " detail")
                    if lang == "Py" and len(gm.w) > 6:
                        continue
                    ise.frequency_points = fps
                    ise.run_integration_weights()
                    ise.run_interaction(is_full_pp=full)
                    for t in temps[1:] if lang == "C" else temps[:2]:
                        ise.temperature = t
                        ise.run()
                        what = "point %d sigma %s,%s T %s detail %s %s full %s sampled" % (
                            gp, sigma, scut, t, detail, lang, full)
                        same(ise.imag_self_energy, gm.total(t, sigma, scut, fp=fps), what)
                        obs.outcome(vc.rd(ise.imag_self_energy))
                        if detail:
                            same(ise.detailed_imag_self_energy,
                                 gm.detail(t, sigma, scut, fp=fps), what + " detail")
                            N, U = ise.get_imag_self_energy_N_and_U()
                            same(N + U, ise.imag_self_energy, what + " N+U")
                            same(N, gm.total(t, sigma, scut, fp=fps, part="N"), what + " N",
                                 floor=abs(N + U).max() + 1e-18)
        # -- conductivity: low-memory and stored routes
        if not case.get("kappa", True):
            continue
        for scut in (None, 2.0):
            sig = [s for s, c in SIG if s is None or c == scut]
            for full, nu in itertools.product((False, True), repeat=2):
                c = conductivity(it, [gp], temps, sig, scut, full, nu)
                for j, s in enumerate(sig):
                    if s is None and not full and gm.tp[0, 0] != gp:
                        # The low-memory route takes the frequencies from the equivalent
                        # zone-surface point the triplets begin with; frequencies equal
                        # up to rounding decide there which side of a vertex is taken
                        # (known finding C05 omega-on-vertex).
                        continue
                    for k, t in enumerate(temps):
                        what = "conductivity point %d sigma %s,%s T %s full %s NU %s" % (
                            gp, s, scut, t, full, nu)
                        r = tot[s, scut if s else None, t]
                        same(c.gamma[j, k, 0], r, what)
                        if nu:
                            for x, p in zip(c.get_gamma_N_U(), "NU"):
                                same(x[j, k, 0], gm.total(t, s, scut if s else None, part=p),
                                     what + p, floor=abs(r).max() + 1e-18)
                        obs.step()
                if full:
                    it.set_grid_point(gp)
                    v = gm.pp.sum(axis=(2, 3))
                    v = np.einsum("t,tb->b", gm.w, v) / gm.pp.shape[2] ** 2
                    same(c.averaged_pp_interaction[0], v, "averaged interaction", RTOL)


def conductivity(it, gps, temps, sigmas, scut, full, nu):
    from phono3py.conductivity.rta import ConductivityRTA

    c = ConductivityRTA(it, grid_points=gps, temperatures=temps, sigmas=sigmas,
                        sigma_cutoff=scut, is_full_pp=full, is_N_U=nu)
    for _ in c:
        pass
    return c


def run_driver(case, obs):
    """get_imag_self_energy and the API: lists, batches, details."""
    from phono3py.phonon3.imag_self_energy import get_imag_self_energy

    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    bands = all_bands(case, ref)
    gps = c07.points(it, "ir")[: case["ngp"]]
    if case.get("rev"):
        gps = gps[::-1]
    temps, sigmas = case["temps"], case["sigmas"]
    ev = case.get("event")
    gms = {gp: Golden(it, gp, bands, 1e-4) for gp in gps}
    fmax = max(g.f.max() for g in gms.values())
    for how in case["how"]:
        kw = {}
        if how == "bands":
            kw["frequency_points_at_bands"] = True
            fp = None
        elif how == "points":
            fp = np.array([0.021, 0.3, 0.77, 1.3, 1.31, 1.9, 2.2]) / 2 * fmax
            kw["frequency_points"] = fp if case.get("arr") else fp.tolist()
        elif how == "num":
            smax = max([s for s in sigmas if s] or [0])
            fp = np.linspace(0, (2 * fmax + 4 * smax) * 1.005, 7)
            kw["num_frequency_points"] = 7
        elif how == "step":
            smax = max([s for s in sigmas if s] or [0])
            st = fmax / 3.1
            fp = np.arange(0, (2 * fmax + 4 * smax) * 1.005, st)
            kw["frequency_step"] = st
        for batch in case["batch"]:
            for detail in case["detail"]:
                args = dict(kw, num_points_in_batch=batch, scattering_event_class=ev)
                if case["api"]:
                    ph3.sigmas = sigmas
                    ph3.sigma_cutoff = None
                    out = ph3.run_imag_self_energy(gps, temps, keep_gamma_detail=detail, **args)
                else:
                    out = get_imag_self_energy(it, gps, temps, sigmas=sigmas,
                                               return_gamma_detail=detail, **args)
                what = "%s batch %s detail %s" % (how, batch, detail)
                if fp is None:
                    if out[0] is not None:
                        raise Bad("frequency points returned for %s" % what)
                else:
                    same(out[0], fp, "frequency points " + what)
                gam = out[1]
                for j, s in enumerate(sigmas):
                    for k, t in enumerate(temps):
                        for i, gp in enumerate(gps):
                            r = gms[gp].total(t, s, None, fp, ev)
                            same(gam[j, k, i].T if fp is not None else gam[j, k, i], r,
                                 "%s sigma %s T %s point %d" % (what, s, t, gp))
                            obs.step()
                            if detail:
                                if len(out[2]) != len(gps):
                                    raise Bad("%s: detailed linewidths of %d points, %d asked for"
                                              % (what, len(out[2]), len(gps)))
                                d = out[2][i]
                                same(d[j, k], gms[gp].detail(t, s, None, fp, ev),
                                     "%s sigma %s T %s point %d detail" % (what, s, t, gp))
                obs.outcome(vc.rd(gam))
                obs.state((how, batch, detail, len(gps), ev, case["api"]))


def run_full(case, obs):
    """All pairs of the grid, everything computed independently (Gaussian)."""
    from phono3py.phonon3.imag_self_energy import ImagSelfEnergy

    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    f, e, _ = it.get_phonons()
    bz = it.bz_grid
    n = int(np.prod(bz.D_diag))
    adr = np.array(bz.addresses)[np.array(bz.grg2bzg)]
    conv = refphonon.unit_conversion(n)
    sigma, temps = 0.5, (0.0, 200.0)
    qd = np.array(bz.QDinv)

    def gauss(x):
        return np.exp(-x ** 2 / 2 / sigma ** 2) / np.sqrt(2 * np.pi) / sigma

    for gp in c07.points(it, "ir")[: case["ngp"]]:
        tot = {t: np.zeros(ref.nb) for t in temps}
        f0 = f[gp]
        for a1 in range(n):
            g1 = int(bz.grg2bzg[a1])
            d = -np.array(bz.addresses[gp]) - adr[a1]
            D = np.array(bz.D_diag)
            g2 = int(bz.grg2bzg[int(np.mod(d, D) @ [1, D[0], D[0] * D[1]])])
            # any image: |strength|^2 does not depend on it
            q3 = [qd @ bz.addresses[x] for x in (gp, g1, g2)]
            s = ref.strength(q3, [f[x] for x in (gp, g1, g2)], [e[x] for x in (gp, g1, g2)],
                             True, 1e-4) * conv
            # the eigenvectors at images differ by the gauge of the phase convention only
            x1, x2 = f[g1][None, :, None], f[g2][None, None, :]
            x0 = f0[:, None, None]
            ok = (x1 > 1e-4) & (x2 > 1e-4)
            for t in temps:
                n1 = bose(np.where(x1 > 1e-4, x1, 1), t) if t else 0.0
                n2 = bose(np.where(x2 > 1e-4, x2, 1), t) if t else 0.0
                w = ((n1 + n2 + 1) * gauss(x0 - x1 - x2)
                     + (n1 - n2) * (gauss(x0 + x1 - x2) - gauss(x0 - x1 + x2)))
                tot[t] += UNIT * (np.where(ok, w, 0) * s).sum(axis=(1, 2))
        ise = ImagSelfEnergy(it)
        ise.set_grid_point(gp)
        ise.set_sigma(sigma)
        ise.run_integration_weights()
        for t in temps:
            ise.temperature = t
            ise.run()
            r = deg_average(tot[t], f0, range(ref.nb))
            same(ise.imag_self_energy, r, "point %d T %s: golden rule over all pairs" % (gp, t),
                 rtol=1e-4)
            obs.step(n)
            obs.outcome(vc.rd(ise.imag_self_energy))
        obs.state((gp, len(it.get_triplets_at_q()[0])))


def spaces(tier):
    th = tier == "thorough"
    S = c07.xtal.SMAT

    def routes():
        # full product of options on a two-atom crystal
        for x, me in (("nacl", [3, 3, 3]), ("tric2", [2, 2, 2])):
            if x == "tric2" and not th:
                me = [2, 2, 1]
            for bands in (None, [4, 1], [[0, 1], [2]]):
                for cut in (1e-4, 2.5):
                    for ms in (True, False):
                        for opt in (None, True, False):
                            if opt is not None and (bands is not None or not ms) and not th:
                                continue
                            yield dict(xtal=x, smat=S[x], mesh=me, bands=bands, cutoff=cut,
                                       ms=ms, opt=opt, points="ir" if ms else "gamma",
                                       py=bands is not None and ms and cut == 1e-4,
                                       r0=not (bands is not None and ms and cut == 1e-4))
        for comp, symq, r0 in itertools.product((True, False), repeat=3):
            yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], compact=comp, symq=symq,
                       r0=r0, bands=[0, 5, 2] if symq else None)
        yield dict(xtal="nacl", smat=S["nacl"], mesh=[3, 3, 3], nac="gonze")
        yield dict(xtal="nacl", smat=S["nacl"], mesh=10.0, grg=True)
        yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], scale=1.1)

    def crystals():
        for x in S:
            if x in ("diac", "te", "wz") and not th:
                continue
            yield dict(xtal=x, smat=S[x], mesh=c07.xtal.mesh_c(x, 2, 3 if th else 1) if not th
                       else c07.xtal.mesh_c(x, 3, 2), temps=[0.0, 300.0])

    def driver():
        for api in (False, True):
            for temps in ([300.0], [0.0, 300.0, 50.0]):
                for sigmas in ([None], [0.3, None, 0.6]):
                    for ev in (None, 1, 2):
                        for bands in (None, [3, 1]):
                            if ev is not None and len(temps) + len(sigmas) == 4:
                                continue
                            yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], bands=bands,
                                       temps=temps, sigmas=sigmas, event=ev, api=api, ngp=2,
                                       rev=ev == 1, arr=ev is None,
                                       how=["bands", "points", "num", "step"],
                                       batch=[None, 1, 2, 3, 7, 50] if ev is None else [3],
                                       detail=[False, True])

    def full():
        for x, me in (("nacl", [2, 2, 2]), ("cscl", [2, 2, 2]), ("fcc1", [3, 3, 3]),
                      ("hex1", [2, 2, 2]), ("tric2", [2, 2, 2])):
            yield dict(xtal=x, smat=S[x], mesh=[3, 3, 3] if th else me, ngp=9 if th else 4)

    return [
        Space("routes", routes(), run_routes, "all routes x integration methods x temperatures x "
              "band subsets x cutoffs, two crystals, all irreducible points"),
        Space("crystals", crystals(), run_routes, "all routes, all crystals"),
        Space("driver", driver(), run_driver, "frequency samplings, batches 1..50, lists of "
              "widths and temperatures, event classes, details, function and API"),
        Space("all-pairs", full(), run_full, "independent golden rule over all pairs"),
    ]


if __name__ == "__main__":
    vc.main(globals())
