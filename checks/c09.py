"""C09: frequency shifts and spectral functions follow from the self-energy."""
import glob
import itertools
import os
import sys
import tempfile
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import c07  # noqa: E402
import c08  # noqa: E402

PROPERTY = "C09"
TECHNIQUE = ("explicit-state model checking: all routes to shifts and spectral functions are executed "
             "by the real code over option lattices, grid points and orders of operations, and "
             "compared with independent sums")
LEVEL = "model_checking"
LEVEL_NOTE = ("Objects are driven through all orders of settings (grid point, temperature, "
              "broadening, frequency points); functions, API and their files over lists of "
              "temperatures, broadenings, widths, samplings, batches, band subsets. Oracle: numpy "
              "sums over triplets, direct Kramers-Kronig sum, formula of the spectral function.")
ASSUMPTIONS = ["interaction strengths of the stored route (decided by C07)",
               "imaginary parts of the golden rule (decided by C08)"]
UNITR = 18 / refphonon.HBAR_EVS ** 2 / (2 * np.pi * 1e12) ** 2
same = c08.same


class Shift:
    def __init__(self, it, gp, bands, cutoff=1e-4):
        self.g = c08.Golden(it, gp, bands, cutoff)
        self.gp, self.bands, self.cutoff = gp, bands, cutoff

    def total(self, t, eps, fp=None):
        g = self.g
        f0 = g.f[self.gp][self.bands]
        f1 = g.f[g.tp[:, 1]][:, :, None]
        f2 = g.f[g.tp[:, 2]][:, None, :]
        ok = (f1 > self.cutoff) & (f2 > self.cutoff)
        n1 = n2 = np.zeros(1)
        if t > 0:
            n1 = c08.bose(np.where(f1 > self.cutoff, f1, 1.0), t)
            n2 = c08.bose(np.where(f2 > self.cutoff, f2, 1.0), t)
        a, b = np.where(ok, n1 + n2 + 1, 0), np.where(ok, n1 - n2, 0)

        def at(w):
            def p(x):
                return x / (x ** 2 + eps ** 2)
            return (-a * p(w + f1 + f2) + a * p(w - f1 - f2) - b * p(w - f1 + f2)
                    + b * p(w + f1 - f2))

        if fp is None:
            out = np.zeros(len(self.bands))
            for i, w in enumerate(f0):
                if w >= self.cutoff:
                    out[i] = UNITR * np.einsum("t,tjk,tjk->", g.w, at(w), g.pp[:, i])
        else:
            out = np.zeros((len(fp), len(self.bands)))
            for k, w in enumerate(fp):
                if w >= self.cutoff:
                    out[k] = UNITR * np.einsum("t,tjk,tijk->i", g.w, at(w), g.pp)
        return c08.deg_average(out, g.f[self.gp], self.bands)


def run_object(case, obs):
    """RealSelfEnergy: every order of settings."""
    from phono3py.phonon3.real_self_energy import RealSelfEnergy

    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    cut = case.get("cutoff", 1e-4)
    bands = np.array(c08.all_bands(case, ref))
    gps = c07.points(it, case.get("points", "ir"))
    sh = {gp: Shift(it, gp, bands, cut) for gp in gps}
    fmax = max(s.g.f.max() for s in sh.values())
    fps = np.array([0.0, 0.3e-4, 0.21, 0.9, 1.33, 2.4]) * fmax
    temps, epss = case["temps"], case["eps"]
    for lang in case.get("lang", ("C",)):
        rse = RealSelfEnergy(it, lang=lang)
        for gp in gps:
            rse.grid_point = gp
            if lang == "Py" and len(sh[gp].g.w) > 8:
                continue
            for order in itertools.permutations(("temp", "eps", "fp"), 3):
                vals = dict(temp=temps, eps=epss, fp=[None, fps])
                for c in itertools.product(*[vals[o] for o in order]):
                    v = dict(zip(order, c))
                    rse.temperature, rse.epsilon = v["temp"], v["eps"]
                    rse.frequency_points = v["fp"]
                    rse.run()
                    r = sh[gp].total(v["temp"], v["eps"] or 0.05, v["fp"])
                    same(rse.real_self_energy, r, "shift %s point %d T %s eps %s %s" % (
                        lang, gp, v["temp"], v["eps"], "at bands" if v["fp"] is None else "sampled"),
                        floor=1e-12)
                    obs.state((lang, order, v["temp"], v["eps"], v["fp"] is None, len(sh[gp].g.w)))
                    obs.step()
                obs.outcome(vc.rd(rse.real_self_energy))
                if lang == "Py":
                    break


def run_driver(case, obs):
    """get_real_self_energy, API and files."""
    import h5py
    from phono3py.phonon3.real_self_energy import get_real_self_energy

    ph3, it, ref = c07.setup(case)
    bands = np.array(c08.all_bands(case, ref))
    temps, epss = case["temps"], case["eps"]
    it.run_phonon_solver()
    gps = c07.points(it, "ir")[: case["ngp"]]
    if case.get("rev"):
        gps = gps[::-1]
    sh = {gp: Shift(it, gp, bands) for gp in gps}
    fmax = max(s.g.f.max() for s in sh.values())
    elist = [0.05] if epss is None else [e or 0.05 for e in epss]
    for how, wtxt, whdf in itertools.product(case["how"], (False, True), (False, True)):
        if how == "bands" and wtxt:
            continue
        kw = {}
        if how == "bands":
            kw["frequency_points_at_bands"] = True
            fp = None
        elif how == "points":
            fp = np.array([0.0, 0.3, 0.77, 1.3]) * fmax
            kw["frequency_points"] = fp.tolist()
        elif how == "num":
            fp = np.linspace(0, (2 * fmax + 4 * max(elist if epss else [0])) * 1.005, 5)
            kw["num_frequency_points"] = 5
        with tempfile.TemporaryDirectory() as d:
            cwd = os.getcwd()
            os.chdir(d)
            try:
                if case["api"] == "sigmas":
                    ph3.sigmas = [None] + list(epss or [])
                    out = ph3.run_real_self_energy(gps, temps, write_txt=wtxt, write_hdf5=whdf, **kw)
                elif case["api"] == "api":
                    out = ph3.run_real_self_energy(gps, temps, epsilons=epss, write_txt=wtxt,
                                                   write_hdf5=whdf, **kw)
                else:
                    out = get_real_self_energy(it, gps, temps, epsilons=epss, write_hdf5=whdf, **kw)
                if fp is not None:
                    same(out[0], fp, "frequency points", floor=1.0)
                for i, e in enumerate(elist):
                    for k, t in enumerate(temps):
                        for j, gp in enumerate(gps):
                            r = sh[gp].total(t, e, fp)
                            what = "%s T %s eps %s point %d" % (how, t, e, gp)
                            got = out[1][i, k, j]
                            same(got.T if fp is not None else got, r, what, floor=1e-12)
                            obs.step()
                obs.state((how, wtxt, whdf, case["api"], len(temps), len(elist)))
                obs.outcome(vc.rd(out[1]))
                fs = sorted(glob.glob("*"))
                nb = len(case["bands"]) if case["bands"] else 1
                want = (len(gps) * len(elist) if whdf else 0) + (
                    len(gps) * len(elist) * len(temps) * nb if wtxt and case["api"] else 0)
                if len(fs) != want:
                    raise Bad("%d files written, %d expected: %s" % (len(fs), want, fs[:4]))
                for f in fs:
                    if not f.endswith("hdf5"):
                        continue
                    with h5py.File(f) as h:
                        gp = int(h["grid_point"][()])
                        e = float(h["epsilon"][()])
                        i = [n for n, x in enumerate(elist) if abs(x - e) < 1e-12][0]
                        same(h["delta"][:], out[1][i, :, gps.index(gp)], "hdf5 " + f, floor=1e-12)
                        if list(h["band_index"][:]) != list(bands):
                            raise Bad("band indices %s in file, %s computed"
                                      % (h["band_index"][:], bands))
                for f in fs:
                    if f.endswith("hdf5"):
                        continue
                    x = np.loadtxt(f)
                    same(x[:, 0], fp, "frequencies of " + f, floor=1.0, rtol=1e-6)
                    ok = False
                    for i, k, j in np.ndindex(out[1].shape[:3]):
                        if "-g%d-" % gps[j] not in f or "-t%g-" % temps[k] not in f \
                                or "-e%g-" % elist[i] not in f:
                            continue
                        p = 0
                        for bs in (case["bands"] or [list(bands)]):
                            if f.endswith("-" + "".join("b%d" % (b + 1) for b in bs) + ".dat"):
                                same(x[:, 1], out[1][i, k, j][p:p + len(bs)].mean(axis=0),
                                     "content of " + f, floor=1e-12)
                                ok = True
                            p += len(bs)
                    if not ok:
                        raise Bad("no value of the run belongs to file %s" % f)
            finally:
                os.chdir(cwd)


def kramers(gam, fp):
    """Sum over both signs of frequency, the point itself left out."""
    df = (fp[-1] - fp[0]) / (len(fp) - 1)
    x = np.concatenate([-fp[:0:-1], fp])
    y = np.concatenate([-gam[:0:-1], gam])
    # both copies of the frequency zero: the value there enters twice with opposite sign
    y[len(fp) - 1] = 0.0
    out = np.zeros(len(fp))
    for i, w in enumerate(fp):
        m = np.abs(x - w) > df / 2
        out[i] = (y[m] / (x[m] - w)).sum() * df / np.pi
    return -out


def run_spectral(case, obs):
    import h5py
    from phono3py.phonon3.spectral_function import SpectralFunction, run_spectral_function

    ph3, it, ref = c07.setup(case)
    it.run_phonon_solver()
    bands = np.array(c08.all_bands(case, ref))
    temps, sigmas = case["temps"], case["sigmas"]
    gps = c07.points(it, "ir")[: case["ngp"]]
    if case.get("rev"):
        gps = gps[::-1]
    gms = {gp: c08.Golden(it, gp, bands, 1e-4) for gp in gps}
    fmax = max(g.f.max() for g in gms.values())
    smax = max([s for s in sigmas if s] or [0])
    full = (2 * fmax + 4 * smax) * 1.005
    for how, batch, out in itertools.product(case["how"], case["batch"], case["out"]):
        kw = {}
        if how == "num":
            kw["num_frequency_points"] = 9
            fp = np.linspace(0, full, 9)
        elif how == "step":
            kw["frequency_step"] = fmax / 3.1
            fp = np.arange(0, full, fmax / 3.1)
        else:
            fp = np.linspace(0, 1.7 * fmax, 6)
            kw["frequency_points"] = fp
        with tempfile.TemporaryDirectory() as d:
            cwd = os.getcwd()
            os.chdir(d)
            try:
                if out == "object":
                    sf = SpectralFunction(it, gps, sigmas=sigmas, temperatures=temps,
                                          num_points_in_batch=batch, **kw)
                    sf.run()
                    if case.get("again"):
                        sf.run()
                elif out == "func":
                    sf = run_spectral_function(it, gps, temperatures=temps, sigmas=sigmas,
                                               num_points_in_batch=batch, **kw)
                else:
                    ph3.sigmas = sigmas
                    ph3._log_level = 1 if "log" in out else 0
                    with open(os.devnull, "w") as null:
                        so, sys.stdout = sys.stdout, null
                        try:
                            ph3.run_spectral_function(gps, temps, num_points_in_batch=batch,
                                                      write_txt="txt" in out,
                                                      write_hdf5="hdf5" in out, **kw)
                        finally:
                            sys.stdout = so
                    # (no public getter: the function route serves where it is renamed)
                    sf = getattr(ph3, "_spectral_function", None) or run_spectral_function(
                        it, gps, temperatures=temps, sigmas=sigmas, **kw)
                same(sf.frequency_points, fp, "frequency points", floor=1.0)
                for j, s in enumerate(sigmas):
                    for k, t in enumerate(temps):
                        for i, gp in enumerate(gps):
                            what = "%s %s batch %s sigma %s T %s point %d" % (how, out, batch, s, t, gp)
                            gam = sf.half_linewidths[j, k, i]
                            same(gam, gms[gp].total(t, s, None, fp).T, "linewidth " + what)
                            for b, bi in enumerate(bands):
                                dl = kramers(gam[b], fp)
                                same(sf.shifts[j, k, i, b], dl, "shift " + what, 1e-9,
                                     floor=max(np.abs(gam).max(), 1e-18))
                                w0 = gms[gp].f[gp, bi]
                                num = 4 * w0 ** 2 * gam[b] / np.pi
                                den = ((fp ** 2 - w0 ** 2 - 2 * w0 * sf.shifts[j, k, i, b]) ** 2
                                       + (2 * w0 * gam[b]) ** 2)
                                v = np.where(den > 0, num / np.where(den > 0, den, 1), 0)
                                same(sf.spectral_functions[j, k, i, b], v, "spectral " + what,
                                     1e-9, floor=1e-30)
                            obs.step()
                obs.state((how, batch, out, len(gps), len(temps), len(sigmas)))
                obs.outcome(vc.rd(sf.spectral_functions))
                for f in sorted(glob.glob("*.hdf5")):
                    with h5py.File(f) as h:
                        i = gps.index(int(h["grid_point"][()]))
                        js = [n for n, s in enumerate(sigmas) if s and "-s%g." % s in f] or \
                            [n for n, s in enumerate(sigmas) if s is None]
                        same(h["spectral_function"][:], sf.spectral_functions[js[0], :, i], f)
                        same(h["shift"][:], sf.shifts[js[0], :, i], f)
                        same(h["half_linewidth"][:], sf.half_linewidths[js[0], :, i], f)
                        if list(np.ravel(h["band_index"][:])) != list(bands):
                            raise Bad("spectral functions of bands %s are stored with band indices %s"
                                      % (bands, h["band_index"][:]))
                n5 = len(glob.glob("*.hdf5"))
                nt = len(glob.glob("*.dat"))
                nb = len(case["bands"]) if case.get("bands") else 1
                if n5 != (len(gps) * len(sigmas) if "hdf5" in out else 0) or nt != (
                        len(gps) * len(sigmas) * len(temps) * nb if "txt" in out else 0):
                    raise Bad("%d hdf5 and %d text files" % (n5, nt))
                if "txt" in out:
                    for i, gp in enumerate(gps):
                        for j, s in enumerate(sigmas):
                            for k, t in enumerate(temps):
                                p = 0
                                for bs in (case.get("bands") or [list(bands)]):
                                    f = "spectral-m%d%d%d-g%d%s-t%g-%s.dat" % (
                                        *it.mesh_numbers, gp, "-s%g" % s if s else "", t,
                                        "".join("b%d" % (b + 1) for b in bs))
                                    x = np.loadtxt(f)
                                    v = sf.spectral_functions[j, k, i, p:p + len(bs)].mean(axis=0)
                                    same(x[:, 1], v, "content of " + f)
                                    p += len(bs)
            finally:
                os.chdir(cwd)


def spaces(tier):
    th = tier == "thorough"
    S = c07.xtal.SMAT

    def objects():
        for x in S:
            if x in ("diac", "te", "wz") and not th:
                continue
            yield dict(xtal=x, smat=S[x], mesh=c07.xtal.mesh_c(x, 2, 1) if not th
                       else c07.xtal.mesh_c(x, 3, 2), temps=[0.0, 200.0], eps=[None, 0.3])
        for bands in (None, [4, 1], [[0, 1], [2]]):
            for cut in (1e-4, 2.5):
                for ms in (True, False):
                    yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], bands=bands, cutoff=cut,
                               ms=ms, points="ir" if ms else "gamma", temps=[300.0, 0.0, 10.0],
                               eps=[0.1, None, 1.0], r0=False, lang=("C", "Py"))
        yield dict(xtal="nacl", smat=S["nacl"], mesh=[3, 3, 3], nac="gonze", temps=[300.0], eps=[.1])
        yield dict(xtal="nacl", smat=S["nacl"], mesh=10.0, grg=True, temps=[300.0], eps=[0.1])

    def driver():
        for api in ("", "api", "sigmas"):
            for temps in ([300.0], [0.0, 300.0, 50.0]):
                for eps in (None, [0.2], [0.3, None, 0.6], [0.3, 0.1]):
                    if api == "sigmas" and eps and None in eps:
                        continue
                    for bands in (None, [[3], [1]], [[0, 1], [5]]):
                        yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], temps=temps,
                                   eps=eps, bands=bands, api=api, ngp=2, rev=bands is None,
                                   how=["bands", "points", "num"])

    def spectral():
        for temps in ([300.0], [0.0, 300.0]):
            for sigmas in ([None], [0.3, None, 0.6]):
                for bands in (None, [[3], [1]], [[0, 1], [5]]):
                    yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], temps=temps,
                               sigmas=sigmas, bands=bands, ngp=2, rev=bands is None, again=True,
                               how=["num", "step", "points"], batch=[None, 2],
                               out=["object", "func", "api", "txt", "hdf5-txt", "hdf5", "log",
                                    "log-txt", "log-hdf5"])
        for x in S:
            if x in ("diac", "te", "wz") and not th:
                continue
            yield dict(xtal=x, smat=S[x], mesh=[2, 2, 2], temps=[0.0, 200.0], sigmas=[None, 0.2],
                       ngp=3, how=["num"], batch=[None, 1, 3, 9, 30], out=["object"])

    return [
        Space("objects", objects(), run_object, "shift object: all orders of settings"),
        Space("driver", driver(), run_driver, "shift function, API, text and hdf5 files"),
        Space("spectral", spectral(), run_spectral, "spectral functions: object, function, API, files"),
    ]


if __name__ == "__main__":
    vc.main(globals())
