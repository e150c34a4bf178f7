"""C11: isotope scattering rates equal the mass-disorder formula."""
import contextlib
import itertools
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402
import c08  # noqa: E402

PROPERTY = "C11"
TECHNIQUE = ("explicit-state model checking: the real code computes isotope scattering rates for all "
             "grid points, band subsets (in every order), mass variances and histories of an object; "
             "each compared with the mass-disorder sum in numpy")
LEVEL = "model_checking"
LEVEL_NOTE = ("Crystals x meshes (generalized too) x grid points x all ordered subsets of bands of "
              "small crystals x methods x cutoffs x both implementations; sequences of grid points "
              "and widths on one object; the same rates inside the thermal conductivity. Oracle: sum "
              "over all modes of the regular grid.")
ASSUMPTIONS = ["weights of the tetrahedron method are taken from get_integration_weights "
               "(decided by C05, with its finding on frequencies at vertices)",
               "frequencies and eigenvectors are those of the object (decided by C06)"]


def formula(iso, gp, mv, bands, sigma, cutoff):
    from phono3py.other.tetrahedron_method import get_integration_weights

    f, e, _ = iso.get_phonons()
    g = iso.bz_grid
    f0 = f[gp][bands]
    pts = np.array(g.grg2bzg)
    fq, eq = f[pts], e[pts]
    n = len(pts)
    if sigma:
        w = np.exp(-(fq[:, None, :] - f0[None, :, None]) ** 2 / 2 / sigma ** 2)
        w /= np.sqrt(2 * np.pi) * sigma
    else:
        w = get_integration_weights(np.array(f0, dtype="double"), np.array(f), g,
                                    grid_points=pts)
    na = f.shape[1] // 3
    e0 = e[gp][:, bands].reshape(na, 3, -1)
    eq = eq.reshape(n, na, 3, -1)
    ov = abs(np.einsum("lxi,nlxk->nlik", e0.conj(), eq)) ** 2
    ov = np.einsum("l,nlik->nik", mv, ov)
    w = w * (fq >= cutoff)[:, None, :]
    out = np.pi / 2 / n * f0 ** 2 * (w * ov).sum(axis=(0, 2)) / 2
    return np.where(f0 < cutoff, 0, out)


def ties(iso, gp, bands):
    """Bands whose frequency equals one of a tetrahedron vertex up to rounding only.

    Which side is taken there differs between implementations.
    """
    f = iso.get_phonons()[0]
    d = abs(f[gp][bands][:, None] - f.ravel()[None, :])
    return ((d > 0) & (d < 1e-9)).any(axis=1)


def quiet(fn, *a, **kw):
    with open(os.devnull, "w") as n, contextlib.redirect_stdout(n):
        return fn(*a, **kw)


def make(case, **kw):
    from phono3py.api_isotope import Phono3pyIsotope
    from phono3py.other.isotope import Isotope

    ph3 = xtal.phono3py(case["xtal"], case["smat"])
    nac = xtal.nac_params(case["xtal"], case["nac"]) if case.get("nac") else None
    a = dict(mass_variances=case.get("mv"), band_indices=case.get("bands"),
             use_grg=case.get("grg", False), cutoff_frequency=case.get("cutoff"))
    a.update(kw)
    low = "sigma" in a
    iso = (Isotope if low else Phono3pyIsotope)(case["mesh"], ph3.phonon_primitive, **a)
    iso.init_dynamical_matrix(ph3.fc2, ph3.phonon_supercell, ph3.phonon_primitive, nac_params=nac)
    return ph3, iso


def variances(cell, data=None):
    from phonopy.structure.atoms import isotope_data

    d = dict(isotope_data)
    d.update(data or {})
    out = []
    for s in cell.symbols:
        m = np.array([x[1] for x in d[s]])
        c = np.array([x[2] for x in d[s]])
        mm = (m * c).sum()
        out.append((c * (1 - m / mm) ** 2).sum())
    return np.array(out)


def same(a, b, what, rtol=1e-8):
    vc.close(a, b, rtol, what, scale=max(np.abs(b).max() if np.size(b) else 0, 1e-16))


def points(g, how):
    from phono3py.phonon.grid import get_ir_grid_points

    if how == "all":
        return list(range(len(g.addresses)))
    return [int(g.grg2bzg[i]) for i in get_ir_grid_points(g)[0]]


def run(case, obs):
    sig = case.get("sigmas", [None, 0.2, 0.7])
    for lang in case.get("lang", ["C"]):
        ph3, iso = make(case, sigmas=sig)
        low = iso._iso if hasattr(iso, "_iso") else None
        cut = case.get("cutoff") or 0
        mv = np.array(case["mv"]) if case.get("mv") else variances(ph3.phonon_primitive)
        nb = 3 * len(ph3.phonon_primitive)
        bands = case.get("bands") or list(range(nb))
        gps = points(iso.grid, case.get("points", "ir"))
        if low is None:
            raise Bad("no access to phonons of Phono3pyIsotope")
        for order in ([gps, gps[::-1]] if lang == "C" else [gps[:4]]):
            quiet(iso.run, order, lang=lang)
            for i, s in enumerate(sig):
                for j, gp in enumerate(order):
                    r = formula(low, gp, mv, bands, s, cut)
                    ok = np.ones(len(bands), dtype=bool)
                    if lang == "Py" and not s:
                        ok = ~ties(low, gp, bands)
                    same(iso.gamma[i, j][ok], r[ok],
                         "%s point %d sigma %s bands %s" % (lang, gp, s, bands))
                    same(iso.frequencies[j], low.get_phonons()[0][gp], "frequencies")
                    obs.outcome(vc.rd(iso.gamma[i, j]))
                    obs.state((lang, gp, s, str(bands)))
                    obs.step()


def run_bands(case, obs):
    """All ordered selections of bands against the whole set."""
    sig = [None, 0.3]
    ph3, iso = make(case, sigmas=sig)
    gps = points(iso.grid, "ir")
    quiet(iso.run, gps)
    full = iso.gamma.copy()
    nb = full.shape[2]
    sets = [c for n in range(1, nb + 1) for c in
            (itertools.permutations(range(nb), n) if n <= case["nperm"] else
             itertools.combinations(range(nb), n))]
    for bs in sets:
        ph3, iso = make(dict(case, bands=list(bs)), sigmas=sig)
        quiet(iso.run, gps)
        same(iso.gamma, full[:, :, list(bs)], "bands %s" % (bs,))
        obs.state(bs)
        obs.step(len(gps))
    obs.outcome(vc.rd(full))


def run_mass(case, obs):
    """Linearity in the mass variances; isotope data."""
    from phono3py.other.isotope import get_mass_variances

    ph3, iso = make(dict(case, mv=None), sigma=None)
    cell = ph3.phonon_primitive
    data = {s: [[1, 10.0 + i, 0.25], [2, 11.0 + i, 0.75]] for i, s in
            enumerate(sorted(set(cell.symbols)))}
    ref = variances(cell)
    same(get_mass_variances(cell), ref, "mass variances")
    same(get_mass_variances(symbols=cell.symbols), ref, "mass variances by symbols")
    for k in range(len(data) + 1):
        for sub in itertools.combinations(sorted(data), k):
            d = {s: data[s] for s in sub}
            same(get_mass_variances(cell, isotope_data=d), variances(cell, d), "isotope data")
            _, i2 = make(dict(case, mv=None), sigma=None, isotope_data=d)
            same(i2.mass_variances, variances(cell, d), "isotope data of object")
            obs.step()
    n = len(cell)
    for sigma in (None, 0.3):
        for gp in points(iso.bz_grid, "ir"):
            unit = []
            for a in range(n):
                v = np.zeros(n)
                v[a] = 1.0
                _, i2 = make(dict(case, mv=v.tolist()), sigma=sigma)
                i2.set_grid_point(gp)
                i2.run()
                unit.append(i2.gamma)
            for comb in itertools.product((0.0, 1.0, 2.5e-4), repeat=n):
                _, i2 = make(dict(case, mv=list(comb)), sigma=sigma)
                i2.set_grid_point(gp)
                i2.run()
                same(i2.gamma, np.array(comb) @ unit, "mass variances %s" % (comb,))
                obs.step()
                obs.state((sigma, gp, comb))
            obs.outcome(vc.rd(np.sum(unit, axis=0)))


def run_history(case, obs):
    """One object: sequences of (grid point, width, implementation)."""
    ph3, iso = make(case, sigma=None)
    mv = iso.mass_variances
    nb = 3 * len(ph3.phonon_primitive)
    gps = points(iso.bz_grid, "all")
    gps = [gps[0], gps[len(gps) // 2], gps[-1]]
    acts = list(itertools.product(gps, (None, 0.25), ("C", "Py")))
    for first in ("C", "Py"):
        for seq in itertools.product(acts, repeat=2):
            if seq[0][2] != first:
                continue
            _, iso = make(case, sigma=None)
            for gp, s, lang in seq:
                iso.set_grid_point(gp)
                iso.sigma = s
                iso.run(lang=lang)
                # the other route may not have solved everything
                r = formula(iso, gp, mv, list(range(nb)), s, 0)
                ok = np.ones(nb, dtype=bool)
                if lang == "Py" and not s:
                    ok = ~ties(iso, gp, list(range(nb)))
                same(iso.gamma[ok], r[ok], "sequence %s" % (seq,))
                obs.step()
            obs.state(seq)
            obs.outcome(vc.rd(iso.gamma))


def run_kappa(case, obs):
    """Rates inside the conductivity are those of the formula."""
    from phono3py.other.isotope import Isotope

    ph3 = xtal.phono3py(case["xtal"], case["smat"], nac=case.get("nac"))
    ph3.mesh_numbers = case["mesh"]
    ph3.sigmas = [None, 0.3]
    ph3.init_phph_interaction()
    mv = case.get("mv")
    cell = ph3.primitive
    for lbte in (False, True):
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            ph3.run_thermal_conductivity(is_LBTE=lbte, temperatures=[300.0], is_isotope=True,
                                         mass_variances=mv)
        tc = ph3.thermal_conductivity
        m = np.array(mv) if mv else variances(cell)
        iso = Isotope(ph3.mesh_numbers, cell, mass_variances=m, bz_grid=ph3.grid,
                      cutoff_frequency=1e-4)
        iso.set_phonons(*ph3.phph_interaction.get_phonons(), dm=ph3.dynamical_matrix)
        gi = np.array(tc.gamma_isotope)
        for j, gp in enumerate(tc.grid_points):
            for i, s in enumerate((None, 0.3)):
                r = formula(iso, gp, m, list(range(3 * len(cell))), s, 1e-4)
                r = c08.deg_average(r, iso.get_phonons()[0][gp], range(3 * len(cell)))
                got = c08.deg_average(gi[i, j], iso.get_phonons()[0][gp], range(3 * len(cell)))
                same(got, r, "LBTE %s point %d sigma %s" % (lbte, gp, s))
                obs.step()
        obs.outcome(vc.rd(gi))
        obs.state((lbte, str(mv)))


def spaces(tier):
    th = tier == "thorough"
    S = xtal.SMAT

    def crystals():
        for x in S:
            if x in xtal.CONV:
                continue
            for me in ([2, 2, 2], [3, 3, 3], xtal.mesh_c(x, 3, 1)):
                yield dict(xtal=x, smat=S[x], mesh=me, lang=["C", "Py"] if me[0] == 2 else ["C"],
                           points="all" if me[0] == 2 or th else "ir")
        for cut in (1e-3, 2.5, 5.0):
            for bands in (None, [3, 1]):
                for x in ("nacl", "tric2"):
                    yield dict(xtal=x, smat=S[x], mesh=[2, 2, 2], cutoff=cut, bands=bands,
                               lang=["C", "Py"], mv=[2e-4, 7e-4])
        yield dict(xtal="nacl", smat=S["nacl"], mesh=10.0, grg=True, lang=["C", "Py"])
        yield dict(xtal="bct1", smat=S["bct1"], mesh=9.0, grg=True, lang=["C", "Py"])
        yield dict(xtal="nacl", smat=S["nacl"], mesh=[3, 3, 3], nac="gonze", lang=["C", "Py"])
        yield dict(xtal="wz", smat=S["wz"], mesh=[2, 2, 2], nac="wang")

    def bands():
        yield dict(xtal="fcc1", smat=S["fcc1"], mesh=[2, 2, 2], nperm=3)
        yield dict(xtal="tric2", smat=S["tric2"], mesh=[2, 1, 2], nperm=6 if th else 2)
        yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], nperm=3 if th else 1)

    def mass():
        for x in ("nacl", "tric2", "hcp", "p4"):
            yield dict(xtal=x, smat=S[x], mesh=[2, 2, 2] if th else [2, 2, 1] if x != "nacl"
                       else [2, 2, 2])

    def hist():
        for x in ("nacl", "tric2", "hex1"):
            yield dict(xtal=x, smat=S[x], mesh=[2, 2, 2])

    def kappa():
        for x, mv in (("nacl", [3e-4, 1e-4]), ("nacl", None), ("hex1", None), ("dia", None)):
            yield dict(xtal=x, smat=S[x], mesh=[2, 2, 2], mv=mv)
        yield dict(xtal="nacl", smat=S["nacl"], mesh=[3, 3, 3], mv=None, nac="gonze")

    return [
        Space("crystals", crystals(), run, "crystals x meshes x points x methods x cutoffs x both "
              "implementations x orders of points"),
        Space("bands", bands(), run_bands, "all (ordered) subsets of bands"),
        Space("masses", mass(), run_mass, "mass variances: all patterns, isotope data"),
        Space("history", hist(), run_history, "all sequences of two calculations on one object"),
        Space("conductivity", kappa(), run_kappa, "rates inside RTA and LBTE conductivities"),
    ]


if __name__ == "__main__":
    vc.main(globals())
