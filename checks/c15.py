"""C15: cumulative properties and spectra."""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
from pathlib import Path
from unittest import mock

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402
import c05  # noqa: E402
import c12  # noqa: E402

PROPERTY = "C15"
TECHNIQUE = ("explicit-state model checking: all assignments of a small set of values to the "
             "irreducible grid points and bands, all options of the accumulation functions and of "
             "the phono3py-kaccum command are executed on the real code and compared with exact "
             "spline integrals over tetrahedra")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every pattern of values over the irreducible points of small meshes (with ties) and "
              "generic dispersions on larger ones; weights are exact B-spline integrals; the "
              "command is run on files written by real calculations for the product of its options.")
ASSUMPTIONS = ["the star map of the grid as decided by C02",
               "sampling points that coincide with a vertex are left to C05"]
TOL = 1e-8


def grid(case):
    from phono3py.phonon.grid import get_ir_grid_points

    g, rec = c05.make_grid(dict(case, dense=case.get("dense", True)))
    m = c05.GridModel(g, rec)
    ir, w, mp = get_ir_grid_points(g)
    return g, m, ir, w, mp


class Tetra:
    """Weights at points of the grid for a function over the regular grid."""

    def __init__(self, g, m):
        from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

        rel = np.array(get_tetrahedra_relative_grid_address(m.mz))
        c05.check_geometry(m.mz, rel)
        self.m = m
        self.shift = rel @ m.step.T

    def vertices(self, gr, f):
        """(points, 24, 4, bands) of regular-grid points gr."""
        q = self.m.q[self.m.g.grg2bzg[np.array(gr)]]
        v = self.m.index(q[:, None, None] + self.shift)
        return f[v]

    def density(self, oms, gr, f, prop):
        """(om, 2, elem) and points on a vertex; prop (points, bands, elem)."""
        u = max(np.abs(f).max(), 1e-300) * 2.0 ** -34  # ties by roundoff
        v = np.moveaxis(self.vertices(gr, np.rint(f / u) * u), 2, -1)  # points, 24, bands, 4
        out = np.zeros((len(oms), 2, prop.shape[-1]))
        amb = np.zeros(len(oms), dtype=bool)
        for k, om in enumerate(oms):
            i = c05.vertex_weight(om, v).sum(axis=1) / 6
            j = c05.vertex_cumulative(om, v).sum(axis=1) / 6
            out[k, 0] = np.einsum("pb,pbe->e", j, prop)
            out[k, 1] = np.einsum("pb,pbe->e", i, prop)
            amb[k] = (abs(v - om) < 1e-7 * max(1, abs(om))).any()
        return out / self.m.n, amb


def prop_of(n, nb, nt, ne):
    x = np.arange(n * nb * nt * ne).reshape(nt, n, nb, ne)
    return 1.0 + np.sin(1.7 * x) * 0.8 + (x % 5 == 0) * 0.5


def judge(kd, oms, want, amb, total, what, ends=True):
    ok = ~amb
    if not np.isfinite(kd).all():
        raise Bad("%s: not finite" % what)
    sc = 1e-12 + np.abs(total).max()
    vc.close(kd[ok][:, 0], want[ok][:, 0], TOL, "%s: cumulative" % what, scale=sc)
    vc.close(kd[ok][:, 1], want[ok][:, 1], TOL, "%s: density" % what,
             scale=sc + np.abs(want[ok][:, 1]).max() if ok.any() else 1)
    if ends:
        vc.close(kd[-1, 0], total, TOL, "%s: cumulative at the end and total" % what, scale=sc)
        if not amb[0]:
            vc.close(kd[0, 0], 0 * kd[0, 0], TOL, "%s: cumulative at the beginning" % what, scale=sc)


def run_values(case, obs):
    """All patterns of values."""
    from phono3py.other.kaccum import KappaDOSTHM, run_mfp_dos, run_prop_dos

    try:
        g, m, ir, w, mp = grid(case)
    except RuntimeError:
        obs.note("refused")
        return
    te = Tetra(g, m)
    nb, nt, ne = 2, 2, case["ne"]
    pos = {int(p): i for i, p in enumerate(ir)}
    back = np.array([pos[int(x)] for x in mp])
    lv = case["levels"]
    p_star = prop_of(len(ir), nb, nt, ne)
    if case["all"]:
        pats = list(itertools.product(range(len(lv)), repeat=len(ir)))
    else:
        pats = [[(i * (2 * s + 3) + i // 2 + s) % len(lv) for i in range(len(ir))]
                for s in range(case["n"])]
    for pat in pats:
        f = np.array([[lv[x], 1.3 * lv[(x + b) % len(lv)]] for b, x in enumerate(pat)])
        fg = f[back]
        lo, hi = f.min(), f.max()
        oms = np.array(sorted({lo - 0.3, hi + 0.2} | {(a + b) / 2 + 1e-3 for a, b in zip(
            np.unique(f)[:-1], np.unique(f)[1:])} | {lo + 0.617 * (hi - lo) + 1e-3}))
        want = [te.density(oms, ir, fg, p_star[t]) for t in range(nt)]
        tot = p_star.sum(axis=(1, 2)) / m.n
        k = KappaDOSTHM(p_star, f, g, ir_grid_points=ir, ir_grid_map=mp, frequency_points=oms)
        x, kd = k.get_kdos()
        if not np.array_equal(x, oms):
            raise Bad("sampling points changed")
        for t in range(nt):
            judge(kd[t], oms, want[t][0], want[t][1], tot[t], "KappaDOSTHM %s" % (pat,))
        # weights of stars given separately
        kw = KappaDOSTHM(p_star / w[None, :, None, None], f, g, ir_grid_points=ir,
                         ir_grid_weights=w, ir_grid_map=mp, frequency_points=oms).get_kdos()[1]
        vc.close(kw, kd, 1e-12, "weights of stars", scale=np.abs(kd).max())
        # whole grid without symmetry
        pg = (p_star / w[None, :, None, None])[:, back]
        kg = KappaDOSTHM(pg, fg, g, frequency_points=oms).get_kdos()[1]
        for t in range(nt):
            ref, amb = te.density(oms, np.arange(m.n), fg, pg[t])
            judge(kg[t], oms, ref, amb, tot[t], "whole grid %s" % (pat,))
        # default sampling points
        for num in (2, 7):
            kd, sp = run_prop_dos(f, p_star, mp, ir, num, g)
            if sp.shape != (nt, num) or abs(sp[:, 0] - lo).max() > 1e-6 or abs(
                    sp[:, -1] - hi).max() > 1e-6 or abs(np.diff(sp, 2, axis=1)).max(initial=0) > 1e-9:
                raise Bad("sampling points %s of [%g, %g]" % (sp, lo, hi))
            for t in range(nt):
                ref, amb = te.density(sp[t], ir, fg, p_star[t])
                judge(kd[t], sp[t], ref, amb, tot[t], "run_prop_dos %s" % (pat,))
            # another quantity per temperature on the axis
            y = np.array([f * (1 + t) * case.get("unit", 1.0) for t in range(nt)])
            kd, sp = run_mfp_dos(y, p_star, mp, ir, num, g)
            for t in range(nt):
                ref, amb = te.density(sp[t], ir, y[t][back], p_star[t])
                judge(kd[t], sp[t], ref, amb, tot[t], "run_mfp_dos %s" % (pat,))
                if abs(sp[t, -1] / y[t].max() - 1) > 1e-6:
                    raise Bad("largest value of axis %g, %g" % (sp[t, -1], y[t].max()))
        obs.step(5)
        obs.state(tuple(pat))
    obs.outcome(vc.rd(kd))


def run_smear(case, obs):
    from phono3py.other.kaccum import GammaDOSsmearing

    nb, nt = 2, 2
    n = case["n"]
    w = np.array([1, 3, 4, 2, 6][:n])
    lv = [1.0, 2.0, 3.5]
    for pat in itertools.product(range(3), repeat=n):
        f = np.array([[lv[x], 1.3 * lv[(x + b) % 3]] for b, x in enumerate(pat)])
        p = prop_of(n, nb, nt, 1)[..., 0]
        num = case["num"]
        kw = {} if case["sigma"] == "default" else {"sigma": case["sigma"]}
        x, d = GammaDOSsmearing(p, f, w, num_sampling_points=num, **kw).get_gdos()
        s = case["sigma"] if kw and case["sigma"] else (x.max() - x.min()) / 100
        if s < 1e-9:
            obs.note("one frequency")
            continue
        if len(x) != num or abs(x[0] - f.min()) > 1e-6 or abs(x[-1] - f.max()) > 1e-6:
            raise Bad("sampling points %s" % x)
        g = np.exp(-(f[None] - x[:, None, None]) ** 2 / 2 / s ** 2) / np.sqrt(2 * np.pi) / s
        want = np.einsum("xpb,tpb,p->tx", g, p, w) / w.sum()
        vc.close(d[:, :, 1], want, 1e-9, "smearing with sigma %s" % case["sigma"],
                 scale=np.abs(want).max())
        obs.step()
        obs.state(pat)
    obs.outcome(vc.rd(d))


def run_mfp(case, obs):
    """Mean free path of all patterns of linewidths."""
    from phono3py.other.kaccum import get_mfp

    gv = np.array(list(itertools.product((0.0, 0.3, -20.0), repeat=3))).reshape(9, 3, 3)
    n = np.arange(2 * 27).reshape(2, 9, 3)
    for s in range(case["n"]):
        g = np.array([0.0, 1e-9, 0.02, 1.5, -1e-20])[(n * (s + 1) + s) % 5]
        before = g.copy(), gv.copy()
        x = get_mfp(g, gv)
        if not (np.array_equal(g, before[0]) and np.array_equal(gv, before[1])):
            raise Bad("arguments changed")
        v = np.linalg.norm(gv, axis=-1)
        for t in np.ndindex(g.shape):
            want = v[t[1:]] / (4 * np.pi * g[t]) if g[t] > 0 else 0
            vc.close(x[t], want, 1e-12, "mean free path", scale=max(want, 1e-12))
        obs.step()
        obs.state(s)
    obs.outcome(vc.rd(x))


def parse(text):
    """Blocks of numbers."""
    out, cur, head = [], [], None
    for ln in text.splitlines():
        if ln.startswith("#") and ln.rstrip().endswith(" K"):
            head = float(ln.split()[1])
        elif ln.startswith("#"):
            continue
        elif ln.strip():
            cur.append([float(x) for x in ln.split()])
        elif cur:
            out.append((head, np.array(cur)))
            cur = []
    if cur:
        out.append((head, np.array(cur)))
    return out


OPTS = []
for _k in ([], ["--gv"], ["--mfp"], ["--gv", "--mfp"]):
    for _a in ([], ["--average"], ["--trace"]):
        OPTS.append(_k + _a)
for _k in ("--cv", "--tau", "--gamma", "--dos", "--gv-norm", "--pqj"):
    for _a in ([], ["--smearing"]):
        OPTS.append([_k] + _a)


def command(args, d):
    from phono3py.cui import kaccum_script

    out, err = io.StringIO(), io.StringIO()
    old = os.getcwd()
    os.chdir(d)
    try:
        with mock.patch.object(sys, "argv", ["phono3py-kaccum"] + args):
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                kaccum_script.main()
    finally:
        os.chdir(old)
    return parse(out.getvalue())


def run_script(case, obs):
    import h5py

    ph3 = xtal.phono3py(case["xtal"], case["smat"], is_mesh_symmetry=case.get("ms", True),
                        use_grg=case.get("grg", False))
    ph3.mesh_numbers = case["mesh"]
    ph3.sigmas = [0.8]
    d = tempfile.mkdtemp(prefix="c15-")
    old = os.getcwd()
    try:
        os.chdir(d)
        ph3.save("phono3py.yaml")
        ph3.init_phph_interaction()
        with contextlib.redirect_stdout(io.StringIO()):
            ph3.run_thermal_conductivity(temperatures=case["temps"], write_kappa=True, is_isotope=False,
                                         is_full_pp=True)
        os.chdir(old)
        fn = [x for x in os.listdir(d) if x.startswith("kappa-")]
        if len(fn) != 1:
            raise Bad("files %s" % os.listdir(d))
        with h5py.File(os.path.join(d, fn[0]), "r") as h:
            data = {k: h[k][()] for k in h}
        g = ph3.grid
        from phono3py.phonon.grid import get_ir_grid_points

        m = c05.GridModel(g, np.linalg.inv(ph3.primitive.cell))
        te = Tetra(g, m)
        f = data["frequency"]
        w = data["weight"]
        if (w == 1).all():
            ir, back = np.arange(m.n), np.arange(m.n)
        else:
            ir, _, mp = get_ir_grid_points(g)
            pos = {int(p): i for i, p in enumerate(ir)}
            back = np.array([pos[int(x)] for x in mp])
        temps = data["temperature"]
        gam = data["gamma"]
        f = np.where(f > 0, f, 0) if (f <= 0).sum() > 3 else f
        wx = w[None, :, None]
        pos_g = gam > 0
        vol = ph3.primitive.volume
        tau = np.where(pos_g, 1 / (4 * np.pi * np.where(pos_g, gam, 1)), 0)
        gvn = np.linalg.norm(data["group_velocity"], axis=-1)
        props = {"--cv": data["heat_capacity"] * wx, "--tau": tau * wx, "--gamma": gam * wx,
                 "--dos": np.ones((1,) + f.shape) * wx, "--gv-norm": gvn[None] * wx,
                 "--pqj": data["ave_pp"][None] * wx}
        for opt in OPTS:
            tlist = [None] + ([case["temps"][1]] if not set(opt) & {"--dos", "--gv-norm", "--pqj"}
                              and not ("--gv" in opt) else [])
            for T in tlist:
                nsp = case["nsp"]
                a = opt + ["--nsp", str(nsp)] + (["--temperature", str(T)] if T is not None else [])
                blocks = command(a + [fn[0]], d)
                what = "phono3py-kaccum %s" % " ".join(a)
                obs.step()
                sel = [i for i, t in enumerate(temps) if T is None or abs(t - T) < 1e-8]
                scalar = [k for k in opt if k in props]
                if scalar:
                    p = props[scalar[0]][..., None]
                else:
                    p = (data["gv_by_gv"][None] / vol if "--gv" in opt else data["mode_kappa"])
                if len(p) > 1:
                    p = p[sel]
                if "--mfp" in opt:
                    axis = (tau * gvn)[sel]
                    if len(p) == 1 and len(axis) > 1:
                        p = np.repeat(p, len(axis), axis=0) if False else p
                else:
                    axis = np.repeat(f[None], len(p), axis=0)
                nblock = len(p) if "--mfp" not in opt else len(axis)
                if len(blocks) != nblock:
                    raise Bad("%s: %d blocks instead of %d" % (what, len(blocks), nblock))
                for b, (head, x) in enumerate(blocks):
                    pb = p[min(b, len(p) - 1)]
                    ax = axis[b]
                    if len(x) != nsp:
                        raise Bad("%s: %d lines" % (what, len(x)))
                    if head is not None and len(p) > 1 and abs(head - int(temps[sel][b])) > 1e-6:
                        raise Bad("%s: temperature %s" % (what, head))
                    tol = 6e-6 * (1 + np.abs(ax).max() * 0)
                    vc.close(x[:, 0], np.linspace(ax.min(), ax.max(), nsp), 1, what + ": axis",
                             scale=tol + 1e-6 * (np.abs(ax).max() if np.abs(ax).max() > 1e3 else 1))
                    if "--smearing" in opt:
                        sx = np.linspace(ax.min(), ax.max(), nsp)
                        s = (sx[-1] - sx[0]) / 100
                        gg = np.exp(-(ax[None] - sx[:, None, None]) ** 2 / 2 / s ** 2) / np.sqrt(
                            2 * np.pi) / s
                        want = np.einsum("xpb,pb->x", gg, pb[..., 0]) / m.n
                        vc.close(x[:, 2], want, 1e-5, what + ": density", scale=np.abs(want).max() + 1)
                        continue
                    total = pb.sum(axis=(0, 1)) / m.n
                    sx = np.linspace(ax.min(), ax.max() + 1e-8, nsp)
                    want, amb = te.density(sx, ir, ax[back], pb)
                    if "--average" in opt and not scalar:
                        total, want = total[:3].mean()[None], want[:, :, :3].mean(axis=2)[:, :, None]
                    if "--trace" in opt and not scalar:
                        total, want = total[:3].sum()[None], want[:, :, :3].sum(axis=2)[:, :, None]
                    ne = len(total)
                    if x.shape[1] != 1 + 2 * ne:
                        raise Bad("%s: %d columns" % (what, x.shape[1]))
                    amb[0] = True
                    ok = ~amb
                    dig = 1.1e-5
                    sc = np.abs(total).max() * 1e-5 + dig
                    vc.close(x[-1, 1:1 + ne], total, 1, what + ": end and total", scale=sc)
                    vc.close(x[ok, 1:1 + ne], want[ok, 0], 1, what + ": cumulative", scale=sc)
                    vc.close(x[ok, 1 + ne:], want[ok, 1], 1, what + ": density",
                             scale=dig + 1e-5 * np.abs(want[:, 1]).max())
                obs.state((tuple(opt), T is None))
        # the total of the file itself
        vc.close(data["mode_kappa"].sum(axis=(1, 2)) / m.n, data["kappa"], 1e-9, "kappa",
                 scale=np.abs(data["kappa"]).max())
        obs.outcome(vc.rd(data["kappa"]))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run_phonon(case, obs):
    """Density of states from phonon-*.hdf5."""
    from phono3py.file_IO import write_phonon_to_hdf5

    ph3 = xtal.phono3py(case["xtal"], case["smat"], use_grg=case.get("grg", False))
    ph3.mesh_numbers = case["mesh"]
    ph3.init_phph_interaction()
    ph3.run_phonon_solver()
    it = ph3.phph_interaction
    g = it.bz_grid
    from phono3py.phonon.grid import get_ir_grid_points

    f = it.get_phonons()[0]
    ir, w, mp = get_ir_grid_points(g)
    m = c05.GridModel(g, np.linalg.inv(ph3.primitive.cell))
    te = Tetra(g, m)
    d = tempfile.mkdtemp(prefix="c15-")
    old = os.getcwd()
    try:
        os.chdir(d)
        ph3.save("phono3py.yaml")
        write_phonon_to_hdf5(f, it.get_phonons()[1], g.addresses, g.D_diag, bz_grid=g,
                             ir_grid_points=g.grg2bzg[ir], ir_grid_weights=w, filename="x")
        os.chdir(old)
        fn = [x for x in os.listdir(d) if x.startswith("phonon-")][0]
        fg = f[g.grg2bzg]
        if (fg <= 0).sum() > 3:
            fg = np.where(fg > 0, fg, 0)
        for gridsym in (True, False):
            a = ["--dos", "--nsp", "11"] + ([] if gridsym else ["--no-gridsym"])
            x = command(a + ["--smearing", fn], d)[0][1]
            sx = np.linspace(fg.min(), fg.max(), 11)
            s = (sx[-1] - sx[0]) / 100
            gg = np.exp(-(fg[None] - sx[:, None, None]) ** 2 / 2 / s ** 2) / np.sqrt(2 * np.pi) / s
            vc.close(x[:, 2], gg.sum(axis=(1, 2)) / m.n, 1e-4, "smearing of phonons", scale=1)
            blocks = command(["--dos", "--nsp", "11"] + ([] if gridsym else ["--no-gridsym"]) + [fn], d)
            if len(blocks) != 1 or len(blocks[0][1]) != 11:
                raise Bad("blocks of density of states")
            x = blocks[0][1]
            sx = np.linspace(fg.min(), fg.max() + 1e-8, 11)
            if gridsym:
                want, amb = te.density(sx, ir, fg, np.repeat(w[:, None, None], f.shape[1], axis=1))
            else:
                want, amb = te.density(sx, np.arange(m.n), fg, np.ones(fg.shape + (1,)))
            amb[0] = True
            ok = ~amb
            what = "--dos of phonons, symmetry %s" % gridsym
            vc.close(x[-1, 1], f.shape[1], 1e-4, what + ": number of modes", scale=1)
            vc.close(x[ok, 1], want[ok, 0, 0], 1e-4, what + ": cumulative", scale=1)
            vc.close(x[ok, 2], want[ok, 1, 0], 1e-4, what + ": density", scale=1)
            obs.step()
            obs.state(gridsym)
        obs.outcome(vc.rd(x))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def spaces(tier):
    q = tier == "quick"
    v = []
    names = ["sc1", "hex1", "nacl", "tric1", "bct1"] if q else [
        "sc1", "hex1", "nacl", "tric1", "bct1", "fcc1", "bcc1", "tet1", "ort1", "mono1", "rhom1",
        "hcp", "zb", "te", "p4", "wz", "bcts", "fco1", "cco1"]
    for x in names:
        for mesh in ([2, 2, 2], xtal.mesh_c(x, 3, 2)):
            v.append(dict(xtal=x, mesh=mesh, levels=[1.0, 2.0, 3.5], ne=1, n=8 if q else 40,
                          all=False))
    for x, mesh in (("sc1", [2, 2, 2]), ("fcc1", [2, 2, 2]), ("hex1", [2, 2, 1]), ("nacl", [3, 3, 3]),
                    ("tet1", [2, 2, 1])):
        v.append(dict(xtal=x, mesh=mesh, levels=[1.0, 2.0, 3.5], ne=2, all=True))
        if not q:
            v.append(dict(xtal=x, mesh=mesh, levels=[0.0, 1.0, 2.0, 5.0], ne=1, all=True, dense=False))
    for u in (1.0, 1e3, 1e8, 1e12):
        v.append(dict(xtal="sc1", mesh=[2, 2, 2], levels=[1.0, 2.0], ne=1, all=True, unit=u))
    v.append(dict(xtal="fcc1", mesh=12.0, grg=True, levels=[1.0, 2.0, 3.5], ne=1, n=5, all=False))
    v.append(dict(xtal="bct1", mesh=12.0, grg=True, levels=[1.0, 2.0, 3.5], ne=1, n=5, all=False))
    yield Space("values", v, run_values, "patterns of values over irreducible points")
    yield Space("smearing", [dict(n=4, num=num, sigma=s) for num in (2, 9, 200) for s in
                             ("default", None, 0.1, 0.05, 0.7)], run_smear, "patterns x sigma")
    yield Space("mfp", [dict(n=20)], run_mfp, "patterns of linewidths and velocities")
    sx = ["nacl", "hex1", "tric1"] if q else ["nacl", "hex1", "tric1", "sc1", "mono1", "hcp", "zb",
                                              "rhom1", "bct1", "fcc1"]
    sx = [x for x in sx if x in xtal.SMAT]
    out = []
    for x in sx:
        out.append(dict(xtal=x, smat=xtal.SMAT[x], mesh=[2, 2, 2], temps=[100.0, 300.0], nsp=7))
    out.append(dict(xtal="nacl", smat=xtal.SMAT["nacl"], mesh=[3, 3, 3], temps=[0.0, 300.0], nsp=4))
    out.append(dict(xtal="hex1", smat=xtal.SMAT["hex1"], mesh=[2, 2, 1], temps=[50.0, 300.0], nsp=5,
                    ms=False))
    out.append(dict(xtal="fcc1", smat=xtal.SMAT["fcc1"], mesh=12.0, grg=True, temps=[50.0, 300.0],
                    nsp=5))
    yield Space("command", out, run_script, "options of phono3py-kaccum x files")
    yield Space("phonon", [dict(xtal=c["xtal"], smat=c["smat"], mesh=c["mesh"], grg=c.get("grg", False))
                           for c in out if c.get("ms", True)], run_phonon, "files of phonons")


if __name__ == "__main__":
    vc.main(globals())
