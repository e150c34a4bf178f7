"""C10: the joint density of states counts each pair of phonons once."""
import glob
import itertools
import os
import sys
import tempfile
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import xtal  # noqa: E402
import c05  # noqa: E402
import c08  # noqa: E402

PROPERTY = "C10"
TECHNIQUE = ("explicit-state model checking: joint densities of states of the real code over all grid "
             "points, options and histories of runs of one object against sums over all pairs of "
             "phonons of independently computed dispersions")
LEVEL = "model_checking"
LEVEL_NOTE = ("Crystals x meshes (also generalized) x all irreducible (or all) points x symmetry "
              "on/off x methods x temperatures x samplings x batches; sequences of runs of one "
              "object up to three runs. Oracle: sum over all q' of the whole grid with the "
              "dynamical matrix of numpy and B-spline (tetrahedron) or Gaussian weights.")
ASSUMPTIONS = ["relative addresses of tetrahedra (decided by C05)"]
CUT = 1e-4


class Pairs:
    """Frequencies on the whole grid, by numpy."""

    def __init__(self, ph3, g, nac=None, direction=None):
        from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix
        from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

        from phonopy.units import VaspToTHz as FACTOR

        self.F = FACTOR
        self.g = g
        self.D = np.array(g.D_diag)
        self.n = int(np.prod(self.D))
        self.dir = direction
        # row = index of regular grid
        self.adr = np.zeros((self.n, 3), dtype=int)
        for i in range(self.n):
            self.adr[i] = (i % self.D[0], i // self.D[0] % self.D[1], i // self.D[0] // self.D[1])
        qs = self.adr @ np.array(g.QDinv).T
        qs = qs - np.rint(qs)
        self.nacdm = None
        if nac:
            self.nacdm = get_dynamical_matrix(ph3.fc2, ph3.phonon_supercell, ph3.phonon_primitive,
                                              nac_params=nac)
            fs = [self._nac(q) for q in qs]
        else:
            fc2 = xtal.model(ph3._x, ph3._s)[0]
            ref = refphonon.Ref(ph3.phonon_supercell, ph3.phonon_primitive, fc2)
            fs = [refphonon.freqs_of(np.linalg.eigvalsh(ref.dm(q)), FACTOR) for q in qs]
        self.f = np.array(fs)
        self.fdir = self.f.copy()
        if nac and direction is not None:
            self.fdir[0] = self._nac(np.zeros(3), direction)
        mz = np.array(g.microzone_lattice)
        rel = np.array(get_tetrahedra_relative_grid_address(mz))
        # microzone basis -> reduced q -> addresses of the regular grid
        step = np.array(ph3.phonon_primitive.cell) @ mz
        r = rel @ (np.linalg.inv(np.array(g.QDinv)) @ step).T
        self.rel = np.rint(r).astype(int)
        if abs(self.rel - r).max() > 1e-6:
            raise Bad("microzone is no cell of the grid")

    def _nac(self, q, d=None):
        self.nacdm.run(q, q_direction=d)
        return refphonon.freqs_of(np.linalg.eigvalsh(self.nacdm.dynamical_matrix), self.F)

    def idx(self, a):
        return np.mod(a, self.D) @ [1, self.D[0], self.D[0] * self.D[1]]

    def run(self, gp, fp, t, sigma, ms=True):
        """(jdos (n, 2), doubtful (n,)).

        The tetrahedra have not the symmetry of the crystal: with symmetry the sum is
        taken over the listed triplets (decided by C04).
        """
        from phono3py.phonon3.triplets import get_triplets_at_q

        a0 = np.array(self.g.addresses[gp])
        f = self.fdir if not a0.any() else self.f
        a1, wt0 = self.adr, np.ones(self.n)
        if ms and not sigma:
            tp, wt0 = get_triplets_at_q(gp, self.g)[:2]
            a1 = np.array(self.g.addresses)[tp[:, 1]]
            if wt0.sum() != self.n:
                raise Bad("weights of triplets")
        i1 = self.idx(a1)
        i2 = self.idx(-a0 - a1)
        m = len(i1)
        f1, f2 = f[i1][:, :, None], f[i2][:, None, :]
        shape = (m,) + f1.shape[1:2] + f2.shape[2:]
        f1, f2 = np.broadcast_to(f1, shape), np.broadcast_to(f2, shape)
        if t is None:
            w0, w1, w2 = np.ones(shape), np.ones(shape), np.ones(shape)
        else:
            ok = (f1 > CUT) & (f2 > CUT)
            n1 = n2 = np.zeros(shape)
            if t > 0:
                n1 = c08.bose(np.where(ok, f1, 1.0), t)
                n2 = c08.bose(np.where(ok, f2, 1.0), t)
            w0, w1 = ok * (n1 + n2 + 1.0), ok * (n1 - n2)
            w2 = -w1
        w0, w1, w2 = (x * wt0[:, None, None] for x in (w0, w1, w2))
        out = np.zeros((len(fp), 2))
        amb = np.zeros(len(fp), dtype=bool)
        if sigma:
            for k, x in enumerate(fp):
                def gs(y):
                    return np.exp(-y ** 2 / 2 / sigma ** 2) / np.sqrt(2 * np.pi) / sigma
                out[k, 1] = (w0 * gs(x - f1 - f2)).sum()
                out[k, 0] = (w1 * gs(x + f1 - f2) + w2 * gs(x - f1 + f2)).sum()
        else:
            v1 = f[self.idx(a1[:, None, None] + self.rel[None])]  # n,24,4,b
            v2 = f[self.idx((-a0 - a1)[:, None, None] - self.rel[None])]
            v1 = np.moveaxis(v1, -1, 1)[:, :, None]
            v2 = np.moveaxis(v2, -1, 1)[:, None, :]
            for v, wt, col in ((v1 + v2, w0, 1), (v2 - v1, w1, 0), (v1 - v2, w2, 0)):
                for k, x in enumerate(fp):
                    near = (abs(v - x) < 1e-7).any(axis=(-1, -2)) & (wt != 0)
                    amb[k] |= near.any()
                    g = c05.vertex_weight(x, v).sum(axis=-1) / 6
                    out[k, col] += (wt * g).sum()
        return out / self.n, amb


def setup(case):
    from phono3py.api_jointdos import Phono3pyJointDos

    ph3 = xtal.phono3py(case["xtal"], case["smat"], is_symmetry=case.get("sym", True))
    ph3._x, ph3._s = case["xtal"], tuple(case["smat"])
    nac = xtal.nac_params(case["xtal"], case["nac"]) if case.get("nac") else None

    def make(**kw):
        a = dict(mesh=case["mesh"], nac_params=nac, is_mesh_symmetry=case.get("ms", True),
                 is_symmetry=case.get("sym", True), use_grg=case.get("grg", False),
                 nac_q_direction=case.get("dir"), cutoff_frequency=CUT)
        a.update(kw)
        return Phono3pyJointDos(ph3.phonon_supercell, ph3.phonon_primitive, ph3.fc2, **a)

    return ph3, nac, make


def gps_of(g, how):
    from phono3py.phonon.grid import get_ir_grid_points

    if how == "all":
        return list(range(len(g.addresses)))
    return [int(g.grg2bzg[i]) for i in get_ir_grid_points(g)[0]]


def cmp(got, want, amb, what, tet):
    ok = ~amb
    vc.close(got[ok], want[ok], 3e-5, what,
             scale=max(np.abs(want[ok]).max() if ok.any() else 0, 1e-10))


def run(case, obs):
    ph3, nac, make = setup(case)
    temps, sigmas = case["temps"], case["sigmas"]
    j = make(temperatures=temps, sigmas=sigmas, frequency_step=case.get("step", 0.61))
    g = j.grid
    pr = Pairs(ph3, g, nac, case.get("dir"))
    # without the direction
    fmax = pr.f.max() * 2 + 4 * max([s for s in sigmas if s] or [0])
    want_fp = np.arange(0, fmax * 1.005, case.get("step", 0.61))
    for gp in gps_of(g, case.get("points", "ir")):
        res = {}
        for i, s in enumerate(sigmas):
            for k, t in enumerate(temps or [None]):
                res[i, k] = pr.run(gp, want_fp, t, s, case.get("ms", True))
        for batch in case.get("batch", [None]):
            j.num_frequency_points_in_batch = batch
            j.run([gp])
            fp = j.frequency_points
            vc.close(fp, want_fp, 1e-7, "frequency points")
            for (i, k), (r, amb) in res.items():
                what = "point %d sigma %s T %s batch %s" % (
                    gp, sigmas[i], (temps or [None])[k], batch)
                cmp(j.joint_dos[i, k], r, amb, what, sigmas[i] is None)
                obs.outcome(vc.rd(j.joint_dos[i, k]))
                obs.state((gp, i, k, batch, int(amb.sum())))
                obs.step()


def run_histories(case, obs):
    """Sequences of runs of one object and files of each run."""
    ph3, nac, make = setup(case)
    temps, sigmas = case["temps"], case["sigmas"]
    meshes = case["meshes"]
    j = make(mesh=meshes[0], temperatures=temps, sigmas=sigmas, num_frequency_points=9)
    ref = {}

    def expect(m, gp, fp, i, k):
        key = (str(m), gp, i, k)
        if key not in ref:
            fresh = make(mesh=m)
            ref[key] = Pairs(ph3, fresh.grid, nac, case.get("dir")).run(
                gp, fp, (temps or [None])[k], sigmas[i])
        return ref[key]

    cur = meshes[0]
    for op in case["ops"]:
        if op[0] == "mesh":
            cur = meshes[op[1]]
            j.initialize(cur)
        elif op[0] == "setmesh":
            # without initialisation: the new grid or an error
            j.mesh_numbers = meshes[op[1]]
            try:
                j.run([0])
            except RuntimeError as e:
                if "initialize" not in str(e):
                    raise
                j.initialize(meshes[op[1]])
            cur = meshes[op[1]]
        elif op[0] == "batch":
            j.num_frequency_points_in_batch = op[1]
        else:
            n = len(j.grid.addresses)
            gps = [[0, n - 1, n // 2, 1][x] for x in op[1]]
            with tempfile.TemporaryDirectory() as d:
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    j.run(gps, write_jdos=True)
                    fs = glob.glob("*")
                    nt = len(temps or [None])
                    if len(fs) != len(set(gps)) * len(sigmas) * nt:
                        raise Bad("%d files for %d points, %d widths, %d temperatures: %s" % (
                            len(fs), len(set(gps)), len(sigmas), nt, sorted(fs)))
                    for gp in gps:
                        for i, s in enumerate(sigmas):
                            for k, t in enumerate(temps or [None]):
                                f = "jdos-m%d%d%d-g%d%s%s.dat" % (
                                    *j.grid.D_diag, gp, "-s%g" % s if s else "",
                                    "" if t is None else "-t%g" % t)
                                x = np.loadtxt(f)
                                r, amb = expect(cur, gp, j.frequency_points, i, k)
                                cmp(x[:, 1:], r, amb, "file %s after %s" % (f, case["ops"]),
                                    s is None)
                finally:
                    os.chdir(cwd)
            for i, s in enumerate(sigmas):
                for k, t in enumerate(temps or [None]):
                    r, amb = expect(cur, gps[-1], j.frequency_points, i, k)
                    cmp(j.joint_dos[i, k], r, amb, "points %s after %s" % (gps, case["ops"]),
                        s is None)
            obs.outcome(vc.rd(j.joint_dos))
        obs.step()
        obs.state((op, str(cur)))


def run_low(case, obs):
    """The object JointDos: orders of settings, python implementation."""
    from phono3py.phonon3.joint_dos import JointDos

    ph3, nac, make = setup(case)
    g = make().grid
    pr = Pairs(ph3, g, nac, None)
    j = JointDos(ph3.phonon_primitive, ph3.phonon_supercell, g, ph3.fc2, nac_params=nac,
                 cutoff_frequency=CUT, is_mesh_symmetry=case.get("ms", True))
    import warnings
    warnings.simplefilter("ignore")
    if list(j.get_mesh_numbers()) != list(g.D_diag):
        raise Bad("get_mesh_numbers")
    if list(j.mesh_numbers) != list(g.D_diag):
        raise Bad("mesh numbers")
    fps = [np.array([0.37, 1.91, 3.3]), np.array([2.2])]
    ref = {}
    for seq in itertools.product(itertools.product((0, len(g.addresses) - 1), (None, 250.0, 0.0),
                                                   (None, 0.4), (0, 1)), repeat=2):
        for gp, t, s, k in seq:
            j.set_grid_point(gp)
            j.temperature, j.sigma, j.frequency_points = t, s, fps[k]
            j.run()
            if (gp, t, s, k) not in ref:
                ref[gp, t, s, k] = pr.run(gp, fps[k], t, s, case.get("ms", True))
            r, amb = ref[gp, t, s, k]
            cmp(j.joint_dos, r, amb, "%s" % (seq,), s is None)
            if t is not None and t > 0:
                j.run_jdos(lang="Py")
                cmp(j.joint_dos, r, amb, "python %s" % (seq,), s is None)
            obs.step()
        obs.state(seq)
    obs.outcome(sorted((str(k), vc.rd(v[0])) for k, v in ref.items()))


def run_dirs(case, obs):
    """JointDos: sequences of grid points and directions of approach to Gamma."""
    from phono3py.phonon3.joint_dos import JointDos

    ph3, nac, make = setup(case)
    g = make().grid
    dirs = [None, [1, 0, 0], [1, 2, 3]]
    prs = [Pairs(ph3, g, nac, d) for d in dirs]
    fp = np.array([0.37, 1.91, 3.3, 5.1])
    other = len(g.addresses) // 2
    ref = {}
    for seq in itertools.product(itertools.product((g.gp_Gamma, other), range(3)), repeat=3):
        for start in (None, [0, 0, 1]):
            j = JointDos(ph3.phonon_primitive, ph3.phonon_supercell, g, ph3.fc2, nac_params=nac,
                         cutoff_frequency=CUT, nac_q_direction=start)
            j.sigma, j.temperature, j.frequency_points = 0.4, case["temp"], fp
            for gp, d in seq:
                j.nac_q_direction = dirs[d]
                try:
                    j.set_grid_point(gp)
                except RuntimeError:
                    if gp == g.gp_Gamma or d == 0:
                        raise
                    obs.note("refused")
                    continue
                j.run()
                obs.step()
                if gp != g.gp_Gamma and d != 0:
                    continue  # Gamma with or without the direction
                if (gp, d) not in ref:
                    ref[gp, d] = prs[d].run(gp, fp, case["temp"], 0.4)
                r, amb = ref[gp, d]
                cmp(j.joint_dos, r, amb, "points and directions %s from %s" % (seq, start), False)
        obs.state(seq)
    obs.outcome(sorted((k, vc.rd(v[0])) for k, v in ref.items()))


def spaces(tier):
    th = tier == "thorough"
    S = xtal.SMAT

    def crystals():
        for x in S:
            if x in xtal.CONV:
                continue
            for me in ([2, 2, 2], [3, 3, 3]) if th or len(xtal.CELLS[x][1]) < 3 else ([2, 2, 2],):
                for temps in (None, [0.0, 300.0]):
                    yield dict(xtal=x, smat=S[x], mesh=me, temps=temps, sigmas=[None, 0.4],
                               step=0.61 if th else 1.13)

    def options():
        for x, me in (("nacl", [2, 2, 2]), ("tric2", [3, 2, 1]), ("hcp", [3, 3, 2])):
            for ms in (True, False):
                for sym in (True, False):
                    for temps in (None, [30.0, 0.0]):
                        yield dict(xtal=x, smat=S[x], mesh=me, temps=temps, sigmas=[0.7, None, 0.2],
                                   ms=ms, sym=sym, points="all", step=2.3 if not th else 0.9,
                                   batch=[None, 1, 3] if ms else [None])
        for temps in (None, [100.0]):
            yield dict(xtal="nacl", smat=S["nacl"], mesh=10.0, grg=True, temps=temps,
                       sigmas=[None, 0.3])
            yield dict(xtal="bct1", smat=S["bct1"], mesh=9.0, grg=True, temps=temps,
                       sigmas=[None, 0.3])
            for d in (None, [1, 0, 0], [1, 2, 3]):
                yield dict(xtal="nacl", smat=S["nacl"], mesh=[2, 2, 2], nac="gonze", dir=d,
                           temps=temps, sigmas=[None, 0.3])

    def histories():
        ops = [("run", [0]), ("run", [1]), ("run", [2, 0]), ("run", [0, 3]), ("mesh", 1),
               ("batch", 2), ("setmesh", 1)]
        for n in (2, 3):
            for o in itertools.product(ops, repeat=n):
                if o[-1][0] != "run" or any(a == b for a, b in zip(o, o[1:])):
                    continue
                for temps, sig, nac, d in ((None, [None], None, None),
                                           ([300.0, 10.0], [0.4, None], "gonze", [0, 1, 0])):
                    if n == 3 and nac is None and not th:
                        continue
                    yield dict(xtal="nacl", smat=S["nacl"], mesh=None, meshes=[[2, 2, 2],
                               [3, 3, 3]], ops=o, temps=temps, sigmas=sig, nac=nac,
                               dir=d, ms=True)

    def low():
        for x, me in (("nacl", [2, 2, 2]), ("tric2", [2, 2, 2])) if not th else (
                ("nacl", [2, 2, 2]), ("tric2", [2, 2, 2]), ("hex1", [3, 3, 2]), ("dia", [3, 3, 3])):
            for ms in (True, False):
                yield dict(xtal=x, smat=S[x], mesh=me, ms=ms)

    def dirseq():
        for x, me in (("nacl", [2, 2, 2]),) if not th else (("nacl", [2, 2, 2]), ("nacl", [3, 3, 3])):
            for m in ("gonze", "wang"):
                for t in (None, 200.0):
                    yield dict(xtal=x, smat=S[x], mesh=me, nac=m, temp=t)

    return [
        Space("crystals", crystals(), run, "all crystals, irreducible points, methods, temperatures"),
        Space("options", options(), run, "symmetry options, all points, batches, generalized grids, "
              "directions of approach"),
        Space("histories", histories(), run_histories, "sequences of runs, mesh and batch changes, "
              "with files"),
        Space("directions", dirseq(), run_dirs, "all sequences of three grid points with directions "
              "of approach"),
        Space("object", low(), run_low, "sequences of two settings of JointDos, python route"),
    ]


if __name__ == "__main__":
    vc.main(globals())
