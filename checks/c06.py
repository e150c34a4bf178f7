"""C06: harmonic phonons on the grid are the eigenmodes of the dynamical matrix."""
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import refphonon  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C06"
TECHNIQUE = ("explicit-state model checking of the real objects: breadth-first enumeration of all "
             "request sequences up to a depth, each reached state checked point by point against "
             "an independent dynamical matrix")
LEVEL = "model_checking"
LEVEL_NOTE = ("State = (solved points, direction of NAC, way Gamma was solved). All sequences of "
              "requests (subsets, repeats, all, by rotation, change of direction, grid point "
              "switches) up to the depth are replayed on the implementation; in every state every "
              "point marked as solved must satisfy D(q)e = w^2 e with orthonormal e, D(q) from "
              "plain numpy (Wang NAC included; phonopy's class for Gonze-Lee NAC).")
ASSUMPTIONS = ["phonopy's dynamical matrix is the oracle for the Gonze-Lee NAC term"]
TOL = 1e-6



class Model:
    """Expected dynamical matrices of the crystal, cached per (q, direction)."""

    def __init__(self, ph3, name, smat, nac, scale=None):
        fc2, fc3 = xtal.model(name, tuple(smat))
        self.ref = refphonon.Ref(ph3.phonon_supercell, ph3.phonon_primitive, fc2)
        self.nac = nac
        self.params = xtal.nac_params(name, nac) if nac else None
        self.scale = 1.0 if scale is None else scale ** 2
        self.cache = {}
        self.gl = None
        if nac == "gonze":
            from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix

            self.gl = get_dynamical_matrix(fc2.copy(), ph3.phonon_supercell,
                                           ph3.phonon_primitive, nac_params=self.params)

    def dm(self, q, direction):
        q = np.array(q, dtype=float)
        k = (tuple(np.round(q, 9)), None if direction is None else tuple(direction))
        if k not in self.cache:
            if self.nac is None:
                d = self.ref.dm(q)
            elif self.nac == "wang":
                d = self.ref.dm_wang(q, self.params, direction)
            else:
                if direction is not None and np.abs(q).max() < 1e-10:
                    self.gl.run(q, q_direction=np.array(direction, dtype=float))
                else:
                    self.gl.run(q)
                d = np.array(self.gl.dynamical_matrix)
                d = (d + d.conj().T) / 2
            self.cache[k] = d * self.scale
        return self.cache[k]


def check_modes(d, f, e, factor, what):
    """Return text of what is wrong, or None."""
    nb = len(d)
    w = (f / factor) ** 2 * np.sign(f)
    s = max(abs(np.linalg.eigvalsh(d)).max(), 1e-8)
    if not (np.isfinite(f).all() and np.isfinite(e).all()):
        return "not finite"
    if abs(e.conj().T @ e - np.eye(nb)).max() > 1e-8:
        return "eigenvectors are not orthonormal (%.2e)" % abs(e.conj().T @ e - np.eye(nb)).max()
    x = abs(d @ e - e * w).max() / s
    if x > TOL:
        return "D(q)e - w^2 e = %.2e (relative)" % x
    if abs(np.sort(w) - np.linalg.eigvalsh(d)).max() / s > TOL:
        return "eigenvalues differ"
    return None


def check_state(it, m, gamma_dirs, obs, what, points=None):
    """Every point marked done holds modes of D(q); Gamma of one of gamma_dirs."""
    from phonopy.units import VaspToTHz

    f, e, done = it.get_phonons()
    bz = it.bz_grid
    for g in np.where(done)[0] if points is None else points:
        q = bz.QDinv @ bz.addresses[g]
        dirs = gamma_dirs if (bz.addresses[g] == 0).all() else [None]
        msg = None
        for d in dirs:
            msg = check_modes(m.dm(q, d), f[g], e[g], VaspToTHz, what)
            if msg is None:
                break
        if msg:
            raise Bad("%s: grid point %d %s (Gamma directions accepted: %s): %s"
                      % (what, g, bz.addresses[g], dirs if (bz.addresses[g] == 0).all() else "-",
                         msg))
        obs.step()


def setup(case):
    ph3 = xtal.phono3py(case["xtal"], case["smat"], compact=case.get("compact", False),
                        nac=case.get("nac"),
                        is_mesh_symmetry=case.get("ms", True), use_grg=case.get("grg", False))
    ph3.mesh_numbers = case["mesh"]
    m = Model(ph3, case["xtal"], case["smat"], case.get("nac"), case.get("scale"))
    return ph3, m


def star_check(it, obs, what):
    """Frequencies are the same over the star of the point."""
    from phono3py.phonon.grid import get_ir_grid_points

    f = it.get_phonons()[0]
    bz = it.bz_grid
    _, _, mp = get_ir_grid_points(bz)
    fg = f[bz.grg2bzg]
    if abs(fg - fg[mp]).max() > 1e-6 * max(1.0, abs(f).max()):
        i = int(np.argmax(abs(fg - fg[mp]).max(axis=1)))
        raise Bad("%s: frequencies at %d and its representative %d differ: %s %s"
                  % (what, i, mp[i], fg[i], fg[mp[i]]))


def run_grid(case, obs):
    ph3, m = setup(case)
    ph3.init_phph_interaction(nac_q_direction=case.get("dir"),
                              frequency_scale_factor=case.get("scale"),
                              lapack_zheev_uplo=case.get("uplo", "L"))
    it = ph3.phph_interaction
    d = case.get("dir")
    d = None if d is None else np.array(d, dtype=float)
    it.run_phonon_solver(solve_by_rotation=case.get("rot", False))
    if (it.get_phonons()[2] != 1).any():
        raise Bad("not all the points are solved")
    # With NAC, Gamma is either of the direction or without it
    check_state(it, m, [d], obs, "all")
    if d is None and case["smat"] != [3, 2, 1]:
        star_check(it, obs, "all")
    data = ph3.get_phonon_data()
    for a, b, n in zip(data, (it.get_phonons()[0], it.get_phonons()[1], it.bz_grid.addresses),
                       ("frequencies", "eigenvectors", "addresses")):
        if not np.array_equal(a, b):
            raise Bad("get_phonon_data: %s differ" % n)
    obs.state((case["xtal"], tuple(np.ravel(case["mesh"])), case.get("rot"), case.get("nac")))
    obs.outcome(vc.rd(it.get_phonons()[0], 6))


def do(op, it, m, st, obs, what):
    """Execute one operation and update the model state ``st``."""
    from phonopy.units import VaspToTHz

    bz = it.bz_grid
    kind = op[0]
    gam = bz.gp_Gamma
    done0 = it.get_phonons()[2].copy()
    keep = it.get_phonons()[0].copy(), it.get_phonons()[1].copy()
    if kind == "req":
        it.run_phonon_solver(np.array(op[1], dtype="int64"))
        want = set(np.where(done0)[0]) | set(op[1])
        if set(np.where(it.get_phonons()[2])[0]) != want:
            raise Bad("%s: solved points %s, expected %s" % (
                what, np.where(it.get_phonons()[2])[0], sorted(want)))
    elif kind == "all":
        it.run_phonon_solver()
        if (it.get_phonons()[2] != 1).any():
            raise Bad("%s: not all the points are solved" % what)
    elif kind == "rot":
        it.run_phonon_solver(solve_by_rotation=True)
        if (it.get_phonons()[2] != 1).any():
            raise Bad("%s: not all the points are solved" % what)
    elif kind == "dir":
        it.nac_q_direction = op[1]
        st["dir"] = None if op[1] is None else np.array(op[1], dtype=float)
    elif kind == "gp":
        try:
            it.set_grid_point(op[1])
            st["gp"] = op[1]
        except RuntimeError:
            # documented refusal: direction given, Gamma solved with it
            if st["dir"] is None or op[1] == gam:
                raise
            obs.note("refused")
            st["gp"] = None
            return
    elif kind == "gam":
        it.run_phonon_solver_at_gamma(is_nac=op[1])
        msg = check_modes(m.dm(np.zeros(3), st["dir"] if op[1] else None), it.get_phonons()[0][gam],
                          it.get_phonons()[1][gam], VaspToTHz, what)
        if msg:
            raise Bad("%s: Gamma %s direction: %s" % (what, "of the" if op[1] else "without", msg))
        others = np.arange(len(done0)) != gam
        solved = others & (done0 != 0)
        if not (np.array_equal(it.get_phonons()[0][solved], keep[0][solved])
                and np.array_equal(it.get_phonons()[2][others], done0[others])):
            raise Bad("%s: other points than Gamma are changed" % what)
        st["gp"] = None
    else:
        raise AssertionError(kind)
    f, e, done = it.get_phonons()
    if kind in ("req", "all"):
        # solved points stay as they are
        for g in np.where(done0)[0]:
            if not (np.array_equal(f[g], keep[0][g]) and np.array_equal(e[g], keep[1][g])):
                raise Bad("%s: solved point %d was changed by the request" % (what, g))


def gamma_dirs(st, gam):
    """Directions accepted at Gamma in the present state."""
    d = st["dir"]
    if d is None:
        return [None]
    if st.get("gp") == gam:
        return [d]
    return [d, None]


def run_history(case, obs):
    ph3, m = setup(case)
    ops = case["ops"]
    for jd in ((False, True) if case.get("jd") else (False,)):
        if jd:
            it = make_jd(ph3, case)
        else:
            ph3.init_phph_interaction()
            it = ph3.phph_interaction
        gam = it.bz_grid.gp_Gamma
        st = {"dir": None, "gp": None}
        for n, op in enumerate(ops):
            if jd and op[0] == "rot":
                op = ["all"]
            what = "%s%s" % ("JointDos " if jd else "", ops[: n + 1])
            do(op, it, m, st, obs, what)
            check_state(it, m, gamma_dirs(st, gam), obs, what)
            obs.state((case["xtal"], case.get("nac"), jd, it.get_phonons()[2].tobytes(),
                       str(st["dir"]), st["gp"]))
        it.run_phonon_solver()
        check_state(it, m, gamma_dirs(st, gam), obs, "%s%s then all" % (
            "JointDos " if jd else "", ops))
        obs.outcome((jd, vc.rd(it.get_phonons()[0], 6)))
        obs.trace()


def make_jd(ph3, case):
    from phono3py.phonon3.joint_dos import JointDos

    return JointDos(ph3.phonon_primitive, ph3.phonon_supercell, ph3.grid, ph3.fc2,
                    nac_params=ph3.nac_params)


def run_data(case, obs):
    """set_phonon_data: accepted data are used, inconsistent data refused."""
    ph3, m = setup(case)
    ph3.init_phph_interaction()
    ph3.run_phonon_solver()
    f, e, a = [x.copy() for x in ph3.get_phonon_data()]
    ph3.init_phph_interaction()
    it = ph3.phph_interaction
    ph3.set_phonon_data(f, e, a)
    check_state(it, m, [None], obs, "data")
    if not (np.array_equal(it.get_phonons()[0], f) and np.array_equal(it.get_phonons()[1], e)):
        raise Bad("phonon data are not stored as given")
    for i, j in itertools.product(range(len(a)), range(3)):
        for s in (1, -1):
            b = a.copy()
            b[i, j] += s
            try:
                ph3.set_phonon_data(f, e, b)
            except RuntimeError:
                obs.step()
                continue
            raise Bad("addresses which differ in element (%d,%d) are accepted" % (i, j))
    try:
        ph3.set_phonon_data(f[:-1], e[:-1], a[:-1])
    except RuntimeError:
        obs.step()
    else:
        raise Bad("addresses of different number are accepted")
    # Gamma restored after a visit with direction
    it = ph3.phph_interaction
    ph3.set_phonon_data(f, e, a)
    gam = it.bz_grid.gp_Gamma
    it.nac_q_direction = [0, 0, 1]
    it.set_grid_point(gam)
    check_state(it, m, [np.array([0, 0, 1.0])], obs, "data, Gamma with direction")
    it.nac_q_direction = None
    it.set_grid_point(1)
    it.run_phonon_solver()
    check_state(it, m, [None], obs, "data, back without direction")
    obs.outcome(vc.rd(f, 6))
    obs.state(tuple(case["mesh"]))


def spaces(tier):
    th = tier == "thorough"
    names = list(xtal.CELLS) + list(xtal.CONV)
    nacs = list(xtal.NAC)

    def smat(x):
        return [1, 1, 1] if x in xtal.CONV else [2, 2, 2] if x not in ("wz", "te") else [2, 2, 1]

    def grids():
        for x in names:
            sm = smat(x)
            ms = [[3, 3, 3], [4, 4, 4], [4, 4, 2]] if x in ("hex1", "tet1", "hcp", "wz", "te", "p4") \
                else [[3, 3, 3], [4, 4, 4]]
            if th:
                ms = ms + [[5, 5, 5], [2, 2, 2], [6, 6, 6]]
            for me in ms:
                for comp in (False, True):
                    for rot in (False, True):
                        yield dict(xtal=x, smat=sm, mesh=me, compact=comp, rot=rot,
                                   uplo="U" if comp else "L")
                yield dict(xtal=x, smat=[1, 1, 1], mesh=me, uplo="U")
            for le in (8, 12) + ((16, 20) if th else ()):
                for rot in (False, True):
                    yield dict(xtal=x, smat=sm, mesh=float(le), grg=True, rot=rot)
            yield dict(xtal=x, smat=[3, 2, 1] if x not in ("wz", "te") and x not in xtal.CONV else sm,
                       mesh=[3, 3, 3], compact=True)
            yield dict(xtal=x, smat=sm, mesh=[3, 3, 3], scale=0.93)
        for x in nacs:
            sm = smat(x)
            for nac in ("gonze", "wang"):
                for comp in (False, True):
                    for me in ([3, 3, 3], [4, 4, 4]) + (([5, 5, 5],) if th else ()):
                        for rot in (False, True):
                            yield dict(xtal=x, smat=sm, mesh=me, compact=comp, rot=rot, nac=nac)
                        for d in ([1, 0, 0], [0, 1, 1], [-1, 2, 1]):
                            yield dict(xtal=x, smat=sm, mesh=me, compact=comp, nac=nac, dir=d)
                for le in (8, 12):
                    yield dict(xtal=x, smat=sm, mesh=float(le), grg=True, nac=nac, rot=le == 8)

    def histories():
        # alphabet of operations on a small grid
        sys_ = [("nacl", "wang", [2, 2, 2]), ("tric2", "gonze", [2, 2, 1]), ("zb", "gonze", [2, 2, 2]),
                ("dia", None, [2, 2, 2])]
        if th:
            sys_ += [("wz", "wang", [2, 2, 1]), ("cscl", "gonze", [2, 2, 2]), ("hex1", None, [2, 2, 1])]
        for x, nac, me in sys_:
            al = [["req", [0]], ["req", [1]], ["req", [3, 1, 3]], ["all"], ["rot"],
                  ["gp", 0], ["gp", 1]]
            if nac:
                al += [["dir", [1, 0, 0]], ["dir", [0, 1, 2]], ["dir", None], ["gam", False],
                       ["gam", True]]
            depth = (4 if nac else 4) if th else 3
            for n in range(1, depth + 1):
                for ops in itertools.product(al, repeat=n):
                    if not valid(ops):
                        continue
                    yield dict(xtal=x, smat=[1, 1, 1] if x != "dia" else [2, 2, 2], nac=nac,
                               mesh=me, ops=list(ops), jd=True)

    def valid(ops):
        # prefixes are themselves enumerated; drop immediate repeats of idempotent ones
        if any(a == b and a[0] in ("dir", "all") for a, b in zip(ops, ops[1:])):
            return False
        return ops[-1][0] != "dir"

    def orders():
        # every order of the requests of all points, one by one, and every split in two
        for x, nac, me in (("tric2", "wang", [2, 2, 1]), ("te", None, [1, 1, 3]),
                           ("hcp", None, [1, 1, 3]), ("wz", "gonze", [1, 1, 3])):
            import math

            n = 4 if me == [2, 2, 1] else 3
            for p in itertools.permutations(range(n)):
                yield dict(xtal=x, smat=[1, 1, 1], nac=nac, mesh=me, ops=[["req", [i]] for i in p],
                           ms=bool(p[0] % 2))
                for k in range(1, n):
                    yield dict(xtal=x, smat=[1, 1, 1], nac=nac, mesh=me,
                               ops=[["req", list(p[:k])], ["req", list(p[k - 1:])]], ms=True)
            del math

    def data():
        for x, nac, me in (("nacl", "wang", [2, 2, 2]), ("tric2", "gonze", [2, 2, 1]),
                           ("zb", "gonze", [3, 3, 3]), ("dia", None, [2, 2, 2])):
            yield dict(xtal=x, smat=[1, 1, 1], nac=nac, mesh=me)

    return [
        Space("grids", grids(), run_grid, "all crystals, meshes, full/compact, by rotation, NAC "
              "methods and directions, L/U", chunk=4),
        Space("histories", histories(), run_history, "all sequences of requests up to depth %d"
              % (4 if th else 3), chunk=8),
        Space("orders", orders(), run_history, "all orders and splits of requests", chunk=8),
        Space("data", data(), run_data, "phonon data given from outside, every single changed "
              "address", chunk=1),
    ]


if __name__ == "__main__":
    vc.main(globals())
