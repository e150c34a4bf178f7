"""C16: symmetrisation of force constants."""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C16"
TECHNIQUE = ("explicit-state model checking: the (linear) symmetrisation operators of the real code "
             "are applied to every basis element of the space of force constants of small "
             "supercells and in all sequences up to a depth, compared with projectors written out")
LEVEL = "model_checking"
LEVEL_NOTE = ("Every unit element of fc3 and fc2 (full and compact) of supercells up to 8 atoms, all "
              "sequences of symmetrisation, permutation, translation and cutoff up to depth 3 on "
              "generic force constants of all crystals, and the paths through the calculator, "
              "the files and the printed drift.")
ASSUMPTIONS = ["fc2 symmetrisation inside phonopy follows its documentation"]
TOL = 1e-12


class Lat:
    """Lattice translations of a supercell, own."""

    def __init__(self, ph3):
        sc = ph3.supercell
        self.prim = ph3.primitive
        self.pos = sc.scaled_positions
        self.n = len(sc)
        lat = sc.cell
        p2s = np.array(self.prim.p2s_map)
        pl = np.linalg.inv(self.prim.cell)
        self.p2s = p2s
        self.s2pi = np.zeros(self.n, dtype=int)
        self.perm = np.zeros((self.n, self.n), dtype=int)
        for s in range(self.n):
            for x, p in enumerate(p2s):
                t = self.pos[s] - self.pos[p]
                f = t @ lat @ pl
                if np.abs(f - np.rint(f)).max() < 1e-5 and sc.numbers[s] == sc.numbers[p]:
                    self.s2pi[s] = x
                    for a in range(self.n):
                        d = self.pos - (self.pos[a] + t)
                        d -= np.rint(d)
                        self.perm[s, a] = int(np.argmin(np.abs(d).sum(axis=1)))
                    break
            else:
                raise Bad("atom %d without translation" % s)

    def expand(self, c):
        """Full force constants of compact ones."""
        out = np.empty((self.n,) + c.shape[1:])
        for s in range(self.n):
            x = self.perm[s]
            if c.ndim == 6:
                out[s][np.ix_(x, x)] = c[self.s2pi[s]]
            else:
                out[s][x] = c[self.s2pi[s]]
        return out

    def pairs(self):
        """(compact index, atom) exchanged with itself by a translation of order two."""
        return np.array([[j != i and self.s2pi[j] == x and self.perm[j, j] == i for j in range(self.n)]
                         for x, i in enumerate(self.p2s)])

    def transposed(self, c):
        """Exchange of the first two indices of compact fc3 without the pairs above (what the known
        finding does)."""
        t = self.compact(self.expand(c).transpose(1, 0, 2, 4, 3, 5))
        m = self.pairs()
        t[m] = c[m]
        return t

    def trans_known(self, c):
        """Translational invariance as made by the known finding."""
        c = self.transposed(c)
        c = self.transposed(c - c.mean(axis=1, keepdims=True))
        for i in (1, 2):
            c = c - c.mean(axis=i, keepdims=True)
        return c

    def compact(self, f):
        return np.array(f[self.p2s], dtype="double", order="C")


def perm3(f):
    return sum(f.transpose(*p, *(3 + np.array(p))) for p in itertools.permutations(range(3))) / 6


def trans3(f):
    for i in range(3):
        f = f - f.mean(axis=i, keepdims=True)
    return f


def perm2(f):
    return (f + f.transpose(1, 0, 3, 2)) / 2


def trans2(f):
    for i in range(2):
        f = f - f.mean(axis=i, keepdims=True)
    return f


def sym2(lat, f):
    """phonopy's symmetrisation of fc2 (for compact ones it is phonopy's routine that decides what
    order-2 translations give)."""
    from phonopy.harmonic.force_constants import (symmetrize_compact_force_constants,
                                                  symmetrize_force_constants)

    x = np.array(f, dtype="double", order="C")
    if x.shape[0] == x.shape[1]:
        symmetrize_force_constants(x)
        vc.close(perm2(x), x, TOL, "permutation symmetry of fc2", scale=np.abs(f).max())
        vc.close(x.sum(axis=0), 0 * x[0], 1e-10, "sums of fc2", scale=np.abs(f).max())
        return x
    symmetrize_compact_force_constants(x, lat.prim)
    return lat.expand(x)


def cut3(lat, f, d):
    """Distances of atoms: the least over images."""
    c = lat.prim.cell
    sc = lat.sccell
    im = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
    dist = np.array([[np.linalg.norm((lat.pos[j] - lat.pos[i] + im) @ sc, axis=1).min()
                      for j in range(lat.n)] for i in range(lat.n)])
    near = dist <= d + 1e-9
    if (abs(dist - d) < 1e-4).any():
        raise Bad("distance of the case is ambiguous")
    keep = near[:, :, None] & near[None] & near[:, None, :]
    return f * keep[..., None, None, None], c


def make(case, compact=False):
    from phono3py import Phono3py

    name = case["xtal"]
    sm = np.array(case["smat"])
    ph3 = Phono3py(xtal.unitcell(name), supercell_matrix=np.diag(sm) if sm.ndim == 1 else sm,
                   primitive_matrix=xtal.CONV[name][3] if name in xtal.CONV else np.eye(3), log_level=0)
    lat = Lat(ph3)
    lat.sccell = ph3.supercell.cell
    return ph3, lat


def generic(shape, s=0):
    x = np.arange(np.prod(shape)).reshape(shape)
    return np.sin(0.37 * x + 0.011 * (x % 89) * (x % 7) + s) + 0.2


KEY = "compact-order2"


def judge(obs, got, want, other, what, tol=TOL, scale=None):
    """got is want; the known finding is told by being exactly what it is known to give."""
    try:
        vc.close(got, want, tol, what, scale=scale)
    except Bad as e:
        if other is not None:
            try:
                vc.close(got, other, tol, what, scale=scale)
            except Bad:
                raise e
            if not any(f["key"] == KEY for f in obs.findings):
                obs.bad(str(e), key=KEY)
            return
        raise


def both(fn, full, comp, lat, what, model, obs, known=None):
    """Run fn on full and compact arrays in place, compare with the model."""
    want = model(full)
    for c, a in ((False, full.copy()), (True, comp.copy())):
        x = np.array(a, dtype="double", order="C")
        fn(x, c)
        sc = np.abs(full).max() + 1e-300
        judge(obs, x, lat.compact(want) if c else want, known(comp) if c and known else None,
              "%s (%s)" % (what, "compact" if c else "full"), scale=sc)
        obs.step()
    return want


def run_basis(case, obs):
    """All unit elements of compact fc3."""
    from phono3py.phonon3.fc3 import (set_permutation_symmetry_compact_fc3,
                                      set_permutation_symmetry_fc3,
                                      set_translational_invariance_compact_fc3,
                                      set_translational_invariance_fc3)

    ph3, lat = make(case)
    shape = (len(lat.p2s), lat.n, lat.n, 3, 3, 3)
    prim = ph3.primitive
    size = int(np.prod(shape))
    lo, hi = case["part"]
    picks = range(size * lo // hi, size * (lo + 1) // hi, case.get("stride", 1))
    for i in picks:
        c = np.zeros(size)
        c[i] = 1.0
        c = c.reshape(shape)
        f = lat.expand(c)

        def p(x, comp):
            (set_permutation_symmetry_compact_fc3(x, prim) if comp else
             set_permutation_symmetry_fc3(x))

        def t(x, comp):
            (set_translational_invariance_compact_fc3(x, prim) if comp else
             set_translational_invariance_fc3(x))

        both(p, f, c, lat, "permutation of unit element %d" % i, perm3, obs)
        if case["trans"]:
            both(t, f, c, lat, "translation of unit element %d" % i, trans3, obs,
                 known=lat.trans_known)
        obs.state(i)
    obs.outcome(size)


def run_ops(case, obs):
    """All sequences of operations on generic force constants."""
    from phono3py.phonon3.fc3 import (cutoff_fc3_by_zero, set_permutation_symmetry_compact_fc3,
                                      set_permutation_symmetry_fc3,
                                      set_translational_invariance_compact_fc3,
                                      set_translational_invariance_fc3)

    ph3, lat = make(case)
    prim = ph3.primitive
    shape = (len(lat.p2s), lat.n, lat.n, 3, 3, 3)
    d = case["cut"]
    ops = {
        "P": (lambda x, c: set_permutation_symmetry_compact_fc3(x, prim) if c
              else set_permutation_symmetry_fc3(x), perm3),
        "T": (lambda x, c: set_translational_invariance_compact_fc3(x, prim) if c
              else set_translational_invariance_fc3(x), trans3),
        "C": (lambda x, c: cutoff_fc3_by_zero(x, ph3.supercell, d, p2s_map=prim.p2s_map),
              lambda f: cut3(lat, f, d)[0]),
    }
    c0 = generic(shape)
    memo = {"": (c0, lat.expand(c0), lat.expand(c0), c0)}
    for depth in range(1, case["depth"] + 1):
        for seq in map("".join, itertools.product("PTC" if d else "PT", repeat=depth)):
            c, f, want, kn = memo[seq[:-1]]
            c, f = c.copy(), f.copy()
            fn, mo = ops[seq[-1]]
            fn(c, True)
            fn(f, False)
            want = mo(want)
            kn = lat.trans_known(kn) if seq[-1] == "T" else lat.compact(mo(lat.expand(kn)))
            memo[seq] = c, f, want, kn
            vc.close(f, want, TOL, "sequence %s (full)" % seq, scale=np.abs(c0).max())
            judge(obs, c, lat.compact(want), kn, "sequence %s (compact)" % seq, scale=np.abs(c0).max())
            obs.step()
            obs.state(seq)
    s = memo["TP"][1]
    vc.close(perm3(s), s, TOL, "permutation symmetry", scale=np.abs(c0).max())
    vc.close(s.sum(axis=0), 0 * s[0], 1e-9, "acoustic sum rule", scale=np.abs(c0).max())
    obs.outcome(vc.rd(s))


def throw(msg):
    raise Bad(msg)


def drift_of(text):
    m = re.findall(r"(-?[\d.]+) \(([xyz]{2,3})\)", text)
    return [(float(a), b) for a, b in m]


def run_api(case, obs):
    """Paths through the calculator."""
    from phono3py.phonon3.fc3 import show_drift_fc3

    ph3, lat = make(case)
    np_, n = len(lat.p2s), lat.n
    c3, c2 = generic((np_, n, n, 3, 3, 3)), generic((np_, n, 3, 3), 1.0)
    f3, f2 = lat.expand(c3), lat.expand(c2)
    for seq in (x for k in (1, 2, 3) for x in itertools.product("PT", repeat=k)):
        w3, w2, k3 = f3, f2, c3
        for o in seq:
            w3, w2 = (perm3(w3), perm2(w2)) if o == "P" else (trans3(w3), trans2(w2))
            k3 = lat.compact(perm3(lat.expand(k3))) if o == "P" else lat.trans_known(k3)
        for which, comp in itertools.product(("32", "3", "2"), (True, False)):
            p, _ = make(case)
            a3 = (c3 if comp else f3).copy()
            a2 = (c2 if comp else f2).copy()
            if "3" in which:
                p.fc3 = a3
            if "2" in which:
                p.fc2 = a2
            for o in seq:
                p.set_permutation_symmetry() if o == "P" else p.set_translational_invariance()
            what = "Phono3py %s fc%s %s" % ("".join(seq), which, "compact" if comp else "full")
            for x, w, k in ((p.fc3, w3, "3"), (p.fc2, w2, "2")):
                if k not in which:
                    if x is not None:
                        raise Bad(what + ": force constants out of nothing")
                    continue
                judge(obs, x, lat.compact(w) if comp else w, k3 if comp and k == "3" else None, what,
                      scale=1.0)
            obs.step()
        obs.state(seq)
    # drift
    for x in ((f3, "full"), (c3, "compact")):
        a = x[0].copy()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            show_drift_fc3(a, primitive=ph3.primitive)
        if not np.array_equal(a, x[0]):
            raise Bad("show_drift_fc3 changed the force constants")
        got = drift_of(out.getvalue())
        if len(got) != 3:
            raise Bad("drift %s" % out.getvalue())
        for i in range(3):
            want = np.abs(f3.sum(axis=i)).max()
            if abs(abs(got[i][0]) - want) > 2e-6:
                kn = np.abs(lat.transposed(c3).sum(axis=1)).max()
                raise_ = (lambda m: obs.bad(m, key=KEY)) if (
                    x[1] == "compact" and i == 0 and abs(abs(got[i][0]) - kn) < 2e-6) else throw
                raise_("drift %s of index %d of %s fc3: %s, exact %s" % (
                    out.getvalue().strip(), i, x[1], got[i][0], want))
        obs.step()
    # cutoff, compact and full
    if case.get("cut"):
        want = cut3(lat, f3, case["cut"])[0]
        for comp in (True, False):
            p, _ = make(case)
            p.fc3 = (c3 if comp else f3).copy()
            p.cutoff_fc3_by_zero(case["cut"])
            vc.close(lat.expand(p.fc3) if comp else p.fc3, want, 1e-14, "cutoff by zero")
            p.cutoff_fc3_by_zero(case["cut"])
            vc.close(lat.expand(p.fc3) if comp else p.fc3, want, 1e-14, "cutoff by zero twice")
    obs.outcome(vc.rd(w3))


def run_files(case, obs):
    """Symmetrisation of force constants read from files by the command."""
    from phono3py.cui.create_force_constants import create_phono3py_force_constants
    from phono3py.cui.settings import Phono3pySettings
    from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

    ph3, lat = make(case)
    np_, n = len(lat.p2s), lat.n
    c3, c2 = generic((np_, n, n, 3, 3, 3)), generic((np_, n, 3, 3), 1.0)
    f3, f2 = lat.expand(c3), lat.expand(c2)
    w3 = perm3(trans3(f3))
    k3 = lat.compact(perm3(lat.expand(lat.trans_known(c3))))
    d = tempfile.mkdtemp(prefix="c16-")
    old = os.getcwd()
    try:
        os.chdir(d)
        for comp, s3, s2 in itertools.product((True, False), (True, False), (True, False)):
            write_fc3_to_hdf5(c3 if comp else f3, p2s_map=ph3.primitive.p2s_map)
            write_fc2_to_hdf5(c2 if comp else f2, p2s_map=ph3.primitive.p2s_map)
            st = Phono3pySettings()
            st.set_read_fc3(True)
            st.set_read_fc2(True)
            st.set_is_symmetrize_fc3_r(s3)
            st.set_is_symmetrize_fc2(s2)
            p, _ = make(case)
            with contextlib.redirect_stdout(io.StringIO()):
                create_phono3py_force_constants(p, st, log_level=0)
            what = "files symmetrised %s %s %s" % (s3, s2, "compact" if comp else "full")
            y = w3 if s3 else f3
            judge(obs, p.fc3, lat.compact(y) if comp else y, k3 if s3 and comp else None, what + " fc3",
                  scale=np.abs(f3).max() + 1e-2)
            y = lat.expand(p.fc2) if comp else p.fc2
            if s2:
                vc.close(y, sym2(lat, c2 if comp else f2), TOL, what + " fc2", scale=np.abs(f2).max())
            else:
                vc.close(y, f2, TOL, what + " fc2", scale=np.abs(f2).max())
            obs.step()
            obs.state((comp, s3, s2))
        obs.outcome(vc.rd(y))
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run_produce(case, obs):
    """Force constants produced from displacements with drifts and noise."""
    ph3, lat = make(case)
    ph3.generate_displacements(distance=0.03)
    sc = ph3.supercells_with_displacements
    fc2, fc3 = xtal.pair_fc(ph3.supercell, xtal.RCUT[case["xtal"]])
    base = ph3.supercell.positions
    disps = np.array([x.positions - base for x in sc])
    forces = xtal.forces_of(fc2, fc3, disps)
    forces = forces + 1e-3 * generic(forces.shape)
    res = {}
    import copy

    ph3.forces = forces
    ds = copy.deepcopy(ph3.dataset)
    for comp, s3, s2, order in itertools.product((False, True), (False, True), (False, True), "32 23".split()):
        p, _ = make(case)
        p.dataset = copy.deepcopy(ds)
        for o in order:
            if o == "3":
                p.produce_fc3(symmetrize_fc3r=s3, is_compact_fc=comp)
            else:
                p.produce_fc2(symmetrize_fc2=s2, is_compact_fc=comp)
        f3 = lat.expand(p.fc3) if comp else p.fc3
        f2 = lat.expand(p.fc2) if comp else p.fc2
        what = "produced %s %s %s %s" % ("compact" if comp else "full", s3, s2, order)
        for (a, b) in zip(ds["first_atoms"], p.dataset["first_atoms"]):
            for x, y in zip([a] + a["second_atoms"], [b] + b["second_atoms"]):
                if not (np.array_equal(x["forces"], y["forces"])
                        and np.array_equal(x["displacement"], y["displacement"])):
                    raise Bad(what + ": dataset changed")
        if s3 and comp and ("3", False) in res:
            k3 = lat.expand(lat.trans_known(lat.compact(res["3", False])))
            judge(obs, f3, perm3(trans3(res["3", False])), perm3(k3), what + ": symmetrised fc3",
                  tol=1e-10, scale=np.abs(f3).max() + 1e-2)
        elif s3:
            vc.close(perm3(f3), f3, TOL, what + ": permutations", scale=np.abs(f3).max() + 1e-2)
            for i in range(3):
                vc.close(f3.sum(axis=i), 0 * f3[0], 1e-10, what + ": sums", scale=np.abs(f3).max() + 1e-2)
        if s2:
            vc.close(f2, sym2(lat, lat.compact(res["2", False]) if comp else res["2", False]), TOL,
                     what + ": fc2", scale=np.abs(f2).max())
        for k, v in ((("3", s3), f3), (("2", s2), f2)):
            if k == ("2", True) or (k == ("3", True) and comp):
                continue
            if k in res:
                vc.close(v, res[k], 1e-9, what + ": other form or order", scale=np.abs(v).max() + 1e-2)
            else:
                res[k] = v
        obs.step()
        obs.state((comp, s3, s2, order))
    vc.close(perm3(trans3(res["3", False])), res["3", True], 1e-10, "symmetrised and plain fc3",
             scale=np.abs(fc3).max() + 1e-2)
    obs.outcome(vc.rd(res["3", True]))


def spaces(tier):
    q = tier == "quick"
    cells = [("sc1", (2, 1, 1)), ("sc1", (3, 1, 1)), ("hex1", (2, 1, 1)), ("nacl", (1, 1, 1)),
             ("cscl", (1, 1, 2)), ("tric1", ((1, 1, 0), (-1, 1, 0), (0, 0, 1)))]
    out = []
    for x, s in cells:
        out.append(dict(xtal=x, smat=s, part=(0, 1), trans=True))
    big = [("sc1", (2, 2, 1)), ("sc1", (4, 1, 1)), ("zb", (2, 1, 1)), ("sc1", (3, 2, 1)),
           ("bccc", (2, 1, 1)), ("p4", (1, 1, 1)), ("p4", (2, 1, 1)), ("sc1", (2, 2, 2))]
    for x, s in big[:3] if q else big:
        for k in range(8):
            out.append(dict(xtal=x, smat=s, part=(k, 8), trans=(not q and s != (2, 2, 2))))
    yield Space("basis", out, run_basis, "unit elements of fc3")
    names = ["sc1", "hex1", "nacl", "tric1", "hcp", "zb", "p4"] if q else list(xtal.CELLS)
    out = []
    for x in names:
        na = len(xtal.CELLS[x][1])
        for s in ((2, 1, 1), (3, 1, 1), (2, 2, 1)) if na < 3 else ((2, 1, 1),):
            out.append(dict(xtal=x, smat=s, cut=None if q and s == (2, 2, 1) else 3.85 if na > 1 else 4.05, depth=3))
    for x, s in (("naclc", (1, 1, 1)), ("bccc", (2, 1, 1)), ("bccc", (2, 2, 1)), ("diac", (1, 1, 1))):
        out.append(dict(xtal=x, smat=s, cut=None, depth=2))
    out.append(dict(xtal="tric1", smat=((1, 1, 0), (-1, 1, 0), (0, 0, 1)), cut=None, depth=3))
    out.append(dict(xtal="sc1", smat=((1, 1, 0), (-1, 1, 0), (0, 0, 2)), cut=None, depth=3))
    yield Space("ops", out, run_ops, "sequences of operations")
    api = [(x, s) for x, s in (("sc1", (2, 1, 1)), ("nacl", (1, 1, 1)), ("hex1", (2, 2, 1)),
                               ("bccc", (1, 1, 1)), ("naclc", (1, 1, 1)), ("zb", (1, 1, 2)),
                               ("p4", (1, 1, 1)))]
    yield Space("calculator", [dict(xtal=x, smat=s) for x, s in api], run_api, "sequences of calls")
    yield Space("files", [dict(xtal=x, smat=s) for x, s in api], run_files, "forms x options")
    pr = [("sc1", (2, 2, 2)), ("nacl", (1, 1, 1)), ("hex1", (2, 2, 1)), ("bccc", (1, 1, 1)),
          ("zb", (1, 1, 1)), ("tric1", (2, 1, 1)), ("naclc", (1, 1, 1))]
    if not q:
        pr += [("nacl", (2, 2, 2)), ("zb", (2, 2, 2)), ("hcp", (2, 2, 1)), ("p4", (1, 1, 1)),
               ("mono1", (2, 2, 1)), ("te", (1, 1, 1)), ("rhom1", (2, 2, 2))]
    yield Space("produced", [dict(xtal=x, smat=s) for x, s in pr], run_produce,
                "forms x options x order")


if __name__ == "__main__":
    vc.main(globals())
