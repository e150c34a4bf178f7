"""C17: force constants from displacements and forces."""
import copy
import functools
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C17"
TECHNIQUE = ("explicit-state model checking: for every small supercell, displacement scheme, cutoff, "
             "solver, form and order of calls, forces of an exact anharmonic model (generic tensors "
             "projected on the space group) are given to the real code, and the force constants it "
             "returns are compared with the model, element by element")
LEVEL = "model_checking"
LEVEL_NOTE = ("All combinations of crystal, supercell, displacement scheme (signs, diagonal, random), "
              "pair cutoff, form and calculator of the bounds; all elements of fc2 and fc3; all "
              "orders of the datasets up to a bound.")
ASSUMPTIONS = ["fc2 and basis sets of the external solvers (phonopy, symfc) follow their documentation"]


def group(cell):
    """Space group of a cell by search: (rotation in Cartesian, permutation)."""
    lat = np.array(cell.cell)
    pos = cell.scaled_positions
    num = cell.numbers
    n = len(num)
    g = lat @ lat.T
    rows = np.array(list(itertools.product(range(-4, 5), repeat=3)))
    ok = [[r for r in rows if abs(r @ g @ r - g[i, i]) < 1e-6 * g[i, i]] for i in range(3)]
    out = []
    for rs in itertools.product(*ok):
        w = np.array(rs)
        if not np.allclose(w @ g @ w.T, g, atol=1e-6):
            continue
        rp = pos @ w  # rows: position of the image of every atom up to translation
        for a in np.where(num == num[0])[0]:
            t = pos[a] - rp[0]
            d = (rp + t)[:, None] - pos[None]
            d -= np.rint(d)
            m = (np.linalg.norm(d @ lat, axis=2) < 1e-4) & (num[:, None] == num[None])
            if (m.sum(axis=1) == 1).all():
                # x = p L -> x' = p w L: x' = x (L^-1 w L)
                out.append(((np.linalg.inv(lat) @ w @ lat).T, np.argmax(m, axis=1)))
    return out


def _rot(f, r):
    k = f.ndim // 2
    for i in range(k):
        f = np.moveaxis(np.tensordot(f, r, axes=([k + i], [1])), -1, k + i)
    return f


def symmetrise(f, ops):
    """Projection of force constants on those invariant under the group."""
    k = f.ndim // 2
    acc = np.zeros_like(f)
    byr = {}
    for r, p in ops:
        byr.setdefault(tuple(np.rint(r * 1e6).astype(int).ravel()), []).append((r, p))
    pure = byr[tuple(np.rint(np.eye(3) * 1e6).astype(int).ravel())]
    for r, p in pure:
        acc[np.ix_(*[p] * k)] += f
    f = acc / len(pure)
    acc = np.zeros_like(f)
    for v in byr.values():
        r, p = v[0]
        acc[np.ix_(*[p] * k)] += _rot(f, r)
    return acc / len(byr)


def perms(f):
    k = f.ndim // 2
    ps = list(itertools.permutations(range(k)))
    return sum(f.transpose(*p, *(k + np.array(p))) for p in ps) / len(ps)


def sums(f):
    for i in range(f.ndim // 2):
        f = f - f.mean(axis=i, keepdims=True)
    return f


def dists(cell):
    lat, pos = np.array(cell.cell), cell.scaled_positions
    im = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3)))
    return np.array([[np.linalg.norm((q - p + im) @ lat, axis=1).min() for q in pos] for p in pos])


def waves(shape, s):
    x = np.arange(np.prod(shape)).reshape(shape)
    return np.sin(0.37 * x + 0.011 * (x % 89) * (x % 7) + s)


def smat(s):
    s = np.array(s)
    return np.diag(s) if s.ndim == 1 else s


def phono(name, s, ps=None, **kw):
    from phono3py import Phono3py

    return Phono3py(xtal.unitcell(name), supercell_matrix=smat(s),
                    primitive_matrix=xtal.CONV[name][3] if name in xtal.CONV else np.eye(3),
                    phonon_supercell_matrix=None if ps is None else smat(ps), log_level=0, **kw)


@functools.lru_cache(maxsize=4)
def _group(name, s, ident):
    cell = phono(name, s).supercell
    ops = group(cell)
    if ident:
        ops = [(r, p) for r, p in ops if np.allclose(r, np.eye(3))]
    return ops


@functools.lru_cache(maxsize=4)
def model(name, s, kind, cut, ident):
    """Generic fc2, fc3: kind 'free' (no sum rule, elements without a pair within the cutoff vanish),
    'full' (with sum rules), 'pair' (pair potential of range below the cutoff)."""
    cell = phono(name, s).supercell
    n = len(cell)
    ops = _group(name, s, ident)
    if kind == "pair":
        return xtal.pair_fc(cell, cut)
    f2 = perms(symmetrise(waves((n, n, 3, 3), 0.3), ops)) * 3
    f3 = perms(symmetrise(waves((n, n, n, 3, 3, 3), 0.1), ops)) * 30
    if kind == "free":
        if cut is not None:
            near = dists(cell) < cut
            keep = near[:, :, None] | near[None] | near[:, None, :]
            f3 = f3 * keep[..., None, None, None]
    else:
        f2, f3 = sums(f2), sums(f3)
    return f2, f3


def displacements(ds, n):
    """Displacements of a type-1 dataset, own reading of the format."""
    out, inc = [], []
    for a in ds["first_atoms"]:
        u = np.zeros((n, 3))
        u[a["number"]] += a["displacement"]
        out.append(u)
        inc.append(True)
    for a in ds["first_atoms"]:
        for b in a["second_atoms"]:
            u = np.zeros((n, 3))
            u[a["number"]] += a["displacement"]
            u[b["number"]] += b["displacement"]
            out.append(u)
            inc.append(b.get("included", True))
    return np.array(out), np.array(inc)


def overwritten(ds, n):
    """Displacements of a type-1 dataset as read by the solvers (known finding)."""
    out = []
    for a in ds["first_atoms"]:
        out.append(np.zeros((n, 3)))
        out[-1][a["number"]] = a["displacement"]
    for a in ds["first_atoms"]:
        for b in a["second_atoms"]:
            out.append(np.zeros((n, 3)))
            out[-1][a["number"]] = a["displacement"]
            out[-1][b["number"]] = b["displacement"]
    return out


def compare(p, f2, f3, compact, what, tol=1e-7, raw=False):
    for name, got, want, prim in (("fc2", p.fc2, f2, p.phonon_primitive), ("fc3", p.fc3, f3, p.primitive)):
        if want is None:
            continue
        w = want[prim.p2s_map] if compact and not raw else want
        if got is None:
            raise Bad("%s: no %s" % (what, name))
        vc.close(got, w, tol, "%s of %s" % (name, what), scale=np.abs(want).max() + 1e-3)


def setup(case):
    s = case["smat"]
    s = tuple(map(tuple, s)) if np.ndim(s) == 2 else tuple(s)
    p = phono(case["xtal"], s, is_symmetry=case.get("sym", True))
    return s, p


def run_fd(case, obs):
    """Finite displacements of one and two atoms."""
    s, p = setup(case)
    name, cut, ident = case["xtal"], case.get("cut"), not case.get("sym", True)
    f2, f3 = model(name, s, "free", cut, ident)
    n = len(p.supercell)
    p.generate_displacements(distance=case.get("dist", 0.03), cutoff_pair_distance=cut,
                             is_plusminus=case["pm"], is_diagonal=case["diag"])
    u, inc = displacements(p.dataset, n)
    cells = p.supercells_with_displacements
    if len(cells) != len(u):
        raise Bad("%d supercells for %d displacements" % (len(cells), len(u)))
    for i, c in enumerate(cells):
        if (c is None) != (not inc[i]):
            raise Bad("supercell %d of an excluded pair" % i)
        if c is not None:
            vc.close(c.positions - p.supercell.positions, u[i], 1e-10, "displacements of supercell %d" % i, scale=1)
    got = p.displacements
    vc.close(got[inc], u[inc], 1e-12, "Phono3py.displacements", scale=1)
    fo = xtal.forces_of(f2, f3, u)
    fo[~inc] = 0
    p.forces = fo
    vc.close(p.forces, fo, 0, "Phono3py.forces", scale=1)
    ds = copy.deepcopy(p.dataset)
    for comp, order, sym in itertools.product((True, False), ("3", "32", "23"), (False,)):
        q = phono(name, s, is_symmetry=case.get("sym", True))
        q.dataset = ds
        for o in order:
            if o == "3":
                q.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=comp)
            else:
                q.produce_fc2(symmetrize_fc2=sym, is_compact_fc=comp)
        compare(q, f2, f3, comp, "%s order %s" % ("compact" if comp else "full", order))
        obs.step()
        obs.state((comp, order))
    # the order of the displacements means nothing
    for k, e in enumerate(orders(ds, case.get("orders", 4))):
        q = phono(name, s, is_symmetry=case.get("sym", True))
        q.dataset = e
        q.produce_fc3(is_compact_fc=bool(k % 2))
        compare(q, f2, f3, bool(k % 2), "reordered dataset %d" % k)
        obs.step()
    obs.outcome(vc.rd(f3[:1]))


def orders(ds, k):
    """Datasets with the same content in other orders."""
    def rev(d):
        d["first_atoms"] = d["first_atoms"][::-1]

    def rev2(d):
        for a in d["first_atoms"]:
            a["second_atoms"] = a["second_atoms"][::-1]

    def inter(d):
        for a in d["first_atoms"]:
            a["second_atoms"] = a["second_atoms"][::2] + a["second_atoms"][1::2]

    def rot(d):
        d["first_atoms"] = d["first_atoms"][1:] + d["first_atoms"][:1]

    fs = [rev, rev2, inter, rot]
    for mask in range(1, 16):
        if mask > k:
            break
        d = copy.deepcopy(ds)
        for i, f in enumerate(fs):
            if mask >> i & 1:
                f(d)
        yield d


def run_symfc(case, obs):
    """The external solver symfc, on finite and random displacements."""
    s, p = setup(case)
    name, cut = case["xtal"], case.get("cut")
    f2, f3 = model(name, s, case["kind"], case.get("range"), False)
    n = len(p.supercell)
    if np.abs(f3).max() < 1e-6:  # symfc refuses an empty basis
        obs.outcome("no fc3")
        return
    if case["type"] == 1:
        p.generate_displacements(distance=case.get("dist", 0.03), is_plusminus=case["pm"], is_diagonal=True,
                                 cutoff_pair_distance=case.get("pair_cut"))
        u, inc = displacements(p.dataset, n)
        fo = xtal.forces_of(f2, f3, u)
        fo[~inc] = 0
    else:
        p.generate_displacements(number_of_snapshots=case["nsnap"], random_seed=7, distance=0.05,
                                 is_plusminus=case["pm"], cutoff_pair_distance=cut)
        u = p.dataset["displacements"]
        for c, x in zip(p.supercells_with_displacements, u):
            vc.close(c.positions - p.supercell.positions, x, 1e-10, "random displacements", scale=1)
        if len(p.supercells_with_displacements) != len(u):
            raise Bad("number of supercells")
        fo = xtal.forces_of(f2, f3, u)
    p.forces = fo
    ds = p.dataset
    for comp in (True, False):
        for calls in case["calls"]:
            q = phono(name, s)
            q.dataset = ds
            for o, calc in calls:
                opt = None if cut is None or calc is None else "cutoff=%s" % cut if comp else {"cutoff": {3: cut}}
                if o == 3:
                    q.produce_fc3(is_compact_fc=comp, fc_calculator=calc, fc_calculator_options=opt)
                else:
                    q.produce_fc2(is_compact_fc=comp, fc_calculator=calc)
            # symfc for fc2 alone is a harmonic fit: exact only from the fc3 fit
            harm = any(o == 2 and c == "symfc" for o, c in calls)
            what = "symfc %s %s" % (calls, comp)
            try:
                compare(q, None if harm else f2, f3, comp, what, tol=case.get("tol", 1e-6))
            except Bad as e:
                # Known finding: with a type-1 dataset, symfc is told that the displacement of an atom
                # displaced twice is the second one.  Anything else is not known.
                if case["type"] == 2:
                    raise
                k = phono(name, s)
                over = np.array(overwritten(ds, n))
                k.dataset = {"displacements": over[inc], "forces": fo[inc]}
                k.produce_fc3(is_compact_fc=comp, fc_calculator="symfc",
                              fc_calculator_options=None if cut is None else "cutoff=%s" % cut)
                try:
                    compare(q, None if (2, None) in calls or harm else k.fc2, k.fc3, comp, what,
                            tol=1e-7, raw=True)
                except Bad:
                    raise e
                if not obs.findings:
                    obs.bad(str(e), key="symfc-same-atom")
            obs.step()
            obs.state((comp, str(calls)))
    obs.outcome(vc.rd(f3[:1], 6))


def run_phonon(case, obs):
    """Different supercells for fc2 and fc3."""
    name, s, ps = case["xtal"], tuple(case["smat"]), tuple(case["psmat"])
    f2, f3 = model(name, s, "free", None, False)
    g2 = model(name, ps, "free", None, False)[0] if case["small"] else xtal.pair_fc(
        phono(name, s, ps).phonon_supercell, 5.0)[0]
    p = phono(name, s, ps)
    p.generate_displacements(is_plusminus=case["pm"])
    if p.phonon_dataset is None:
        raise Bad("no displacements for the phonon supercell")
    u, inc = displacements(p.dataset, len(p.supercell))
    p.forces = xtal.forces_of(f2, f3, u)
    v = np.array([c.positions - p.phonon_supercell.positions for c in p.phonon_supercells_with_displacements])
    w = np.zeros_like(v)
    for x, a in zip(w, p.phonon_dataset["first_atoms"]):
        x[a["number"]] += a["displacement"]
    vc.close(v, w, 1e-10, "displacements of the phonon supercells", scale=1)
    vc.close(p.phonon_displacements, w, 1e-12, "Phono3py.phonon_displacements", scale=1)
    p.phonon_forces = -np.einsum("ijab,njb->nia", g2, w)
    ds, pds = copy.deepcopy(p.dataset), copy.deepcopy(p.phonon_dataset)
    for comp, order in itertools.product((True, False), ("32", "23", "2", "3", "323", "232")):
        q = phono(name, s, ps)
        q.dataset = ds
        q.phonon_dataset = pds
        for o in order:
            q.produce_fc3(is_compact_fc=comp) if o == "3" else q.produce_fc2(is_compact_fc=comp)
        what = "phonon supercell, %s, order %s" % ("compact" if comp else "full", order)
        if "2" not in order and q.fc2 is not None:
            raise Bad(what + ": fc2 of the wrong supercell")
        if "3" not in order and q.fc3 is not None:
            raise Bad(what + ": fc3 out of nothing")
        compare(q, g2 if "2" in order else None, f3 if "3" in order else None, comp, what)
        obs.step()
        obs.state((comp, order))
    obs.outcome(vc.rd(g2))


def spaces(tier):
    q = tier == "quick"
    small = [("sc1", (2, 2, 2)), ("sc1", (3, 1, 1)), ("tet1", (2, 2, 1)), ("hex1", (2, 2, 1)), ("mono1", (2, 1, 2)),
             ("cscl", (1, 1, 2)), ("nacl", (2, 1, 1)), ("zb", (2, 2, 1)), ("dia", (1, 1, 1)), ("hcp", (1, 1, 1)),
             ("hcp", (2, 1, 1)), ("wz", (1, 1, 1)), ("te", (1, 1, 1)), ("p4", (1, 1, 1)), ("p4", (2, 1, 1)),
             ("tric2", (2, 1, 1)), ("tric1", (2, 2, 1)), ("naclc", (1, 1, 1)), ("bccc", (1, 1, 1)),
             ("bccc", (2, 1, 1)), ("diac", (1, 1, 1)), ("fcc1", (2, 2, 2)), ("rhom1", (2, 2, 1)),
             ("sc1", ((1, 1, 0), (-1, 1, 0), (0, 0, 1))), ("tric1", ((1, 1, 0), (-1, 1, 0), (0, 0, 2))),
             ("nacl", (1, 1, 1)), ("bct1", (2, 1, 1)), ("fco1", (2, 1, 1)), ("cco1", (2, 2, 1)), ("ort1", (2, 1, 2))]
    big = [("nacl", (2, 2, 2)), ("zb", (2, 2, 2)), ("te", (2, 1, 1)), ("hcp", (2, 2, 1)), ("naclc", (2, 1, 1)),
           ("sc1", (3, 2, 2)), ("wz", (2, 1, 1)), ("hex1", (3, 3, 1)), ("cscl", (2, 2, 2)), ("diac", (2, 1, 1)),
           ("bccc", (2, 2, 2)), ("p4", (2, 2, 1)), ("tric2", (2, 2, 2))]
    out = []
    for x, s in small if q else small + big:
        n = len(xtal.unitcell(x)) * int(round(abs(np.linalg.det(smat(s)))))
        for pm, diag in itertools.product(("auto", True), (True, False)):
            if q and n > 8 and (pm, diag) != ("auto", True):
                continue
            if n > 14 and pm is True:
                continue
            for cut in (None, "mid"):
                if q and cut and not diag:
                    continue
                c = dict(xtal=x, smat=s, pm=pm, diag=diag, orders=2 if q else 15 if n <= 8 else 4)
                if cut:
                    d = np.unique(np.round(dists(phono(x, s).supercell), 5))
                    for a, b in list(zip(d[:-1], d[1:]))[:1 if q else 3]:
                        out.append(dict(c, cut=float((a + b) / 2)))
                else:
                    out.append(c)
        if n <= 4 or not q and n <= 6:
            for pm in ("auto", True):
                out.append(dict(xtal=x, smat=s, pm=pm, diag=True, sym=False, orders=2))
    yield Space("finite", out, run_fd, "crystals x schemes x cutoffs x forms x orders")
    ph = [("sc1", (2, 1, 1), (2, 2, 2), True), ("nacl", (1, 1, 1), (2, 2, 1), True), ("naclc", (1, 1, 1), (2, 1, 1), True),
          ("wz", (1, 1, 1), (2, 1, 1), True), ("bccc", (2, 1, 1), (1, 1, 1), True), ("p4", (1, 1, 1), (2, 1, 1), True),
          ("tric2", (1, 1, 1), (2, 2, 1), True), ("sc1", (2, 2, 1), (4, 4, 4), False), ("diac", (1, 1, 1), (2, 2, 2), False)]
    yield Space("phonon", [dict(xtal=x, smat=s, psmat=t, small=k, pm=pm) for x, s, t, k in ph
                           for pm in ("auto", True)], run_phonon, "two supercells")
    c3 = ([(3, "symfc")], [(3, "symfc"), (2, None)], [(2, "symfc"), (3, "symfc")])
    r3 = ([(3, "symfc")], [(2, "symfc"), (3, "symfc")])
    out = []
    for x, s in [("sc1", (2, 2, 2)), ("tet1", (2, 2, 1)), ("nacl", (2, 1, 1)), ("wz", (1, 1, 1)), ("te", (1, 1, 1)),
                 ("p4", (1, 1, 1)), ("tric2", (2, 1, 1)), ("bccc", (2, 1, 1)), ("zb", (2, 1, 1)), ("hcp", (2, 1, 1))]:
        n = len(xtal.unitcell(x)) * int(round(abs(np.linalg.det(smat(s)))))
        for pm in ("auto", True):
            if not (q and pm is True and n > 4):
                out.append(dict(xtal=x, smat=s, type=1, kind="full", pm=pm, calls=c3))
            out.append(dict(xtal=x, smat=s, type=2, kind="full", pm=pm is True, calls=r3, nsnap=60 + 30 * n))
        out.append(dict(xtal=x, smat=s, type=2, kind="full", pm=False, calls=r3[:1], nsnap="auto"))
    for x, s, r, c in (("p4", (1, 1, 1), 2.59, 3.0), ("p4", (2, 1, 1), 2.6, 3.0), ("p4", (2, 1, 1), 3.2, 3.5),
                       ("tric2", (2, 1, 1), 3.4, 3.5), ("zb", (2, 2, 1), 3.9, 4.2), ("te", (2, 1, 1), 3.44, 4.0)):
        out.append(dict(xtal=x, smat=s, type=2, kind="pair", range=r, cut=c, pm=False, calls=r3[:1], nsnap=80))
        out.append(dict(xtal=x, smat=s, type=2, kind="pair", range=r, cut=c, pm=False, calls=r3[:1], nsnap="auto"))
        out.append(dict(xtal=x, smat=s, type=1, kind="pair", range=r, cut=c, pm="auto", calls=r3[:1], pair_cut=c))
    yield Space("symfc", out, run_symfc, "solver symfc")


if __name__ == "__main__":
    vc.main(globals())
