"""C18: generated displacements."""
import copy
import itertools
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402
import c17  # noqa: E402

PROPERTY = "C18"
TECHNIQUE = ("explicit-state model checking: for every crystal, supercell and combination of options, "
             "the orbits of the generated displacements under the space group (own search) are "
             "enumerated completely and compared with all displacements of all atoms and pairs; "
             "histories of generation and assignment of datasets are explored breadth first against "
             "a state model")
LEVEL = "model_checking"
LEVEL_NOTE = ("All crystals of the alphabet with supercells up to 64 atoms, the product of options of "
              "signs, diagonal directions, distances and cutoffs; all sequences of dataset operations up "
              "to a depth.")
ASSUMPTIONS = ["tolerance of symmetry search 1e-5 as given"]


def min_dist(cell):
    im = np.array(list(itertools.product((-2, -1, 0, 1, 2), repeat=3))) @ cell.cell
    p = cell.positions
    d = p[None, :, None] - p[:, None, None] + im
    return np.linalg.norm(d, axis=3).min(axis=2)


def rank(vs):
    return np.linalg.matrix_rank(np.array(vs), tol=1e-3 * np.abs(vs).max()) if len(vs) else 0


def has(vs, v, tol=1e-7):
    return any(np.abs(np.array(x) - v).max() < tol for x in vs)


def on_axis(lat, u):
    f = u @ np.linalg.inv(lat)
    return (np.abs(f) > 1e-8).sum() == 1


def firsts(ds, cell, grp, dist, pm, diag, what):
    """Displacements of single atoms determine the response to all of them."""
    n = len(cell)
    by = {}
    for a in ds["first_atoms"]:
        u = np.array(a["displacement"])
        if abs(np.linalg.norm(u) - dist) > 1e-10:
            raise Bad("%s: length %.10g" % (what, np.linalg.norm(u)))
        by.setdefault(int(a["number"]), []).append(u)
    if not diag:
        for us in by.values():
            for u in us:
                if not on_axis(cell.cell, u):
                    raise Bad("%s: %s is not along an axis" % (what, u))
    todo = set(range(n))
    for k in by:
        todo -= {int(p[k]) for _, p in grp}
    if todo:
        raise Bad("%s: atoms %s are never displaced" % (what, sorted(todo)))
    for k, us in by.items():
        site = [r for r, p in grp if p[k] == k]
        if rank([r @ u for u in us for r in site]) < 3:
            raise Bad("%s: directions of atom %d do not span" % (what, k))
        for u in us:
            eq = has([r @ u for r in site], -u)
            minus = has(us, -u)
            if pm is True and not minus or pm == "auto" and not minus and not eq:
                raise Bad("%s: no opposite displacement of %s of atom %d" % (what, u, k))
            if pm is False and minus:
                raise Bad("%s: opposite displacement of %s of atom %d" % (what, u, k))
    return by


def fields(ds, n):
    u, inc = c17.displacements(ds, n)
    return u, inc


def pairs(ds, cell, grp, dist, diag, cut, what, dmin, obs):
    n = len(cell)
    count = len(ds["first_atoms"])
    if [a["id"] for a in ds["first_atoms"]] != list(range(1, count + 1)):
        raise Bad("%s: numbering of first displacements" % what)
    for a in ds["first_atoms"]:
        k, u = int(a["number"]), np.array(a["displacement"])
        site = [(r, p) for r, p in grp if p[k] == k and np.abs(r @ u - u).max() < 1e-7]
        todo = set(range(n))
        by = {}
        for b in a["second_atoms"]:
            count += 1
            v, m = np.array(b["displacement"]), int(b["number"])
            if b["id"] != count:
                raise Bad("%s: number %d of pair %d" % (what, b["id"], count))
            if abs(np.linalg.norm(v) - dist) > 1e-10:
                raise Bad("%s: length %.10g of second" % (what, np.linalg.norm(v)))
            if abs(b["pair_distance"] - dmin[k, m]) > 1e-7:
                raise Bad("%s: distance %.10g of atoms %d %d, exact %.10g" % (
                    what, b["pair_distance"], k, m, dmin[k, m]))
            if cut is None:
                if b.get("included", True) is not True:
                    raise Bad("%s: excluded without cutoff" % what)
            elif b["included"] != (dmin[k, m] < cut):
                raise Bad("%s: pair at %.6g is %s with cutoff %g" % (what, dmin[k, m], b["included"], cut))
            if not diag and not on_axis(cell.cell, v):
                raise Bad("%s: second %s is not along an axis" % (what, v))
            by.setdefault(m, []).append(v)
        for m, vs in by.items():
            todo -= {int(p[m]) for _, p in site}
            bond = [r for r, p in site if p[m] == m]
            if rank([r @ v for v in vs for r in bond]) < 3:
                raise Bad("%s: second directions of %d, %d do not span" % (what, k, m))
            for v in vs:
                if not has(vs, -v) and not has([r @ v for r in bond], -v):
                    raise Bad("%s: no opposite of second displacement %s of %d, %d" % (what, v, k, m))
            obs.step(len(vs))
        if todo:
            raise Bad("%s: atoms %s are never displaced after %d" % (what, sorted(todo), k))
    u, inc = fields(ds, n)
    who = [None] * len(ds["first_atoms"]) + [
        tuple((int(x["number"]), np.array(x["displacement"])) for x in (a, b))
        for a in ds["first_atoms"] for b in a["second_atoms"]]
    for i, j in ds.get("duplicates", ()):
        w = u[j - 1] if j else 0 * u[0]
        if np.abs(u[i - 1] - w).max() > 1e-9:
            # known finding: a pair of displacements (a, b) of one atom is taken for the perfect
            # supercell because (-b, -a) exists
            a, b = who[i - 1]
            if j == 0 and a[0] == b[0] and any(
                    x[0] == y[0] == a[0] and np.abs(x[1] + b[1]).max() < 1e-9 and np.abs(y[1] + a[1]).max() < 1e-9
                    for x, y in filter(None, who)):
                if not obs.findings:
                    obs.bad("%s: duplicate %d of %d is another configuration" % (what, i, j),
                            key="duplicate-opposite")
                continue
            raise Bad("%s: duplicate %d of %d is another configuration" % (what, i, j))
    return u, inc


def cells_of(cells, base, u, inc, what):
    if len(cells) != len(u):
        raise Bad("%s: %d supercells for %d displacements" % (what, len(cells), len(u)))
    for i, c in enumerate(cells):
        if not inc[i]:
            if c is not None:
                raise Bad("%s: supercell of excluded pair %d" % (what, i))
            continue
        if c is None:
            raise Bad("%s: no supercell %d" % (what, i))
        if not (np.array_equal(c.numbers, base.numbers) and np.allclose(c.cell, base.cell, atol=1e-12, rtol=0)
                and np.allclose(c.masses, base.masses)):
            raise Bad("%s: supercell %d is of another crystal" % (what, i))
        vc.close(c.positions - base.positions, u[i], 1e-10, "%s: displaced supercell %d" % (what, i), scale=1)


def strip(ds, keys):
    ds = copy.deepcopy(ds)
    for k in keys:
        ds.pop(k, None)
        for a in ds["first_atoms"]:
            for b in a["second_atoms"]:
                b.pop(k, None)
    return ds


def same(a, b, what, tol=1e-12):
    if type(a) in (list, tuple, np.ndarray) or type(b) in (list, tuple, np.ndarray):
        if len(a) != len(b):
            raise Bad("%s: length %d, %d" % (what, len(a), len(b)))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or not (len(a) and isinstance(a[0], dict)):
            if not np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), atol=tol, rtol=0):
                raise Bad("%s differs" % what)
            return
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, "%s[%d]" % (what, i), tol)
    elif isinstance(a, dict):
        if set(a) != set(b):
            raise Bad("%s: keys %s, %s" % (what, sorted(a), sorted(b)))
        for k in a:
            same(a[k], b[k], "%s.%s" % (what, k), tol)
    elif isinstance(a, float):
        if abs(a - b) > tol:
            raise Bad("%s: %r, %r" % (what, a, b))
    elif a != b:
        raise Bad("%s: %r, %r" % (what, a, b))


def setup(case):
    s = case["smat"]
    s = tuple(map(tuple, s)) if np.ndim(s) == 2 else tuple(s)
    p = c17.phono(case["xtal"], s, is_symmetry=case.get("sym", True))
    grp = c17.group(p.supercell)
    if not case.get("sym", True):
        grp = [(r, q) for r, q in grp if np.allclose(r, np.eye(3))]
    return p, grp


def run_fc3(case, obs):
    p, grp = setup(case)
    cell = p.supercell
    n = len(cell)
    dmin = min_dist(cell)
    ref = {}
    shells = np.unique(np.round(dmin, 4))
    cuts = [None] + [(shells[i] + shells[i + 1]) / 2 for i in range(min(case["shells"], len(shells) - 1))] + [
        shells[-1] + 1]
    for pm, diag, dist in itertools.product(("auto", True, False), (True, False), (None, 0.1)):
        for cut in cuts:
            if dist is not None and cut is not None and cut != cuts[1]:
                continue
            what = "plusminus %s diagonal %s distance %s cutoff %s" % (pm, diag, dist, cut)
            p.generate_displacements(distance=dist, is_plusminus=pm, is_diagonal=diag, cutoff_pair_distance=cut)
            ds = p.dataset
            d = 0.03 if dist is None else dist
            if ds["natom"] != n:
                raise Bad("%s: natom %s" % (what, ds["natom"]))
            if ds.get("cutoff_distance") != cut:
                raise Bad("%s: recorded cutoff %s" % (what, ds.get("cutoff_distance")))
            key = (pm, diag, dist)
            if key not in ref:
                firsts(ds, cell, grp, d, pm, False, what)
                u, inc = pairs(ds, cell, grp, d, diag, cut, what, dmin, obs)
                ref[key] = copy.deepcopy(ds)
                if dist is not None:  # another length of the same directions
                    x = fields(ref[pm, diag, None], n)[0]
                    if len(x) != len(u) or np.abs(x / 0.03 - u / d).max() > 1e-8:
                        raise Bad("%s: other displacements with another distance" % what)
                    same(ref[pm, diag, None].get("duplicates", []), ds.get("duplicates", []), what + " duplicates")
            else:
                u, inc = pairs(ds, cell, grp, d, diag, cut, what, dmin, obs)
                same(strip(ds, ("included", "cutoff_distance")), ref[key], what)
            cells_of(p.supercells_with_displacements, cell, u, inc, what)
            obs.state((pm, diag, dist, cut))
    # options change what they name only
    for diag in (True, False):
        a, b, c = (ref[x, diag, None]["first_atoms"] for x in ("auto", True, False))
        for small, big in ((a, b), (c, a), (c, b)):
            big = [(x["number"], np.array(x["displacement"]), x["second_atoms"]) for x in big]
            for x in small:
                m = [y for y in big if y[0] == x["number"] and np.allclose(y[1], x["displacement"], atol=1e-10)]
                if len(m) != 1:
                    raise Bad("first displacement of atom %d depends on the option of signs" % x["number"])
                same([dict(y, id=0) for y in m[0][2]], [dict(y, id=0) for y in x["second_atoms"]],
                     "second displacements and the option of signs")
    for pm in ("auto", True, False):
        a, b = (ref[pm, d, None]["first_atoms"] for d in (True, False))
        same([{k: v for k, v in x.items() if k != "second_atoms"} for x in a],
             [{k: v for k, v in x.items() if k != "second_atoms"} for x in b], "first and diagonal")
    obs.outcome(len(u))


def run_fc2(case, obs):
    """Displacements for second-order force constants."""
    p, _ = setup(case)
    s = p.supercell_matrix
    for ps in case["psmat"]:
        q = c17.phono(case["xtal"], tuple(case["smat"]), tuple(ps), is_symmetry=case.get("sym", True))
        cell = q.phonon_supercell
        grp = c17.group(cell)
        if not case.get("sym", True):
            grp = [(r, x) for r, x in grp if np.allclose(r, np.eye(3))]
        for pm, diag, dist in itertools.product(("auto", True, False), (True, False), (None, 0.1)):
            what = "fc2 %s plusminus %s diagonal %s distance %s" % (ps, pm, diag, dist)
            q.generate_fc2_displacements(distance=dist, is_plusminus=pm, is_diagonal=diag)
            ds = q.phonon_dataset
            if ds["natom"] != len(cell):
                raise Bad(what + ": natom")
            firsts(ds, cell, grp, 0.03 if dist is None else dist, pm, diag, what)
            u = np.array([np.zeros((len(cell), 3)) for _ in ds["first_atoms"]])
            for i, a in enumerate(ds["first_atoms"]):
                u[i, a["number"]] = a["displacement"]
            cells_of(q.phonon_supercells_with_displacements, cell, u, [True] * len(u), what)
            vc.close(q.phonon_displacements, u, 1e-12, what + " displacements", scale=1)
            # from the generation for fc3
            r = c17.phono(case["xtal"], tuple(case["smat"]), tuple(ps), is_symmetry=case.get("sym", True))
            r.generate_displacements(distance=dist, is_plusminus=pm, is_diagonal=diag)
            if not diag:
                same(r.phonon_dataset, ds, what + " generated with those of fc3")
            x = p.generate_displacements(distance=dist, is_plusminus=pm, is_diagonal=diag)
            same(r.dataset, p.dataset, what + ": fc3 displacements with other supercell for fc2")
            obs.step()
            obs.state((ps, pm, diag, dist))
    obs.outcome(len(u))


def run_random(case, obs):
    """Random displacements."""
    name, s, ps = case["xtal"], tuple(case["smat"]), case["psmat"]
    want = {}
    for order in (3, 2):
        q = c17.phono(name, s, None if ps is None else tuple(ps))
        from phonopy.interface.symfc import SymfcFCSolver
        from phonopy.structure.symmetry import Symmetry

        c = q.supercell if order == 3 else q.phonon_supercell
        # number of parameters estimated by symfc: twice as many equations
        want[order] = 2 * SymfcFCSolver(c, Symmetry(c, symprec=1e-5)).estimate_numbers_of_supercells(
            orders=[order])[order]
    for order, num, seed, pm, dist, mx in itertools.product(
            (3, 2), case["nums"], case["seeds"], ("auto", True, False), (None, 0.05), (None, 0.2)):
        if num == "auto" and (dist, mx) != (None, None):
            continue
        p = c17.phono(name, s, None if ps is None else tuple(ps))
        kw = dict(distance=dist, is_plusminus=pm, number_of_snapshots=num, random_seed=seed, max_distance=mx)
        if order == 3:
            p.generate_displacements(**kw)
            u, cell, cells = p.displacements, p.supercell, p.supercells_with_displacements
            ds = p.dataset
            if ps is not None and p.phonon_dataset is None:
                raise Bad("no displacements for fc2")
        else:
            p.generate_fc2_displacements(**kw)
            ds = p.phonon_dataset
            u, cell = ds["displacements"], p.phonon_supercell
            cells = p.phonon_supercells_with_displacements
        what = "random %s %s" % (order, kw)
        d = 0.03 if dist is None else dist
        if u.ndim != 3 or u.shape[1:] != (len(cell), 3):
            raise Bad("%s: shape %s" % (what, u.shape))
        k = len(u)
        if pm is True:
            if k % 2:
                raise Bad("%s: odd number" % what)
            k //= 2
            vc.close(u[k:], -u[:k], 1e-12, what + ": opposite displacements", scale=1)
        if num != "auto" and k != num:
            raise Bad("%s: %d snapshots" % (what, k))
        if num == "auto":
            if k != want[order]:
                raise Bad("%s: %d snapshots, %d" % (what, k, want[order]))
        r = np.linalg.norm(u, axis=2)
        if mx is None:
            if np.abs(r - d).max() > 1e-8:
                raise Bad("%s: lengths %.6g ... %.6g" % (what, r.min(), r.max()))
        elif r.min() < d - 1e-8 or r.max() > mx + 1e-8:
            raise Bad("%s: lengths %.6g ... %.6g" % (what, r.min(), r.max()))
        cells_of(cells, cell, u, [True] * len(u), what)
        if seed is not None:
            if ds.get("random_seed") != seed:
                raise Bad("%s: recorded seed %s" % (what, ds.get("random_seed")))
            q = c17.phono(name, s, None if ps is None else tuple(ps))
            if order == 3:
                q.generate_displacements(**kw)
                v = q.displacements
            else:
                q.generate_fc2_displacements(**kw)
                v = q.phonon_dataset["displacements"]
            vc.close(v, u, 1e-14, what + ": same seed", scale=1)
        obs.step()
        obs.state(what)
    obs.outcome(want)


def run_history(case, obs):
    """Sequences of operations on datasets."""
    name, s, ps = case["xtal"], tuple(case["smat"]), case["psmat"]
    ps = None if ps is None else tuple(ps)

    def fresh():
        return c17.phono(name, s, ps)

    base = fresh()
    n, m = len(base.supercell), len(base.phonon_supercell)

    def typ1(gen, get):
        x = fresh()
        gen(x)
        return copy.deepcopy(get(x))

    def rnd(k, num, s0):
        a = np.arange(k * num * 3).reshape(num, k, 3)
        return 0.03 * np.sin(1.3 * a + s0)

    one = {"G": typ1(lambda x: x.generate_displacements(distance=0.02), lambda x: x.dataset),
           "C": typ1(lambda x: x.generate_displacements(cutoff_pair_distance=case["cut"], is_plusminus=True),
                     lambda x: x.dataset),
           "R": typ1(lambda x: x.generate_displacements(number_of_snapshots=2, random_seed=3), lambda x: x.dataset)}
    two = {"G": typ1(lambda x: x.generate_fc2_displacements(distance=0.02), lambda x: x.phonon_dataset),
           "C": typ1(lambda x: x.generate_fc2_displacements(is_plusminus=True), lambda x: x.phonon_dataset),
           "T": typ1(lambda x: x.generate_fc2_displacements(distance=0.04), lambda x: x.phonon_dataset),
           "V": typ1(lambda x: x.generate_fc2_displacements(), lambda x: x.phonon_dataset),
           "R": typ1(lambda x: x.generate_fc2_displacements(number_of_snapshots=2, random_seed=3),
                     lambda x: x.phonon_dataset)}
    one["A"] = {"displacements": rnd(n, 3, 0.1), "forces": rnd(n, 3, 0.2), "supercell_energies": rnd(1, 1, 0.3)[0, 0]}
    two["A"] = {"displacements": rnd(m, 3, 0.4), "forces": rnd(m, 3, 0.5), "supercell_energies": rnd(1, 1, 0.6)[0, 0]}
    xa, ya = rnd(n, 2, 0.7), rnd(m, 2, 0.8)

    class Err(Exception):
        pass

    def gen(model, k):
        model["d"] = one[k]
        if ps is not None and model["p"] is None:
            model["p"] = two[{"G": "G", "C": "C", "R": "V"}[k]]

    def setx(model, k, v):
        if k == "p" and ps is None:
            raise Err
        if model[k] is not None and "first_atoms" in model[k]:
            raise Err
        model[k] = dict(model[k] or {}, displacements=v)

    given = []

    def give(x):
        x = copy.deepcopy(x)
        given.append((x, copy.deepcopy(x)))
        return x

    def assign(attr, v):
        return lambda x: setattr(x, attr, give(v))

    def put(k, v):
        return lambda mo: mo.__setitem__(k, v)

    def putarr(k, v):
        def f(mo):
            # random_seed and others of the given dataset are not kept
            if k == "p" and ps is None:
                mo["p"] = {}  # refused half-way
                raise Err
            mo[k] = v
        return f

    ops = {
        "gG": (lambda x: x.generate_displacements(distance=0.02), lambda mo: gen(mo, "G")),
        "gC": (lambda x: x.generate_displacements(cutoff_pair_distance=case["cut"], is_plusminus=True),
               lambda mo: gen(mo, "C")),
        "gR": (lambda x: x.generate_displacements(number_of_snapshots=2, random_seed=3), lambda mo: gen(mo, "R")),
        "hT": (lambda x: x.generate_fc2_displacements(distance=0.04), put("p", two["T"])),
        "hR": (lambda x: x.generate_fc2_displacements(number_of_snapshots=2, random_seed=3), put("p", two["R"])),
        "dC": (assign("dataset", one["C"]), put("d", one["C"])),
        "dA": (assign("dataset", one["A"]), putarr("d", one["A"])),
        "dN": (assign("dataset", None), put("d", None)),
        "pT": (assign("phonon_dataset", two["T"]), put("p", two["T"])),
        "pN": (assign("phonon_dataset", None), put("p", None)),
        "x": (assign("displacements", xa), lambda mo: setx(mo, "d", xa)),
    }
    if ps is not None:
        ops["pA"] = (assign("phonon_dataset", two["A"]), putarr("p", two["A"]))
        ops["y"] = (assign("phonon_displacements", ya), lambda mo: setx(mo, "p", ya))

    def check(x, mo, seq):
        what = "history %s" % (seq,)
        for attr, k in (("dataset", "d"), ("phonon_dataset", "p")):
            got, want = getattr(x, attr), mo[k]
            if (got is None) != (want is None):
                raise Bad("%s: %s is %s" % (what, attr, got if got is None else sorted(got)))
            if got is not None:
                same(got, want, "%s: %s" % (what, attr))
        if mo["d"] is not None:
            if "first_atoms" in mo["d"]:
                u, inc = fields(mo["d"], n)
            else:
                u = mo["d"]["displacements"]
                inc = [True] * len(u)
            vc.close(x.displacements, u, 1e-12, what + ": displacements", scale=1)
            cells_of(x.supercells_with_displacements, base.supercell, u, inc, what)
        if mo["p"] is not None:
            if "first_atoms" in mo["p"]:
                u = np.zeros((len(mo["p"]["first_atoms"]), m, 3))
                for i, a in enumerate(mo["p"]["first_atoms"]):
                    u[i, a["number"]] = a["displacement"]
            else:
                u = mo["p"]["displacements"]
            vc.close(x.phonon_displacements, u, 1e-12, what + ": phonon displacements", scale=1)
            cells_of(x.phonon_supercells_with_displacements, base.phonon_supercell, u, [True] * len(u), what)
        elif x.phonon_supercells_with_displacements is not None:
            raise Bad(what + ": supercells without phonon dataset")

    for seq in itertools.product(sorted(ops), repeat=case["depth"]):
        if seq[0] not in case["first"]:
            continue
        x, mo = fresh(), {"d": None, "p": None}
        del given[:]
        for i, o in enumerate(seq):
            do, mod = ops[o]
            try:
                mod(mo)
                err = False
            except Err:
                err = True
            try:
                do(x)
                if err:
                    raise Bad("history %s: step %d must be refused" % (seq, i))
            except RuntimeError:
                if not err:
                    raise
            if case["look"] or i == len(seq) - 1:
                check(x, mo, seq[:i + 1])
            obs.step()
        for a, b in given:
            if a is None:
                continue
            if isinstance(a, dict):
                same(a, b, "argument of history %s" % (seq,), 0)
            elif not np.array_equal(a, b):
                raise Bad("argument of history %s changed" % (seq,))
        for a, b in given:  # the caller's data are the caller's
            if isinstance(a, dict):
                if "first_atoms" in a:
                    a["first_atoms"][0]["displacement"][:] = [7, 7, 7]
                else:
                    a["displacements"][:] = 7
            elif a is not None:
                a[:] = 7
        check(x, mo, seq)
        obs.state((seq, case["look"]))
        obs.trace()
    obs.outcome(len(ops))


def spaces(tier):
    q = tier == "quick"
    out = []
    for x in xtal.CELLS:
        na = len(xtal.CELLS[x][1])
        for s in [(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 1), (3, 2, 1)]:
            n = na * int(np.prod(s))
            if n > (12 if q else 36) or (q and s == (3, 2, 1)) or (na < 3 and s == (1, 1, 1)):
                continue
            out.append(dict(xtal=x, smat=s, shells=2 if q else 6))
    for x, s in [("naclc", (1, 1, 1)), ("bccc", (2, 1, 1)), ("diac", (1, 1, 1))] + (
            [] if q else [("naclc", (2, 1, 1)), ("bccc", (2, 2, 2)), ("diac", (2, 1, 1)), ("naclc", (2, 2, 2))]):
        out.append(dict(xtal=x, smat=s, shells=2))
    out += [dict(xtal="tric1", smat=((1, 1, 0), (-1, 1, 0), (0, 0, 1)), shells=2),
            dict(xtal="sc1", smat=((1, 1, 0), (-1, 1, 0), (0, 0, 2)), shells=2),
            dict(xtal="sc1", smat=((0, 1, 1), (1, 0, 1), (1, 1, 0)), shells=2),
            dict(xtal="nacl", smat=((-1, 1, 1), (1, -1, 1), (1, 1, -1)), shells=2)]
    out += [dict(xtal=x, smat=s, shells=2, sym=False) for x, s in
            (("nacl", (1, 1, 1)), ("sc1", (2, 1, 1)), ("wz", (1, 1, 1)))]
    yield Space("fc3", out, run_fc3, "crystals x supercells x options")
    out = [dict(xtal=x, smat=(1, 1, 1), psmat=[(2, 1, 1), (2, 2, 2)] if q else
                [(2, 1, 1), (1, 1, 2), (2, 2, 1), (2, 2, 2), (3, 3, 2)]) for x in xtal.CELLS]
    out.append(dict(xtal="nacl", smat=(1, 1, 1), psmat=[(2, 1, 1)], sym=False))
    yield Space("fc2", out, run_fc2, "crystals x supercells for fc2 x options")
    out = [dict(xtal=x, smat=s, psmat=ps, nums=nums, seeds=(None, 11) if q else (None, 0, 11)) for nums in ((1,), (4,), ("auto",)) for x, s, ps in
           [("sc1", (2, 2, 1), (2, 2, 2)), ("nacl", (1, 1, 1), (2, 2, 1)), ("nacl", (2, 1, 1), None),
            ("wz", (1, 1, 1), (2, 1, 1)), ("tric2", (1, 1, 1), (2, 2, 2))]]
    yield Space("random", out, run_random, "options of random displacements")
    out = [dict(xtal="nacl", smat=(1, 1, 1), psmat=ps, depth=d, look=k, cut=3.0, first=f)
           for f in (("gG",), ("gC",), ("gR",), ("hT", "hR"), ("dC",), ("dA", "dN"), ("pT", "pN"), ("x", "pA", "y"))
           for ps in ((2, 1, 1), None) for d, k in (((2, True), (2, False)) if q else ((3, True), (3, False)))]
    yield Space("history", out, run_history, "sequences of dataset operations")


if __name__ == "__main__":
    vc.main(globals())
