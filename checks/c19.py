"""C19: files."""
import bz2
import copy
import gzip
import io
import itertools
import lzma
import os
import shutil
import sys
import tempfile
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402
import c17  # noqa: E402
import c18  # noqa: E402

PROPERTY = "C19"
TECHNIQUE = ("explicit-state model checking: every state of a calculation in a bounded alphabet (crystal, "
             "datasets, forces, units, dielectric data, representation) is written with the real writers and "
             "read back with the real readers, every damaged variant of a force file and every mismatched "
             "request of a file is tried, sequences of saving and loading are followed to their fixpoint")
LEVEL = "model_checking"
LEVEL_NOTE = ("The complete product of the alphabets stated for each space; files are damaged at each line; "
              "all bit patterns of short arrays for the packed interaction strength.")
ASSUMPTIONS = ["phonopy, h5py and the yaml parser store what they are given"]

CALCS = [None, "vasp", "qe", "wien2k", "cp2k", "crystal", "elk", "abinit", "siesta", "turbomole"]


def units(calc):
    from phonopy.interface.calculator import get_default_physical_units

    u = get_default_physical_units(calc)
    return u["distance_to_A"] or 1.0, u["force_to_eVperA"] or 1.0


class Cwd:
    """Scratch directory as the current one."""

    def __enter__(self):
        self.old = os.getcwd()
        self.new = tempfile.mkdtemp(prefix="c19")
        os.chdir(self.new)
        return self.new

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.new)


# ------------------------------------------------------------------ datasets
def confs(ds, n):
    """Configurations of a dataset as a sorted list: own reading of the format."""
    out = []
    if ds is None:
        return None
    if "first_atoms" in ds:
        for a in ds["first_atoms"]:
            k = (int(a["number"]), tuple(np.round(a["displacement"], 9) + 0.0))
            out.append((k, ()) + rest(a))
            for b in a.get("second_atoms", ()):
                m = (int(b["number"]), tuple(np.round(b["displacement"], 9) + 0.0))
                out.append((k, m) + rest(b))
        return sorted(out, key=lambda x: (x[0], x[1]))
    f, e = ds.get("forces"), ds.get("supercell_energies")
    for i, u in enumerate(ds["displacements"]):
        out.append((i, np.array(u), None if f is None else np.array(f[i]),
                    None if e is None else float(e[i]), None, None))
    return out


def rest(a):
    f = a.get("forces")
    return (None if f is None else np.array(f), a.get("supercell_energy"), a.get("included"),
            a.get("pair_distance"))


def same_ds(got, want, n, what, d=1.0, f=1.0, ftol=1e-9, forces=True, optional=False, utol=1e-9):
    """``got`` holds the data of ``want`` in units of which 1 is d (length), f (force)."""
    if (got is None) != (want is None):
        raise Bad("%s: dataset %s, given %s" % (what, "lost" if got is None else "invented",
                                               None if want is None else sorted(want)))
    if want is None:
        return
    if ("first_atoms" in got) != ("first_atoms" in want):
        raise Bad("%s: kind of dataset %s, given %s" % (what, sorted(got), sorted(want)))
    w = copy.deepcopy(want)
    if "first_atoms" in w:
        if int(got["natom"]) != n:
            raise Bad("%s: natom %s" % (what, got["natom"]))
        for a in w["first_atoms"]:
            a["displacement"] = np.array(a["displacement"]) * d
            for b in a.get("second_atoms", ()):
                b["displacement"] = np.array(b["displacement"]) * d
                if "pair_distance" in b:
                    b["pair_distance"] = b["pair_distance"] * d
    else:
        w["displacements"] = np.array(w["displacements"]) * d
    a, b = confs(got, n), confs(w, n)
    if len(a) != len(b):
        raise Bad("%s: %d configurations, given %d" % (what, len(a), len(b)))
    for x, y in zip(a, b):
        h = "%s: configuration %s" % (what, str(y[:2])[:80])
        for p, q in zip(x[:2], y[:2]):
            if isinstance(q, np.ndarray):
                if np.shape(p) != q.shape or np.abs(np.array(p) - q).max() > utol:
                    raise Bad(h + ": displacement")
            elif str(p) != str(q) and (not isinstance(q, tuple) or p[0] != q[0]
                                       or np.abs(np.array(p[1]) - q[1]).max() > 1e-8):
                raise Bad("%s: read %s" % (h, p))
        if forces:
            z = y[4] is not None and not y[4]
            if y[2] is None:
                if x[2] is not None and not (z and not np.any(x[2])):
                    raise Bad(h + ": forces invented")
            elif x[2] is None or x[2].shape != y[2].shape:
                raise Bad(h + ": forces lost")
            elif np.abs(x[2] - y[2] * f).max() > ftol * f:
                raise Bad("%s: forces differ by %.3g" % (h, np.abs(x[2] - y[2] * f).max()))
            if y[3] is not None and (x[3] is None or abs(x[3] - y[3]) > 1e-7):
                raise Bad("%s: energy %s, given %s" % (h, x[3], y[3]))
            if y[3] is None and x[3] is not None:
                raise Bad("%s: energy invented" % h)
        elif x[2] is not None:
            raise Bad(h + ": forces in a file of displacements")
        if (True if x[4] is None else x[4]) != (True if y[4] is None else y[4]):
            raise Bad("%s: included %s, given %s" % (h, x[4], y[4]))
        if y[5] is not None and not optional and (x[5] is None or abs(x[5] - y[5]) > 1e-6):
            raise Bad("%s: pair distance %s, given %s" % (h, x[5], y[5]))
    if (got.get("cutoff_distance") is None) != (w.get("cutoff_distance") is None) or (
            w.get("cutoff_distance") is not None
            and abs(got["cutoff_distance"] - w["cutoff_distance"] * d) > 1e-6):
        raise Bad("%s: cutoff %s, given %s" % (what, got.get("cutoff_distance"), w.get("cutoff_distance")))
    if not optional:
        x = sorted(map(tuple, got.get("duplicates", ())))
        y = sorted(map(tuple, w.get("duplicates", ())))
        if x != y:
            raise Bad("%s: duplicates %s, given %s" % (what, x[:3], y[:3]))


def data(p, kind, level, n, which="fc3", order=0):
    """A dataset of the alphabet for object p."""
    q = c17.phono(*p["args"])
    if kind == "none":
        return None
    if kind.startswith("two"):
        u = 0.03 * c17.waves((3, n, 3), 0.2)
        ds = {"displacements": u}
        if level:
            ds["forces"] = c17.waves((3, n, 3), 0.9)
        if level > 1:
            ds["supercell_energies"] = -100.0 + 10 * c17.waves((3,), 0.4)
        if kind == "twor":
            ds["random_seed"] = 7
        return ds
    cut = p["cut"] if kind.startswith("cut") else None
    if which == "fc3":
        q.generate_displacements(cutoff_pair_distance=cut, is_plusminus=kind == "onepm" or "auto",
                                 is_diagonal=kind != "onend")
        ds = copy.deepcopy(q.dataset)
    else:
        q.generate_fc2_displacements(is_plusminus=kind == "onepm" or "auto")
        ds = copy.deepcopy(q.phonon_dataset)
    if kind == "onex":  # made by a user: any order of second atoms, no numbers, no distances
        for a in ds["first_atoms"]:
            a.pop("id", None)
            for b in a.get("second_atoms", ()):
                b.pop("id", None)
                b.pop("pair_distance", None)
            if "second_atoms" in a:
                k = len(a["second_atoms"])
                o = sorted(range(k), key=lambda i: (7 * i + 3) % 11)
                a["second_atoms"] = [a["second_atoms"][i] for i in o]
        ds.pop("duplicates", None)
    at = list(ds["first_atoms"]) + [b for a in ds["first_atoms"] for b in a.get("second_atoms", ())]
    for i, a in enumerate(at):
        if level and not (kind == "cutm" and not a.get("included", True)):
            a["forces"] = c17.waves((n, 3), 0.1 + i)
            if level > 1:
                a["supercell_energy"] = -50.0 - 0.0123456 * i
    return ds


def make(case):
    s, ps = tuple(case["smat"]), case["psmat"]
    ps = None if ps is None else tuple(ps)
    return {"args": (case["xtal"], s, ps), "cut": case["cut"]}


def build(p, calculator=None, spins=None, masses=None):
    from phono3py import Phono3py

    name, s, ps = p["args"]
    cell = xtal.unitcell(name)
    if spins is not None:
        cell = cell.copy()
        cell.magnetic_moments = spins
    q = Phono3py(cell, supercell_matrix=c17.smat(s),
                 primitive_matrix=xtal.CONV[name][3] if name in xtal.CONV else np.eye(3),
                 phonon_supercell_matrix=None if ps is None else c17.smat(ps),
                 calculator=calculator, log_level=0)
    if masses is not None:
        q.masses = masses
    return q


def same_cell(a, b, what, d=1.0):
    if (a is None) != (b is None):
        raise Bad("%s: cell is %s" % (what, "lost" if a is None else "invented"))
    if a is None:
        return
    if not np.array_equal(a.numbers, b.numbers):
        raise Bad(what + ": kinds of atoms")
    if list(a.symbols) != list(b.symbols):
        raise Bad(what + ": symbols")
    if np.abs(a.cell - b.cell * d).max() > 1e-8:
        raise Bad(what + ": lattice")
    if np.abs(a.scaled_positions - b.scaled_positions).max() > 1e-8:
        raise Bad(what + ": positions")
    if np.abs(a.masses - b.masses).max() > 1e-5:
        raise Bad(what + ": masses")
    x, y = a.magnetic_moments, b.magnetic_moments
    if (x is None) != (y is None) or x is not None and np.abs(np.array(x) - y).max() > 1e-6:
        raise Bad("%s: magnetic moments %s, given %s" % (what, x, y))


def same_nac(a, b, what):
    if (a is None) != (b is None):
        raise Bad("%s: parameters of non-analytical term are %s" % (what, "lost" if a is None else "invented"))
    if a is None:
        return
    for k in ("born", "dielectric", "factor"):
        if np.abs(np.array(a[k]) - np.array(b[k])).max() > 1e-8:
            raise Bad("%s: %s differs" % (what, k))
    if a.get("method", "gonze") != b.get("method", "gonze"):
        raise Bad("%s: method %s, given %s" % (what, a.get("method"), b.get("method")))


CODEC = {"": lambda x: x, ".xz": lzma.compress, ".gz": gzip.compress, ".bz2": bz2.compress}


def run_yaml(case, obs):
    import phono3py
    from phono3py.interface.phono3py_yaml import Phono3pyYaml

    p = make(case)
    ref = build(p)
    n, m = len(ref.supercell), len(ref.phonon_supercell)
    one = {(k, lv): data(p, k, lv, n) for k in case["kinds"] for lv in (0, 1, 2)}
    two = {(k, lv): data(p, k, lv, m, "fc2") for k in case["pkinds"] for lv in (0, 1, 2)} if p["args"][2] else {
        ("none", 0): None}
    nacs = case["nac"]
    with Cwd():
        for (k, lv), (pk, plv), nac, calc in itertools.product(one, two, nacs, case["calc"]):
            if k == "none" and lv or pk == "none" and plv:
                continue
            if not case["full"] and plv not in (lv, 1) and pk != "none":
                continue
            if (k, lv) not in (("one", 1), ("cut", 1), ("cutm", 1), ("two", 1)) and (
                    nac != nacs[-1] or calc != case["calc"][0]):
                continue
            what = "dataset %s forces %d, fc2 dataset %s forces %d, nac %s, %s" % (k, lv, pk, plv, nac, calc)
            q = build(p, calc)
            if nac:
                q.nac_params = xtal.nac_params(case["xtal"], nac)
            if one[k, lv] is not None:
                q.dataset = copy.deepcopy(one[k, lv])
            if two[pk, plv] is not None:
                q.phonon_dataset = copy.deepcopy(two[pk, plv])
            try:
                q.save("a.yaml")
                obs.step()
                history(q, p, one[k, lv], two[pk, plv], n, m, nac, calc, case, what, obs)
            except Bad:
                raise
            except Exception as e:
                raise Bad("%s: %r" % (what, e)) from e
            obs.state(what)
    obs.outcome(len(one) * len(two))


def history(q, p, ds, pds, n, m, nac, calc, case, what, obs):
    import phono3py
    from phono3py.interface.phono3py_yaml import Phono3pyYaml

    # the object is not changed by saving
    same_ds(q.dataset, ds, n, what + ": after saving")
    same_ds(q.phonon_dataset, pds, m, what + ": fc2 after saving")
    y = Phono3pyYaml()
    y.read("a.yaml")
    if y.calculator != calc:
        raise Bad("%s: calculator %s" % (what, y.calculator))
    same_ds(y.dataset, ds, n, what)
    same_ds(y.phonon_dataset, pds, m, what + ": fc2")
    for k in ("unitcell", "primitive", "supercell", "phonon_supercell", "phonon_primitive"):
        if k.startswith("phonon") and p["args"][2] is None:
            if getattr(y, k) is not None:
                raise Bad("%s: %s invented" % (what, k))
            continue
        same_cell(getattr(y, k), getattr(q, k), what + ": " + k)
    for k in ("supercell_matrix", "primitive_matrix", "phonon_supercell_matrix"):
        a, b = getattr(y, k), getattr(q, k)
        if (a is None) != (b is None) or a is not None and np.abs(np.array(a) - b).max() > 1e-12:
            raise Bad("%s: %s is %s, given %s" % (what, k, a, b))
    same_nac(y.nac_params, q.nac_params, what)
    # object
    d, f = units(calc)
    r = phono3py.load("a.yaml", produce_fc=False, log_level=0)
    obs.step(2)
    same_ds(r.dataset, ds, n, what + ": loaded", d, f)
    same_ds(r.phonon_dataset, pds, m, what + ": fc2, loaded", d, f)
    for k in ("unitcell", "primitive", "supercell", "phonon_supercell", "phonon_primitive"):
        same_cell(getattr(r, k), getattr(q, k), "%s: loaded %s" % (what, k), d)
    same_nac(r.nac_params, q.nac_params, what + ": loaded")
    if d == f == 1:
        # from now on nothing changes
        r.save("b.yaml")
        t = phono3py.load("b.yaml", produce_fc=False, log_level=0)
        t.save("c.yaml")
        obs.step(3)
        if body("b.yaml") != body("c.yaml"):
            raise Bad("%s: saving and loading again changes the file" % what)
        same_ds(t.dataset, ds, n, what + ": loaded twice")
        same_ds(t.phonon_dataset, pds, m, what + ": fc2, loaded twice")
        same_nac(t.nac_params, q.nac_params, what + ": loaded twice")


def body(name):
    x = Path(name).read_text().splitlines()
    return [s for s in x if "version:" not in s and "calculator:" not in s]


def run_options(case, obs):
    """Settings of the writer, compressed files, magnetic moments, masses."""
    import phono3py
    from phono3py.interface.phono3py_yaml import Phono3pyYaml

    p = make(case)
    n, m = len(build(p).supercell), len(build(p).phonon_supercell)
    ds, pds = data(p, case["kind"], 2, n), data(p, "one", 2, m, "fc2") if p["args"][2] else None
    na = len(xtal.unitcell(case["xtal"]))
    spins = [None, list(np.linspace(-1.5, 2.5, na))]
    with Cwd():
        for fs, dd, zb, eps, sp, ms in itertools.product(
                (None, True, False), (None, True, False), (None, False), (None, False), spins, (False, True)):
            if (sp is not None or ms) and (zb is False or eps is False or dd is not None):
                continue
            st = {k: v for k, v in (("force_sets", fs), ("displacements", dd), ("born_effective_charge", zb),
                                    ("dielectric_constant", eps)) if v is not None}
            what = "%s spins %s masses %s" % (st, sp is not None, ms)
            if sp is not None and len(build(p, spins=sp).primitive) != na:
                continue
            q = build(p, spins=sp)
            if ms:
                q.masses = q.primitive.masses * (1.1 + 0.3 * np.arange(len(q.primitive)))
            if case["nac"]:
                q.nac_params = xtal.nac_params(case["xtal"], "gonze")
            q.dataset = copy.deepcopy(ds)
            if pds is not None:
                q.phonon_dataset = copy.deepcopy(pds)
            q.save("a.yaml", settings=st or None)
            y = Phono3pyYaml()
            y.read("a.yaml")
            obs.step(2)
            if dd is False and fs is False:
                for x in (y.dataset, y.phonon_dataset):
                    if x is not None:
                        raise Bad(what + ": dataset is written")
            else:
                same_ds(y.dataset, ds, n, what, forces=fs is not False)
                same_ds(y.phonon_dataset, pds, m, what + " fc2", forces=fs is not False)
            if zb is not False and eps is not False:
                same_nac(y.nac_params, q.nac_params, what)
            r = phono3py.load("a.yaml", produce_fc=False, log_level=0)
            for k in ("unitcell", "primitive", "supercell", "phonon_supercell", "phonon_primitive"):
                same_cell(getattr(r, k), getattr(q, k), "%s: loaded %s" % (what, k))
            obs.state(what)
        raw = Path("a.yaml").read_bytes()
        for ext, f in CODEC.items():
            Path("z.yaml" + ext).write_bytes(f(raw))
            try:
                y = phono3py.load("z.yaml" + ext, produce_fc=False, log_level=0)
            except Exception:
                if ext in ("", ".xz", ".gz"):
                    raise
                continue
            same_cell(y.supercell, r.supercell, "compressed " + ext)
            same_ds(y.dataset, r.dataset, n, "compressed " + ext)
            obs.step()
    obs.outcome(na)


# ------------------------------------------------------------------ FORCES_FC3, FORCES_FC2
def run_forces(case, obs):
    import phono3py
    from phono3py.cui.create_force_constants import parse_forces
    from phono3py.file_IO import write_FORCES_FC2, write_FORCES_FC3

    p = make(case)
    q = build(p)
    n, m = len(q.supercell), len(q.phonon_supercell)
    for which in ("fc3", "fc2") if p["args"][2] else ("fc3",):
        N = n if which == "fc3" else m
        write = write_FORCES_FC3 if which == "fc3" else write_FORCES_FC2
        default = "FORCES_FC3" if which == "fc3" else "FORCES_FC2"
        for kind in case["kinds"] if which == "fc3" else ("one", "onepm", "two"):
            ds = data(p, kind, 1, N, which)
            bare = data(p, kind, 0, N, which)
            for how, name, mode in itertools.product(("dataset", "list"), (default, "other"), ("name", "handle")):
                what = "%s %s, forces in %s, %s, %s" % (which, kind, how, name, mode)
                given = copy.deepcopy(ds if how == "dataset" else bare)
                lst = None
                if how == "list":
                    if "first_atoms" in ds:
                        at = list(ds["first_atoms"]) + [b for a in ds["first_atoms"]
                                                        for b in a.get("second_atoms", ())
                                                        if b.get("included", True)]
                        lst = [a["forces"] for a in at]
                    else:
                        lst = ds["forces"]
                with Cwd():
                    key = {"forces_" + which: lst} if lst is not None else {}
                    if mode == "name":
                        if name == default:
                            write(given, **key)
                        else:
                            write(given, filename=name, **key)
                    else:
                        with open(name, "w") as w:
                            write(given, fp=w, **key)
                    obs.step()
                    if set(os.listdir(".")) != {name}:
                        raise Bad("%s: files %s" % (what, sorted(os.listdir("."))))
                    same_ds(given, ds if how == "dataset" else bare, N, what + ": dataset of the caller")
                    # forces of pairs which are not calculated are zero
                    want = copy.deepcopy(ds)
                    for a in want.get("first_atoms", ()):
                        for b in a.get("second_atoms", ()):
                            if not b.get("included", True):
                                b["forces"] = np.zeros((N, 3))
                    want_u = copy.deepcopy(want)
                    # read back with an object with displacements
                    r = build(p)
                    if "first_atoms" in bare:
                        if which == "fc3":
                            r.dataset = copy.deepcopy(bare)
                        else:
                            r.phonon_dataset = copy.deepcopy(bare)
                    else:
                        r.generate_displacements()
                    with Cwd():
                        r.save("d.yaml")
                        src = os.path.join(os.getcwd(), "d.yaml")
                        from phono3py.interface.phono3py_yaml import Phono3pyYaml

                        y = Phono3pyYaml()
                        y.read(src)
                    got = parse_forces(r, ph3py_yaml=y, force_filename=name,
                                       fc_type="fc3" if which == "fc3" else "phonon_fc2")
                    same_ds(got, want_u, N, what, ftol=1e-9 if "first_atoms" in bare else 6e-9, optional=True,
                            utol=1e-9 if "first_atoms" in bare else 6e-9)
                    obs.step()
                    obs.state(what)
                    if how == "dataset" and name == default and mode == "name":
                        damage(r, y, name, which, got, N, what, obs, case)
    obs.outcome(n)


def damage(r, y, name, which, whole, n, what, obs, case):
    """Each line removed, each block repeated, the file cut: refused or complete."""
    from phono3py.cui.create_force_constants import parse_forces

    lines = Path(name).read_text().splitlines(keepends=True)
    rows = [i for i, x in enumerate(lines) if x.strip() and x.lstrip()[0] != "#"]
    tries = []
    step = case.get("lines", 1)
    two = "first_atoms" not in whole
    for i in rows[::step]:
        tries.append(("without line %d" % i, lines[:i] + lines[i + 1:]))
        if which == "fc3" or two:  # forces for fc2 are also read from the head of FORCES_FC3
            tries.append(("with line %d twice" % i, lines[:i + 1] + lines[i:]))
    for k in range(0, len(rows), n * step):
        if which == "fc3" and not two:
            tries.append(("with forces %d twice" % (k // n), lines[:rows[k + n - 1] + 1] + [
                lines[i] for i in rows[k:k + n]] + lines[rows[k + n - 1] + 1:]))
        if not two:
            tries.append(("without forces %d" % (k // n), [x for i, x in enumerate(lines) if i not in rows[k:k + n]]))
    for i in rows[::max(step, len(rows) // 7)]:
        j = lines[i].split()
        tries.append(("with a short line", lines[:i] + [" ".join(j[:-1]) + "\n"] + lines[i + 1:]))
        tries.append(("with a wrong number", lines[:i] + [" ".join(["******"] + j[1:]) + "\n"] + lines[i + 1:]))
    for head, ls in tries:
        Path("bad").write_text("".join(ls))
        try:
            got = parse_forces(r, ph3py_yaml=y, force_filename="bad",
                               fc_type="fc3" if which == "fc3" else "phonon_fc2")
        except (RuntimeError, ValueError, IndexError):
            obs.step()
            continue
        raise Bad("%s: file %s is accepted, %s" % (
            what, head, "without forces" if not has_forces(got) else "with forces"))
    obs.note("damaged files", len(tries))


def has_forces(ds):
    return ds is not None and ("forces" in ds or "forces" in ds.get("first_atoms", [{}])[0])


# ------------------------------------------------------------------ force constants
def run_fc(case, obs):
    import phono3py
    from phono3py.file_IO import read_fc2_from_hdf5, read_fc3_from_hdf5, write_fc2_to_hdf5, write_fc3_to_hdf5

    p = make(case)
    q = build(p)
    n, m = len(q.supercell), len(q.phonon_supercell)
    for which, comp, compact, withmap in itertools.product(
            (2, 3), (None, "gzip", "lzf", 0, 9), (False, True), (True, False)):
        prim = q.primitive if which == 3 else q.phonon_primitive
        N = n if which == 3 else m
        p2s = np.array(prim.p2s_map)
        shape = (len(p2s) if compact else N,) + (N,) * (which - 1) + (3,) * which
        fc = c17.waves(shape, 0.3)
        what = "fc%d compression %s compact %s map %s" % (which, comp, compact, withmap)
        write, read = ((write_fc2_to_hdf5, read_fc2_from_hdf5), (write_fc3_to_hdf5, read_fc3_from_hdf5))[which - 2]
        with Cwd():
            write(fc, filename="f.hdf5", p2s_map=p2s if withmap else None, compression=comp)
            for mp in (None, p2s):
                x = read(filename="f.hdf5", p2s_map=mp)
                obs.step()
                if x.shape != fc.shape or not np.array_equal(x, fc) or not x.flags.c_contiguous:
                    raise Bad("%s: other numbers are read" % what)
            if not case["full"] and comp not in (None, "lzf"):
                continue
            q.save("a.yaml")
            r = phono3py.load("a.yaml", log_level=0, **{"fc%d_filename" % which: "f.hdf5"})
            x = getattr(r, "fc%d" % which)
            if not np.array_equal(x, fc):
                raise Bad("%s: other numbers are loaded" % what)
            obs.state(what)
            if compact and withmap and len(p2s) > 0:
                for wrong in (p2s + 1, p2s[::-1] if len(p2s) > 1 else p2s + 2, np.append(p2s, N - 1), p2s[:-1]):
                    try:
                        x = read(filename="f.hdf5", p2s_map=wrong)
                    except (RuntimeError, ValueError):
                        obs.step()
                        continue
                    raise Bad("%s: read for atoms %s" % (what, wrong))
            # other calculations
            for other in case["others"]:
                o = build({"args": (case["xtal"], tuple(other[0]), None if other[1] is None else tuple(other[1]))})
                po, No = (o.primitive, len(o.supercell)) if which == 3 else (
                    o.phonon_primitive, len(o.phonon_supercell))
                if No == N and (not compact or np.array_equal(po.p2s_map, p2s)):
                    continue
                with Cwd() as d:
                    o.save("o.yaml")
                    oy = Path("o.yaml").read_text()
                Path("o.yaml").write_text(oy)
                try:
                    phono3py.load("o.yaml", log_level=0, **{"fc%d_filename" % which: "f.hdf5"})
                except (RuntimeError, ValueError, AssertionError):
                    obs.step()
                    continue
                raise Bad("%s: loaded in another calculation %s" % (what, other))
            if which == 3 and m != n or which == 2 and m != n:
                # file of the other supercell
                shape = tuple(len(prim) if compact and i == 0 else (m if which == 3 else n)
                              for i in range(which)) + (3,) * which
                write(c17.waves(shape, 0.1), filename="g.hdf5",
                      p2s_map=p2s if compact else None)
                try:
                    phono3py.load("a.yaml", log_level=0, **{"fc%d_filename" % which: "g.hdf5"})
                except (RuntimeError, ValueError, AssertionError):
                    obs.step()
                else:
                    raise Bad("%s: force constants of the other supercell are loaded" % what)
    obs.outcome((n, m))


# ------------------------------------------------------------------ interaction strength
def run_pp(case, obs):
    from phono3py.file_IO import read_pp_from_hdf5, write_pp_to_hdf5

    mesh = [2, 2, 2]
    with Cwd():
        for shape in case["shapes"]:
            size = int(np.prod(shape))
            pp = c17.waves(tuple(shape), 0.3)
            pp[np.abs(pp) < 0.2] = 0
            pats = itertools.product((0, 1), repeat=size) if size <= case["bits"] else (
                [(i * 7 + s) % k < 1 for i in range(size)] for k in (1, 2, 3, 8, 9) for s in range(k))
            for pat in pats:
                g = np.array(pat, dtype="byte").reshape(shape)
                f = write_pp_to_hdf5(mesh, pp=pp, g_zero=g, grid_point=3, verbose=False)
                x, h = read_pp_from_hdf5(mesh, grid_point=3, verbose=False)
                obs.step(2)
                if x.shape != pp.shape or h.shape != g.shape:
                    raise Bad("shape %s, pattern %s: read %s" % (shape, pat, x.shape))
                if (h != g).any():
                    raise Bad("shape %s: pattern %s is read as %s" % (shape, pat, h.ravel()))
                if (x != np.where(g == 0, pp, 0)).any():
                    raise Bad("shape %s, pattern %s: other strengths are read" % (shape, pat))
                obs.state((tuple(shape), tuple(map(int, g.ravel()))))
            f = write_pp_to_hdf5(mesh, pp=pp, grid_point=3, verbose=False)
            x, h = read_pp_from_hdf5(mesh, grid_point=3, verbose=False)
            if h is not None or not np.array_equal(x, pp):
                raise Bad("shape %s: other strengths are read" % shape)
    obs.outcome(size)


# ------------------------------------------------------------------ names of files
def run_names(case, obs):
    """A file is found by the request it was written for, and by no other."""
    from phono3py import file_IO as io

    args = [dict(zip(("grid_point", "band_index", "sigma", "sigma_cutoff", "filename"), x))
            for x in itertools.product((None, 0, 1, 11), (None, 0, 1, 10), (None, 0.1, 0.01, 1.0, 10.0),
                                       (None, 3.0, 30.0), (None, "x", "1"))]
    args = [a for a in args if (a["sigma"] is not None or a["sigma_cutoff"] is None)
            and (a["grid_point"] is not None or a["band_index"] is None)]
    kind = case["kind"]
    meshes = [(2, 2, 2), (11, 1, 1), (1, 11, 1), (1, 1, 11), (1, 1, 1), (2, 2, 22), (22, 2, 2)]
    with Cwd():
        names = {}
        for mesh in meshes:
            for a in args:
                if kind in ("pp",) and a["band_index"] is not None:
                    continue
                if kind == "phonon" and (a["grid_point"] is not None or a["sigma"] is not None):
                    continue
                suffix = io.get_filename_suffix(
                    mesh, grid_point=a["grid_point"],
                    band_indices=None if a["band_index"] is None else [a["band_index"]],
                    sigma=a["sigma"], sigma_cutoff=a["sigma_cutoff"], filename=a["filename"])
                names.setdefault(suffix, []).append((mesh, a))
                obs.step()
        for s, who in names.items():
            ms = {m for m, _ in who}
            if len(who) > len(ms):
                raise Bad("requests %s, %s have the same name %s" % (who[0], who[1], s))
            obs.state(s)
        # requests of the same name
        rep = sorted(names.values(), key=len)[-1]
        rep = [v for v in names.values() if len(v) > 1]
        for who in rep[:: case.get("stride", 1)]:
            for (ma, a), (mb, _) in itertools.permutations(who, 2):
                for f in os.listdir("."):
                    os.remove(f)
                writer(kind, ma, a)
                if read_any(kind, ma, a) is None:
                    raise Bad("%s: file for %s, %s is not found" % (kind, ma, a))
                try:
                    x = read_any(kind, mb, a)
                except (RuntimeError, AssertionError, ValueError):
                    obs.step()
                    continue
                if x is not None:
                    raise Bad("%s: file of mesh %s is read for mesh %s" % (kind, ma, mb))
    obs.outcome(len(names))


def writer(kind, mesh, a):
    from phono3py import file_IO as io

    mesh = np.array(mesh)
    if kind == "gamma":
        io.write_kappa_to_hdf5(np.array([100.0, 300]), mesh, gamma=c17.waves((2, 3, 6), 0.1), verbose=False, **a)
    elif kind == "pp":
        a = {k: v for k, v in a.items() if k != "band_index"}
        io.write_pp_to_hdf5(mesh, pp=c17.waves((3, 1, 2, 2), 0.1), verbose=False, **a)
    elif kind == "phonon":
        io.write_phonon_to_hdf5(c17.waves((4, 6), 0.1), c17.waves((4, 6, 6), 0.1) + 0j,
                                np.zeros((4, 3), dtype=int), mesh, filename=a["filename"])
    elif kind == "collision":
        s = io.sys if hasattr(io, "sys") else sys
        old, sys.stdout = sys.stdout, __import__("io").StringIO()
        try:
            io.write_collision_to_hdf5(np.array([100.0, 300]), mesh, gamma=c17.waves((2, 3, 6), 0.1),
                                       collision_matrix=c17.waves((2, 3, 6, 3, 3, 6, 3), 0.1), **a)
        finally:
            sys.stdout = old


def read_any(kind, mesh, a):
    from phono3py import file_IO as io

    mesh = np.array(mesh)
    if kind == "gamma":
        return io.read_gamma_from_hdf5(mesh, **a)[0]
    if kind == "pp":
        return io.read_pp_from_hdf5(mesh, verbose=False, **{k: v for k, v in a.items() if k != "band_index"})
    if kind == "phonon":
        return io.read_phonon_from_hdf5(mesh, filename=a["filename"], verbose=False)
    return io.read_collision_from_hdf5(mesh, indices="all", verbose=False, **a)


# ------------------------------------------------------------------ conversion
def run_convert(case, obs):
    """The two representations of displacements and forces."""
    from phono3py.phonon3.dataset import forces_in_dataset, get_displacements_and_forces_fc3

    p = make(case)
    n = len(build(p).supercell)
    for kind, lv in itertools.product(case["kinds"], (0, 1, 2)):
        ds = data(p, kind, lv, n)
        if ds is None:
            continue
        what = "dataset %s forces %d" % (kind, lv)
        old = copy.deepcopy(ds)
        u, f = get_displacements_and_forces_fc3(ds)
        same_ds(ds, old, n, what + ": given dataset")
        if forces_in_dataset(ds) != (lv > 0):
            raise Bad(what + ": forces_in_dataset")
        if "first_atoms" in ds:
            v, inc = c17.displacements(ds, n)
            w = np.array(c17.overwritten(ds, n))
            at = list(ds["first_atoms"]) + [b for a in ds["first_atoms"] for b in a["second_atoms"]]
            g = [a.get("forces") for a in at]
            v = w  # recorded known finding of C17
            v = v[inc]
            g = [x for x, i in zip(g, inc) if i]
        else:
            v, g = ds["displacements"], ds.get("forces")
        vc.close(u, np.array(v), 1e-12, what + ": displacements", scale=1)
        if lv == 0:
            if f is not None:
                raise Bad(what + ": forces invented")
        else:
            vc.close(f, np.array(g), 1e-12, what + ": forces", scale=1)
        q = build(p)
        q.dataset = copy.deepcopy(ds)
        if lv:
            # assignment of what was read changes nothing
            x = q.forces
            if kind != "cutm":
                q.forces = x
                same_ds(q.dataset, ds, n, what + ": forces assigned again")
            if lv > 1:
                q.supercell_energies = q.supercell_energies
                if kind != "cutm":
                    same_ds(q.dataset, ds, n, what + ": energies assigned again")
        elif q.forces is not None:
            raise Bad(what + ": forces invented")
        if lv == 1 and q.supercell_energies is not None:
            raise Bad(what + ": energies invented")
        if kind == "cutm" and lv:
            # forces of pairs which are not calculated are irrelevant
            fc = []
            for k in ("cut", "cutm"):
                d = data(p, k, lv, n)
                z = build(p)
                z.dataset = d
                z.produce_fc3()
                fc += [z.fc2, z.fc3]
            vc.close(fc[3], fc[1], 1e-12, what + ": fc3 with forces of excluded pairs", scale=np.abs(fc[1]).max())
            if fc[0] is not None:
                vc.close(fc[2], fc[0], 1e-12, what + ": fc2 with forces of excluded pairs",
                         scale=np.abs(fc[0]).max())
        obs.step(3)
        obs.state(what)
    obs.outcome(n)


def run_old(case, obs):
    """Legacy files of displacements."""
    import warnings

    from phono3py import file_IO as io

    p = make(case)
    q = build(p)
    n, m = len(q.supercell), len(q.phonon_supercell)
    with Cwd(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for kind in case["kinds"]:
            if kind.startswith("two") or kind in ("none", "onex"):
                continue
            ds = data(p, kind, 0, n)
            io.write_disp_fc3_yaml(ds, q.supercell, filename="d3")
            got, cell = io.parse_disp_fc3_yaml(filename="d3", return_cell=True)
            same_ds(got, ds, n, "legacy " + kind, optional=True)
            for k in ("cell", "scaled_positions"):
                vc.close(getattr(cell, k), getattr(q.supercell, k), 1e-10, "legacy cell", scale=1)
            obs.step()
        ds = data(p, "one", 0, m, "fc2")
        if ds is not None:
            io.write_disp_fc2_yaml(ds, q.phonon_supercell, filename="d2")
            got, cell = io.parse_disp_fc2_yaml(filename="d2", return_cell=True)
            same_ds(got, ds, m, "legacy fc2", optional=True)
    obs.outcome(n)


KINDS = ["none", "one", "onepm", "onend", "onex", "cut", "cutm", "two", "twor"]


def spaces(tier):
    t = tier == "thorough"
    bases = [("cscl", (1, 1, 2), (2, 2, 1), 3.3, ["gonze", "wang"]),
             ("nacl", (2, 1, 1), None, 4.0, ["gonze"]),
             ("fcc1", (2, 2, 2), (3, 1, 1), 3.0, [])]
    if t:
        bases += [("naclc", (1, 1, 1), (1, 1, 2), 4.0, ["wang"]), ("dia", (2, 2, 2), None, 3.0, []),
                  ("hcp", (2, 1, 1), (1, 1, 2), 4.0, []), ("tric2", (2, 1, 1), (1, 2, 1), 3.7, ["gonze"]),
                  ("bccc", (1, 1, 2), (2, 1, 1), 4.2, [])]
    mk = [dict(xtal=x, smat=list(s), psmat=None if ps is None else list(ps), cut=c, nac=[None] + nac)
          for x, s, ps, c, nac in bases]
    calcs = CALCS if t else [None, "vasp", "qe", "wien2k"]
    yield Space("parameters", [dict(b, kinds=[k], pkinds=[pk], calc=calcs, full=t) for b in mk for k in KINDS
                               for pk in (("none", "one", "onepm", "two", "twor") if b["psmat"] else ("none",))
                               if t or pk in ("one", "two", "none") or k in ("none", "one", "two")],
                run_yaml, bound="kinds of both datasets x forces, energies x dielectric data x units")
    yield Space("options", [dict(b, nac=len(b["nac"]) > 1, kind=k) for b in mk for k in ("one", "cut", "two")],
                run_options, bound="settings of the writer, magnetic moments, masses, compressions")
    yield Space("forces", [dict(b, kinds=[k], lines=1 if t else 5) for b in mk for k in KINDS[1:]],
                run_forces, bound="force files of every kind of dataset; each line removed or repeated")
    yield Space("force-constants", [dict(b, others=[[(1, 1, 1), None], [(1, 2, 1), (1, 1, 3)], [(2, 2, 1), None]], full=t)
                                    for b in mk], run_fc, bound="forms, compressions, maps")
    shapes = [s for k in range(1, 13 if t else 11) for s in ((k, 1, 1, 1), (1, k, 1, 1) if k % 2 else (k // 2, 2, 1, 1))]
    shapes = [list(x) for x in sorted(set(shapes))] + [[3, 3, 3, 3], [2, 5, 7, 1], [4, 6, 6, 6]]
    yield Space("interaction", [dict(shapes=[s], bits=10 if t else 8) for s in shapes], run_pp,
                bound="all patterns of up to %d elements" % (10 if t else 8))
    yield Space("names", [dict(kind=k, stride=1 if t else 3) for k in ("gamma", "pp", "phonon", "collision")], run_names,
                bound="all pairs of requests")
    yield Space("conversion", [dict(b, kinds=[k]) for b in mk for k in KINDS], run_convert, bound="kinds of datasets")
    yield Space("legacy", [dict(b, kinds=KINDS) for b in mk], run_old, bound="kinds of datasets")


if __name__ == "__main__":
    vc.main(globals())
