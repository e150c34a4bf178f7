"""C30: machine-learning potentials are trained on, and evaluated at, the data of the object or command.

The potential is played: its training leaves a number which depends on all data
and parameters given, and its forces are these of a known anharmonic crystal,
found from the positions in each supercell, times that number.
"""
import itertools
import json
import os
import sys
import warnings
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon  # noqa: E402,F401
from vcommon import Bad, Space, main  # noqa: E402

import c28  # noqa: E402
from c28 import command, load, remove, scratch  # noqa: E402

PROPERTY = "C30"
TECHNIQUE = (
    "exhaustive enumeration on the real code: all sequences of operations (datasets, training, saving, loading, "
    "displacements, evaluation) of the object to a depth, compared with a model of its state, and all combinations "
    "of files, datasets and options of the command, with a played potential that recognises its data and supercells"
)
LEVEL = "model_checking"
LEVEL_NOTE = "bounded: sequences of 2 (3) operations after five histories; one or two crystals; the training itself is played"
ASSUMPTIONS = ["pypolymlp and phonopy's interface to it are replaced by a played potential"]
RULE = "states are (history, operation) pairs and (files, dataset, options) of the command"

S3, S2 = (2, 1, 1), (2, 2, 1)
_PLAYED = {}


def played(natom, xt="cscl"):
    """Played crystal in the supercell of the number of atoms."""
    if xt not in _PLAYED:
        _PLAYED[xt] = {len(p.sc): p for p in (c28.Played(xt, S3, 0.0), c28.Played(xt, S2, 0.0))}
    if natom not in _PLAYED[xt]:
        raise Bad("supercell of %d atoms" % natom)
    return _PLAYED[xt][natom]


def mix(a):
    a = np.asarray(a, dtype=float).ravel()
    return float(a @ np.cos(0.7 * np.arange(len(a)) ** 1.5 + 0.3))


def weight(ds, natom, params=None, test_size=0.1):
    """Number which depends on everything a potential is trained with."""
    from phonopy.interface.pypolymlp import PypolymlpParams, parse_mlp_params

    p = PypolymlpParams() if params is None else parse_mlp_params(params)
    x = (30 * mix(ds["displacements"]) + mix(ds["forces"]) + mix(ds["supercell_energies"]) + natom
         + 0.3 * p.cutoff + 0.1 * (p.ntrain or 0) + 5 * test_size)
    return 1 + 0.3 * np.sin(x)


class Potential:
    def __init__(self, w):
        self.w = w


def install():
    """Play the potential in phonopy's interface."""
    import phonopy.interface.mlp as M

    def develop(mlp_dataset, supercell, params=None, test_size=0.1, log_level=0):
        return Potential(weight(mlp_dataset, len(supercell), params, test_size))

    def evaluate(mlp, cells):
        e, f = [], []
        for c in cells:
            p = played(len(c), XTAL[0])
            u = p.displacement(c)
            e.append(mlp.w * p.energy(u))
            f.append(mlp.w * p.forces(u))
        return np.array(e), np.array(f), np.zeros((len(e), 6))

    def save(mlp, filename):
        Path(filename).write_text(json.dumps({"w": mlp.w}))

    def lo(filename):
        from phonopy.file_IO import get_io_module_to_decompress

        with get_io_module_to_decompress(filename).open(filename, "rt") as fp:
            return Potential(json.load(fp)["w"])

    for old, new in (("develop_mlp_by_pypolymlp", develop), ("evalulate_pypolymlp", evaluate),
                     ("save_pypolymlp", save), ("load_pypolymlp", lo)):
        if not hasattr(M, old):
            raise RuntimeError("phonopy.interface.mlp has no %s" % old)
        setattr(M, old, new)


XTAL = ["cscl"]


def data(smat, seed, n=5, xt="cscl"):
    """Training data."""
    p = played(int(np.prod(smat)) * len(c_unit(xt)), xt)
    r = np.random.default_rng(seed)
    u = r.normal(size=(n, len(p.sc), 3)) * 0.03
    return {"displacements": u, "forces": np.array([p.forces(x) for x in u]),
            "supercell_energies": np.array([p.energy(x) for x in u])}


def c_unit(xt):
    import xtal

    return xtal.unitcell(xt)


def entries(dataset):
    """[(displacement of all atoms or None, forces, energy)] of a dataset, in the order of supercells."""
    if "displacements" in dataset:
        n = len(dataset["displacements"])
        f, e = dataset.get("forces", [None] * n), dataset.get("supercell_energies", [None] * n)
        if len(f) != n or len(e) != n:
            raise Bad("%d displacements, %d forces, %d energies" % (n, len(f), len(e)))
        return list(zip(dataset["displacements"], f, e))
    nat, out = dataset["natom"], []

    def at(*xs):
        u = np.zeros((nat, 3))
        for x in xs:
            u[x["number"]] += x["displacement"]
        return u

    for x in dataset["first_atoms"]:
        out.append((at(x), x.get("forces"), x.get("supercell_energy")))
    for x in dataset["first_atoms"]:
        for y in x.get("second_atoms", []):
            out.append((at(x, y) if y.get("included", True) else None, y.get("forces"), y.get("supercell_energy")))
    return out


def judge(dataset, w, natom, what, tol=1e-9):
    """Forces of the dataset are these of the potential w (None: there are none)."""
    p = played(natom, XTAL[0])
    count = 0
    for i, (u, f, e) in enumerate(entries(dataset)):
        if u is None:
            if f is not None and abs(np.array(f)).max() > 0:
                raise Bad("%s: forces of a pair beyond the cutoff" % what)
            continue
        count += 1
        if w is None:
            if f is not None or e is not None:
                raise Bad("%s: forces or energy of a supercell which was not evaluated" % what)
            continue
        if f is None or e is None:
            raise Bad("%s: supercell %d has no forces or no energy" % (what, i))
        u = np.array(u)
        d = abs(np.array(f) - w * p.forces(u)).max()
        if not d < tol + 1e-6 * abs(p.forces(u)).max():
            raise Bad("%s: forces of supercell %d differ by %.2e" % (what, i, d))
        if abs(e - w * p.energy(u)) > 1e-7:
            raise Bad("%s: energy of supercell %d is %s, expected %s" % (what, i, e, w * p.energy(u)))
    return count


# ---------------------------------------------------------------- sequences
OPS = ("dA", "dB", "pA", "dev", "devp", "pdev", "save", "psave", "load", "pload", "g1", "gc", "gr", "pg1", "pgr", "ev",
       "pev", "none", "miss")
PRE = ([], ["dA", "dev", "g1", "ev"], ["pA", "pdev", "pg1", "pev", "dB"], ["dA", "dev", "gr", "pgr", "save"],
       ["dB", "devp", "gc", "pA", "pdev", "psave"], ["dA", "dev", "pgr", "pev", "g1"])


class Model:
    """State which the object should have."""

    def __init__(self):
        self.ds = self.pds = self.w = self.pw = None
        self.set = self.pset = False  # displacements are there
        self.f = self.pf = None  # potential the forces are from
        self.files = {}


def step(m, ph3, op, D, where):
    """One operation on the object and on the model."""
    fail = None
    k3, k2 = len(ph3.supercell), len(ph3.phonon_supercell)
    do = None
    if op in ("dA", "dB"):
        do = lambda: setattr(ph3, "mlp_dataset", D[op[1]])
        m.ds = D[op[1]]
    elif op == "pA":
        do = lambda: setattr(ph3, "phonon_mlp_dataset", D["P"])
        m.pds = D["P"]
    elif op in ("dev", "devp"):
        kw = {} if op == "dev" else dict(params={"cutoff": 6.5}, test_size=0.3)
        do = lambda: ph3.develop_mlp(**kw)
        if m.ds is None:
            fail = RuntimeError
        else:
            m.w = weight(m.ds, k3, **kw)
    elif op == "pdev":
        do = lambda: ph3.develop_phonon_mlp(params="cutoff = 5.5", test_size=0.2)
        if m.pds is None:
            fail = RuntimeError
        else:
            m.pw = weight(m.pds, k2, params="cutoff = 5.5", test_size=0.2)
    elif op in ("save", "psave"):
        fn = None if op == "save" else "p.yaml"
        do = lambda: (ph3.save_mlp if op == "save" else ph3.save_phonon_mlp)(fn)
        w = m.w if op == "save" else m.pw
        if w is None:
            fail = RuntimeError
        else:
            m.files[fn or "polymlp.yaml"] = w
    elif op in ("load", "pload", "miss"):
        fn = {"load": None, "pload": "p.yaml", "miss": "missing.yaml"}[op]
        do = lambda: (ph3.load_phonon_mlp if op == "pload" else ph3.load_mlp)(fn)
        w = m.files.get(fn or "polymlp.yaml")
        if w is None:
            fail = FileNotFoundError
        elif op == "pload":
            m.pw = w
        else:
            m.w = w
    elif op in ("g1", "gc", "gr"):
        kw = {"g1": {}, "gc": dict(cutoff_pair_distance=3.2, is_plusminus=True),
              "gr": dict(number_of_snapshots=2, random_seed=3, distance=0.02)}[op]
        do = lambda: ph3.generate_displacements(**kw)
        m.set, m.f = True, None
        m.pset = True  # displacements of fc2 are made too when there are none
    elif op in ("pg1", "pgr"):
        kw = {"pg1": {}, "pgr": dict(number_of_snapshots=3, random_seed=5, is_plusminus=True)}[op]
        do = lambda: ph3.generate_fc2_displacements(**kw)
        m.pset, m.pf = True, None
    elif op == "ev":
        do = ph3.evaluate_mlp
        if m.w is None or not m.set:
            fail = RuntimeError
        else:
            m.f = m.w
    elif op == "pev":
        do = ph3.evaluate_phonon_mlp
        if (m.w is None and m.pw is None) or not m.pset:
            fail = RuntimeError
        else:
            m.pf = m.w if m.pw is None else m.pw
    elif op == "none":
        do = lambda: setattr(ph3, "dataset", None)
        m.set, m.f = False, None
    try:
        do()
    except Bad:
        raise
    except Exception as e:
        if fail is None:
            raise Bad("%s: %s: %s" % (where, type(e).__name__, e))
        if not isinstance(e, fail):
            raise Bad("%s: %s: %s instead of %s" % (where, type(e).__name__, e, fail.__name__))
    else:
        if fail:
            raise Bad("%s: no %s" % (where, fail.__name__))


def compare(m, ph3, where):
    for name, got, w in (("mlp", ph3.mlp, m.w), ("phonon_mlp", ph3.phonon_mlp, m.pw)):
        have = None if got is None else (None if got.mlp is None else got.mlp.w)
        if (have is None) != (w is None) or (w is not None and abs(have - w) > 1e-12):
            raise Bad("%s: %s has potential %s, expected %s" % (where, name, have, w))
    for name, ds, isset, w, n in (("dataset", ph3.dataset, m.set, m.f, len(ph3.supercell)),
                                  ("phonon_dataset", ph3.phonon_dataset, m.pset, m.pf, len(ph3.phonon_supercell))):
        if (ds is not None) != isset:
            raise Bad("%s: %s is %s" % (where, name, "missing" if isset else "there"))
        if isset:
            judge(ds, w, n, "%s, %s" % (where, name))
            f = ph3.forces if name == "dataset" else ph3.phonon_forces
            if (f is None) != (w is None):
                raise Bad("%s: forces of %s: %s" % (where, name, f is not None))
    for name, got, want in (("mlp_dataset", ph3.mlp_dataset, m.ds), ("phonon_mlp_dataset", ph3.phonon_mlp_dataset, m.pds)):
        if (got is None) != (want is None):
            raise Bad("%s: %s" % (where, name))
        if want is not None:
            for k in ("displacements", "forces", "supercell_energies"):
                if not np.array_equal(got[k], want[k]):
                    raise Bad("%s: %s of %s changed" % (where, k, name))


@scratch
def run_api(case, obs):
    import xtal
    import copy

    XTAL[0] = "cscl"
    install()
    D0 = {"A": data(S3, 1), "B": data(S3, 2, 4), "P": data(S2, 3)}
    for seq in itertools.product(OPS, repeat=case["depth"]):
        if seq[0] != case["first"]:
            continue
        for f in os.listdir("."):
            os.remove(f)
        D = copy.deepcopy(D0)
        ph3 = xtal.phono3py("cscl", S3, phonon_smat=S2, with_fc=False)
        m = Model()
        done = []
        for op in list(case["pre"]) + list(seq):
            done.append(op)
            where = " ".join(done)
            step(m, ph3, op, D, where)
            obs.step()
            if len(done) > len(case["pre"]) or len(done) == len(case["pre"]):
                compare(m, ph3, where)
        for k in D:
            for x in D[k]:
                if not np.array_equal(D[k][x], D0[k][x]):
                    raise Bad("%s: data given by the user changed" % where)
        obs.state((case["pre"], seq))
    obs.outcome((case["pre"], case["first"]))


def run_refused(case, obs):
    """Incomplete data are refused and leave the earlier data."""
    import xtal

    XTAL[0] = "cscl"
    install()
    ph3 = xtal.phono3py("cscl", S3, phonon_smat=S2, with_fc=False)
    for attr, sm in (("mlp_dataset", S3), ("phonon_mlp_dataset", S2)):
        for before in (False, True):
            good = data(sm, 1)
            bads = [("list", [1, 2]), ("None", None), ("empty", {})]
            for k in good:
                bads.append(("no " + k, {x: y for x, y in good.items() if x != k}))
                bads.append(("short " + k, {x: y[:-1] if x == k else y for x, y in good.items()}))
            bads.append(("type-1", {"natom": 4, "first_atoms": []}))
            if before:
                setattr(ph3, attr, good)
            for name, ds in bads:
                try:
                    setattr(ph3, attr, ds)
                except (RuntimeError, TypeError, ValueError):
                    pass
                except Exception as e:
                    raise Bad("%s, %s: %s: %s" % (attr, name, type(e).__name__, e))
                else:
                    raise Bad("%s, %s: accepted" % (attr, name))
                got = getattr(ph3, attr)
                if got is not (good if before else None) and not (before and got == good):
                    raise Bad("%s, %s: data changed" % (attr, name))
                obs.step()
                obs.state((attr, before, name))


# ------------------------------------------------------------------ command
FILES = {"yaml": "polymlp.yaml", "xz": "polymlp.yaml.xz", "bz2": "polymlp.yaml.bz2", "bak": "polymlp.yaml.bak", "old": "phono3py.pmlp",
         "oldgz": "phono3py.pmlp.gz", "summary": "polymlp.yaml~"}
WFILE = {"yaml": 1.11, "xz": 1.23, "bz2": 1.31, "bak": 1.47, "old": 0.83, "oldgz": 0.71, "summary": 0.59}


def write_files(which):
    import bz2
    import gzip
    import lzma

    for k in which:
        fn = FILES[k]
        op = {"xz": lzma.open, "bz2": bz2.open, "oldgz": gzip.open}.get(k, open)
        with op(fn, "wt") as f:
            f.write(json.dumps({"w": WFILE[k]}))


def expected_file(which):
    for group in (("yaml", "xz", "bz2"), ("old", "oldgz")):
        have = [k for k in group if k in which]
        if have:
            return {WFILE[k] for k in have}  # of several forms of one name any may be read
    return None


def prepare(case, xt):
    """phono3py_params.yaml with training data."""
    import xtal
    from phono3py import Phono3py

    ph3 = xtal.phono3py(xt, S3, phonon_smat=S2 if case.get("fc2") else None, with_fc=False)
    ds = None
    kind = case["data"]
    if kind == "rd":
        ds = data(S3, 4, 6, xt)
        ph3.dataset = {k: v.copy() for k, v in ds.items()}
    elif kind == "noenergy":
        ds = {k: v for k, v in data(S3, 4, 6, xt).items() if k != "supercell_energies"}
        ph3.dataset = ds
    elif kind == "disp":
        ph3.generate_displacements(number_of_snapshots=3, random_seed=2)
    elif kind == "type1":
        ph3.generate_displacements()
        p = played(len(ph3.supercell), xt)
        ph3.forces = [p.forces(u) for u in ph3.displacements]
        ph3.supercell_energies = [p.energy(u) for u in ph3.displacements]
    if case.get("fc2"):
        ph3.generate_fc2_displacements()
        p = played(len(ph3.phonon_supercell), xt)
        out = []
        for s in ph3.phonon_supercells_with_displacements:
            out.append(p.forces(p.displacement(s)))
        ph3.phonon_forces = out
    ph3.save("phono3py_params.yaml")
    return ds


@scratch
def run_command(case, obs):
    import h5py

    xt = XTAL[0] = case["xt"]
    install()
    natom = int(np.prod(S3)) * len(c_unit(xt))
    ds = prepare(case, xt)
    write_files(case["files"])
    argv = ["--pypolymlp", "phono3py_params.yaml"] + case["opts"]
    if case.get("params"):
        argv += ["--mlp-params", case["params"]]
    code, out, crash = command("phono3py-load", argv)
    where = "phono3py-load %s (files %s, data %s)" % (" ".join(argv), case["files"], case["data"])
    ws = expected_file(case["files"])
    developed = False
    if ws is None:
        if case["data"] != "rd":
            if code == 0 or os.path.exists("polymlp.yaml") or os.path.exists("phono3py_mlp_eval_dataset.yaml"):
                raise Bad("%s: no potential, exit code %s, written: %s" % (where, code, sorted(os.listdir("."))))
            obs.state((sorted(case.items()), "refused"))
            obs.step()
            return
        ws = {weight(ds, natom, case.get("params"))}
        developed = True
    elif case["data"] in ("noenergy", "type1", "disp") and (code or crash):
        # data which cannot be used for training may be refused even if a potential is there
        if os.path.exists("phono3py_mlp_eval_dataset.yaml"):
            raise Bad("%s: exit code %s and forces written" % (where, code))
        obs.step()
        return
    if crash or code:
        raise Bad("%s: exit code %s, %s: %s" % (where, code, crash, out[-300:]))
    w = None
    if developed:
        (w,) = ws
        got = json.loads(Path("polymlp.yaml").read_text())["w"]
        if abs(got - w) > 1e-9:
            raise Bad("%s: polymlp.yaml has potential %s, expected %s" % (where, got, w))
    else:
        for k in case["files"]:
            import bz2
            import gzip
            import lzma

            op = {"xz": lzma.open, "bz2": bz2.open, "oldgz": gzip.open}.get(k, open)
            with op(FILES[k], "rt") as f:
                if json.load(f)["w"] != WFILE[k]:
                    raise Bad("%s: %s was overwritten" % (where, FILES[k]))
        if "yaml" not in case["files"] and os.path.exists("polymlp.yaml"):
            raise Bad("%s: polymlp.yaml was written though %s is there" % (where, case["files"]))
    obs.step()
    o = case["opts"]
    gen = "-d" in o or "--rd" in o
    fn = "phono3py_mlp_eval_dataset.yaml"
    if os.path.exists(fn) != gen:
        raise Bad("%s: %s: %s" % (where, fn, os.path.exists(fn)))
    obs.state(sorted(case.items()))
    if not gen:
        if os.path.exists("fc3.hdf5"):
            raise Bad("%s: fc3.hdf5 without displacements" % where)
        return
    ph3 = load(fn, produce_fc=False)
    # which potential: from the first forces
    p = played(natom, xt)
    ent = entries(ph3.dataset)
    u0, f0 = np.array(ent[0][0]), np.array(ent[0][1])
    w = float((f0 * p.forces(u0)).sum() / (p.forces(u0) ** 2).sum())
    if min(abs(w - x) for x in ws) > 1e-5:
        raise Bad("%s: potential %s evaluated, expected %s" % (where, w, sorted(ws)))
    w = min(ws, key=lambda x: abs(x - w))
    n = judge(ph3.dataset, w, natom, where, 1e-8)
    amp = float(o[o.index("--amplitude") + 1]) if "--amplitude" in o else 0.01
    if "--rd" in o:
        k = int(o[o.index("--rd") + 1])
        us = np.array([np.array(x[0]) for x in ent])
        if n != 2 * k or abs(us[:k] + us[k:]).max() > 1e-12 and abs(us[::2] + us[1::2]).max() > 1e-12:
            raise Bad("%s: %d supercells, expected %d pairs of opposite displacements" % (where, n, k))
        if abs(np.linalg.norm(us, axis=2) - amp).max() > 1e-8:
            raise Bad("%s: displacements are not of %s" % (where, amp))
        if "--random-seed" in o:
            import xtal

            q = xtal.phono3py(xt, S3, with_fc=False)
            q.generate_displacements(distance=amp, is_plusminus=True, number_of_snapshots=k,
                                     random_seed=int(o[o.index("--random-seed") + 1]))
            if abs(q.dataset["displacements"] - us).max() > 1e-12:
                raise Bad("%s: displacements are not these of the seed" % where)
    else:
        import xtal

        q = xtal.phono3py(xt, S3, with_fc=False)
        cut = float(o[o.index("--cutoff-pair") + 1]) if "--cutoff-pair" in o else None
        q.generate_displacements(distance=amp, is_plusminus=True, cutoff_pair_distance=cut)
        want = entries(q.dataset)
        if [x[0] is None for x in want] != [x[0] is None for x in ent] or any(
                x[0] is not None and abs(x[0] - y[0]).max() > 1e-9 for x, y in zip(want, ent)):
            raise Bad("%s: displacements are not these of the options" % where)
        # force constants are these of the potential
        with h5py.File("fc3.hdf5", "r") as f:
            fc3 = f["fc3"][:]
            p2s = f["p2s_map"][:] if "p2s_map" in f else None
        want3 = w * (p.fc3 if fc3.shape[0] == fc3.shape[1] else p.fc3[p2s])
        if cut is None and abs(fc3 - want3).max() > 2e-3 * abs(want3).max():
            raise Bad("%s: fc3 differs by %.2e of %.2e" % (where, abs(fc3 - want3).max(), abs(want3).max()))
        with h5py.File("fc2.hdf5", "r") as f:
            fc2 = f["force_constants"][:] if "force_constants" in f else f["fc2"][:]
            p2s = f["p2s_map"][:] if "p2s_map" in f else None
        p2 = played(fc2.shape[1], xt)
        if case.get("fc2") and fc2.shape[1] == natom:
            raise Bad("%s: fc2 of the supercell of fc3" % where)
        w2 = 1.0 if case.get("fc2") else w
        want2 = w2 * (p2.fc2 if fc2.shape[0] == fc2.shape[1] else p2.fc2[p2s])
        # forces of fc2 come from displacements of one kind with a cubic part
        if abs(fc2 - want2).max() > (0.05 if case.get("fc2") else 1e-3) * abs(want2).max():
            raise Bad("%s: fc2 differs by %.2e of %.2e" % (where, abs(fc2 - want2).max(), abs(want2).max()))
    obs.outcome((where, n))


# --------------------------------------------------------------- functions
@scratch
def run_functions(case, obs):
    """phono3py.load with training data, and forces of fc2 by a potential."""
    import xtal
    from phono3py.cui.create_force_constants import run_pypolymlp_to_compute_phonon_forces

    xt = XTAL[0] = "cscl"
    install()
    natom = int(np.prod(S3)) * len(c_unit(xt))
    for params, produce, have in itertools.product(
            (None, {"cutoff": 7.0}, "cutoff = 6.0, ntrain = 3, ntest = 1"), (False, True), (None, "yaml", "xz")):
        for f in os.listdir("."):
            os.remove(f)
        ds = prepare({"data": "rd"}, xt)
        if have:
            write_files([have])
        where = "load(use_pypolymlp=True, mlp_params=%s, produce_fc=%s) with %s" % (params, produce, have)
        ph3 = load("phono3py_params.yaml", use_pypolymlp=True, mlp_params=params, produce_fc=produce)
        obs.step()
        obs.state(where)
        if ph3.dataset is not None or ph3.mlp_dataset is None:
            raise Bad("%s: datasets %s %s" % (where, ph3.dataset is None, ph3.mlp_dataset is None))
        for k in ds:
            if abs(np.array(ph3.mlp_dataset[k]) - ds[k]).max() > 1e-10:
                raise Bad("%s: %s of mlp_dataset differs" % (where, k))
        w = WFILE[have] if have else weight(ds, natom, params)
        if produce:
            if ph3.mlp is None or abs(ph3.mlp.mlp.w - w) > 1e-9:
                raise Bad("%s: potential differs" % where)
            if have is None and abs(json.loads(Path("polymlp.yaml").read_text())["w"] - w) > 1e-9:
                raise Bad("%s: polymlp.yaml has another potential" % where)
        elif ph3.mlp is not None:
            raise Bad("%s: potential without produce_fc" % where)
    for own, params, dist, n, seed in itertools.product((False, True), (None, "cutoff = 5.0"), (None, 0.02), (None, 2), (None, 7)):
        ph3 = xtal.phono3py(xt, S3, phonon_smat=S2, with_fc=False)
        D, P = data(S3, 1), data(S2, 3)
        ph3.mlp_dataset = D
        ph3.develop_mlp()
        w = weight(D, natom)
        if own:
            ph3.phonon_mlp_dataset = P
            w = weight(P, len(ph3.phonon_supercell), params)
        where = "phonon forces: own %s, params %s, distance %s, snapshots %s, seed %s" % (own, params, dist, n, seed)
        run_pypolymlp_to_compute_phonon_forces(ph3, mlp_params=params, displacement_distance=dist, number_of_snapshots=n,
                                               random_seed=seed)
        obs.step()
        obs.state(where)
        judge(ph3.phonon_dataset, w, len(ph3.phonon_supercell), where)
        q = xtal.phono3py(xt, S3, phonon_smat=S2, with_fc=False)
        q.generate_fc2_displacements(distance=dist or 0.01, is_plusminus=True, number_of_snapshots=n, random_seed=seed)
        if n is None or seed is not None:
            a, b = entries(q.phonon_dataset), entries(ph3.phonon_dataset)
            if len(a) != len(b) or any(abs(x[0] - y[0]).max() > 1e-12 for x, y in zip(a, b)):
                raise Bad("%s: displacements differ" % where)
        else:
            us = np.array(ph3.phonon_dataset["displacements"])
            if len(us) != 2 * n or abs(np.linalg.norm(us, axis=2) - (dist or 0.01)).max() > 1e-9:
                raise Bad("%s: displacements %s" % (where, us.shape))
        if ph3.dataset is not None:
            raise Bad("%s: dataset of fc3 appears" % where)


# -------------------------------------------------------------------- spaces
def spaces(tier):
    full = tier != "quick"
    yield Space("sequences", [dict(pre=p, first=o, depth=3 if full else 2) for p in PRE for o in OPS], run_api,
                "all sequences of operations of the depth after each history")
    yield Space("refused", [{}], run_refused, "every single fault of the training data")
    cs = []
    subsets = [list(c) for r in range(0, 8) for c in itertools.combinations(FILES, r)]
    opts = [[], ["-d"], ["--rd", "3"], ["-d", "--cutoff-pair", "3.2"], ["-d", "--amplitude", "0.005"],
            ["--rd", "2", "--amplitude", "0.03", "--random-seed", "4"], ["--rd", "2", "--random-seed", "9"]]
    for xt in ("cscl", "p4") if full else ("cscl",):
        for f in subsets:
            if len(f) > (7 if full else 2):
                continue
            for d in ("rd", "none"):
                for o in (opts[:2] if not full else opts[:4]):
                    cs.append(dict(xt=xt, files=f, data=d, opts=o))
        for f in ([], ["yaml"], ["bak"], ["xz"]):
            for d in ("rd", "noenergy", "disp", "type1", "none"):
                for o in opts:
                    for prm in (None, "cutoff = 6.0, max_p = 2") if d == "rd" else (None,):
                        cs.append(dict(xt=xt, files=f, data=d, opts=o, params=prm))
        for o in opts:
            cs.append(dict(xt=xt, files=["yaml"], data="rd", opts=o, fc2=True))
            cs.append(dict(xt=xt, files=[], data="rd", opts=o, fc2=True))
    seen, out = set(), []
    for c in cs:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(c)
    yield Space("command", out, run_command, "files in the directory x training data x options")
    yield Space("functions", [{}], run_functions, "parameters x files; potentials x options of displacements of fc2")


if __name__ == "__main__":
    main(globals())
