"""C23: results are functions of the current settings, not of the history of an object.

After any sequence of setting, initialising and running, a calculation gives
what a new object with the current settings gives, or it is refused when a
setting made after the initialisation needs a new one.
"""
import copy
import itertools
import os
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import vcommon  # noqa: E402,F401
from vcommon import Bad, Space, main, rd  # noqa: E402

PROPERTY = "C23"
TECHNIQUE = (
    "explicit exploration of operation sequences on the real objects: all sequences of settings, initialisations and "
    "calculations to a depth are executed and every result is compared with that of a newly made object with the "
    "settings at that point"
)
LEVEL = "model_checking"
LEVEL_NOTE = (
    "bounded: operation sequences to the stated depths from fixed alphabets on one small crystal; values of the settings "
    "are two or three for each"
)
ASSUMPTIONS = ["arrays given as inputs are not altered by the caller afterwards"]
RULE = "distinct (settings, results) reached"
CWD = None


def quiet():
    sys.stdout = open(os.devnull, "w")


def flat(x):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.ravel().astype(complex)
    if x is None:
        return np.zeros(0, dtype=complex)
    if isinstance(x, dict):
        x = [x[k] for k in sorted(x)]
    if isinstance(x, (list, tuple, np.ndarray)):
        y = [flat(z) for z in x]
        return np.concatenate(y) if y else np.zeros(0, dtype=complex)
    if isinstance(x, str):
        return np.array([float(ord(c)) for c in x], dtype=complex)
    return np.array([complex(x)])


def differs(a, b, tol=1e-9):
    for k in sorted(set(a) | set(b), key=str):
        if k not in a or k not in b:
            return "%s is missing" % (k,)
        x, y = flat(a[k]), flat(b[k])
        if x.shape != y.shape:
            return "%s: shapes %s %s" % (k, x.shape, y.shape)
        if not len(x):
            continue
        s = max(abs(np.nan_to_num(y)).max(), 1e-12)
        if (np.isnan(x) != np.isnan(y)).any() or (abs(np.nan_to_num(x - y)) > tol * s).any():
            return "%s: %s instead of %s" % (k, x[np.argmax(abs(np.nan_to_num(x - y)))], y[np.argmax(abs(np.nan_to_num(x - y)))])
    return None


# ------------------------------------------------------------ Phono3py machine
X, SM = "tric2", (2, 1, 1)
_MEMO = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + a
        if k not in _MEMO:
            _MEMO[k] = f(*a)
        return _MEMO[k]

    return g


@memo
def fcs(tag):
    """Force constants: A, B (others), with sym the permutation symmetry imposed."""
    import xtal

    fc2, fc3 = (x.copy() for x in xtal.model(X, SM))
    n = np.cos(np.arange(fc2.size)).reshape(fc2.shape)
    m = np.cos(np.arange(fc3.size)).reshape(fc3.shape)
    if tag == "A":
        return fc2 + 1e-3 * n, fc3 + 1e-2 * m
    if tag == "B":
        return 1.3 * fc2 + 2e-3 * n, 0.7 * fc3 + 2e-2 * m
    raise KeyError(tag)


@memo
def nac(tag):
    if tag is None:
        return None
    z = {"N": 1.0, "M": 1.6}[tag]
    b = np.array([np.diag([1.2, 1.1, 0.9]), -np.diag([1.2, 1.1, 0.9])]) * z
    return {"born": b, "dielectric": np.diag([3.0, 3.1, 2.7]), "factor": 14.4, "method": "gonze" if tag == "N" else "wang"}


@memo
def dataset():
    import xtal

    ph3 = xtal.phono3py(X, SM, with_fc=False)
    ph3.generate_displacements(distance=0.02)
    fc2, fc3 = xtal.model(X, SM)
    d = np.array([s.positions - ph3.supercell.positions for s in ph3.supercells_with_displacements])
    ph3.forces = 1.1 * xtal.forces_of(fc2, fc3, d)
    return ph3.dataset


def copied(x):
    return copy.deepcopy(x)


MASS = {"1": None, "2": [30.0, 14.0]}
BAND = {None: None, "b": [[0, 1], [4]]}
SIG = {None: None, "s": 0.6, "t": [0.6, None]}


class Machine:
    """The real object, and the settings made so far."""

    init_level = ("mesh", "fc2", "fc3", "nac", "mass", "band", "phon")

    def __init__(self):
        self.ph3 = self.new()
        self.cur = dict(mesh="m", fc2="A", fc3="A", nac=None, mass="1", band=None, sig="s", cut=None, opt=None,
                        phon=None, ds=None)
        self.dirty = True  # not initialised with the current settings
        self.inited = False
        self.ph3.mesh_numbers = self.mesh("m")
        self.ph3.fc2, self.ph3.fc3 = (copied(x) for x in fcs("A"))
        self.ph3.sigmas = SIG["s"]

    @staticmethod
    def new():
        import xtal

        return xtal.phono3py(X, SM, with_fc=False)

    @staticmethod
    def mesh(m):
        return {"m": [3, 1, 1], "n": [2, 2, 1]}[m]

    # -- settings
    def do(self, op):
        ph3, c = self.ph3, self.cur
        name, _, v = op.partition(":")
        v = v or None
        if name == "init":
            ph3.init_phph_interaction(**self.options(v))
            c["opt"], c["phon"] = v, None
            self.dirty, self.inited = False, True
            return
        if name == "mesh":
            ph3.mesh_numbers = self.mesh(v)
            c["mesh"], c["phon"] = v, None
            self.dirty = True
        elif name == "fc":
            ph3.fc2, ph3.fc3 = (copied(x) for x in fcs(v))
            c["fc2"] = c["fc3"] = v
        elif name == "fc2":
            ph3.fc2 = copied(fcs(v)[0])
            c["fc2"] = v
        elif name == "fc3":
            ph3.fc3 = copied(fcs(v)[1])
            c["fc3"] = v
        elif name == "sym":
            ph3.set_permutation_symmetry()
            c["fc2"] += "s" * (not c["fc2"].endswith("s"))
            c["fc3"] += "s" * (not c["fc3"].endswith("s"))
        elif name == "prod":
            ph3.dataset = dataset()
            ph3.produce_fc3()
            ph3.produce_fc2()
            c["fc2"] = c["fc3"] = "P"
        elif name == "nac":
            ph3.nac_params = copied(nac(v))
            c["nac"], c["phon"] = v, None
        elif name == "mass":
            ph3.masses = MASS[v]
            c["mass"] = v
        elif name == "band":
            ph3.band_indices = BAND[v]
            c["band"] = v
        elif name == "sig":
            ph3.sigmas = SIG[v]
            c["sig"] = v
        elif name == "cut":
            ph3.sigma_cutoff = None if v is None else float(v)
            c["cut"] = v
        elif name == "phon":
            if self.inited and not self.dirty:
                f, e, g = phonons(key(dict(c, phon=None)))
                ph3.set_phonon_data(f * {"B": 1.1, "A": 1.0}[v], e, g)
                c["phon"] = v
            return
        elif name == "solve":
            try:
                ph3.run_phonon_solver()
            except RuntimeError:
                if not self.dirty:
                    raise
            return
        elif name == "disp":
            ph3.generate_displacements(distance=0.01)
            len(ph3.supercells_with_displacements)
            return
        else:
            raise KeyError(op)
        if name in self.init_level or name in ("fc", "sym", "prod"):
            self.dirty = self.dirty or name != "nac"

    @staticmethod
    def options(v):
        return {None: {}, "sym": dict(symmetrize_fc3q=True), "q": dict(nac_q_direction=[1, 0.5, 0]),
                "scale": dict(frequency_scale_factor=1.05), "ave": dict(constant_averaged_interaction=1e-10)}[v]

    def run(self, op):
        """Result, or None when the calculation is refused."""
        try:
            return calculate(self.ph3, op)
        except RuntimeError as e:
            if "init_phph_interaction" in str(e) or "re-run phonon calculation at Gamma" in str(e):
                return None
            raise


def calculate(ph3, op):
    kw = dict(temperatures=[300.0])
    if op in ("rta", "iso", "full", "lbte", "red", "ave", "wig"):
        k = {"rta": {}, "iso": dict(is_isotope=True), "full": dict(is_full_pp=True),
             "lbte": dict(is_LBTE=True), "red": dict(is_LBTE=True, is_reducible_collision_matrix=True),
             "ave": dict(use_ave_pp=True, is_full_pp=True), "wig": dict(conductivity_type="wigner")}[op]
        ph3.run_thermal_conductivity(**kw, **k)
        tc = ph3.thermal_conductivity
        out = {}
        for n in ("kappa", "kappa_TOT_RTA", "gamma", "frequencies", "group_velocities", "mode_heat_capacities",
                  "gamma_isotope", "averaged_pp_interaction", "grid_points", "sigmas", "temperatures", "mesh_numbers",
                  "kappa_RTA", "collision_matrix"):
            out[n] = getattr(tc, n, None)
        return copied(out)
    if op in ("ise", "ise0", "iseb", "isen"):
        k = {"ise": dict(grid_points=[1], num_frequency_points=3), "ise0": dict(grid_points=[0], num_frequency_points=3),
             "iseb": dict(grid_points=[1, 0], frequency_points_at_bands=True),
             "isen": dict(grid_points=[1], num_frequency_points=3, keep_gamma_detail=True)}[op]
        if op == "ise0" and False:
            raise KeyError
        return {"r": copied(ph3.run_imag_self_energy(**kw, **k))}
    if op == "rse":
        return {"r": copied(ph3.run_real_self_energy([1], num_frequency_points=3, epsilons=[0.2], **kw))}
    if op == "sf":
        ph3.run_spectral_function([1], num_frequency_points=3, **kw)
        s = ph3._spectral_function if hasattr(ph3, "_spectral_function") else None
        return {n: copied(getattr(s, n)) for n in ("spectral_functions", "shifts", "half_linewidths", "frequency_points")
                if s is not None and hasattr(s, n)}
    if op == "pho":
        ph3.run_phonon_solver()
        f, _, _ = ph3.get_phonon_data()
        return {"f": f.copy()}
    raise KeyError(op)


def key(c):
    return tuple(sorted((k, v) for k, v in c.items() if k != "ds"))


def fresh(k):
    import xtal  # noqa: F401

    c = dict(k)
    ph3 = Machine.new()
    if c["mass"] != "1":
        ph3.masses = MASS[c["mass"]]
    ph3.band_indices = BAND[c["band"]]
    ph3.nac_params = copied(nac(c["nac"]))
    fc = {}
    for o, n in enumerate(("fc2", "fc3")):
        t = c[n]
        if t.startswith("P"):
            ph3.dataset = dataset()
            p2 = ph3.fc2, ph3.fc3
            ph3.fc2 = ph3.fc3 = None
            ph3.produce_fc3()
            ph3.produce_fc2()
            fc[n] = (ph3.fc2, ph3.fc3)[o]
            ph3.fc2, ph3.fc3 = p2
        else:
            fc[n] = copied(fcs(t[0])[o])
        if t.endswith("s"):
            ph3.fc2, ph3.fc3 = (fc[n], None) if o == 0 else (None, fc[n])
            ph3.set_permutation_symmetry()
            ph3.fc2 = ph3.fc3 = None
    ph3.fc2, ph3.fc3 = fc["fc2"], fc["fc3"]
    ph3.mesh_numbers = Machine.mesh(c["mesh"])
    ph3.sigmas = SIG[c["sig"]]
    ph3.sigma_cutoff = None if c["cut"] is None else float(c["cut"])
    ph3.init_phph_interaction(**Machine.options(c["opt"]))
    if c["phon"]:
        f, e, g = phonons(key(dict(c, phon=None)))
        ph3.set_phonon_data(f * {"B": 1.1, "A": 1.0}[c["phon"]], e, g)
    return ph3


@memo
def phonons(k):
    ph3 = fresh(k)
    ph3.run_phonon_solver()
    f, e, g = ph3.get_phonon_data()
    return f.copy(), e.copy(), g.copy()


@memo
def expected(k, op):
    return calculate(fresh(k), op)


def api(c, obs):
    """All sequences of the case."""
    quiet()
    for seq in sequences(c):
        m = Machine()
        done = []
        for op in seq:
            done.append(op)
            obs.step(1)
            if op not in RUNS:
                m.do(op)
                continue
            r = m.run(op)
            k = key(m.cur)
            obs.state((k, op, m.dirty))
            if r is None:
                if not m.dirty and not refusable(done):
                    raise Bad("%s: refused" % " ".join(done), key="refused", seq=done)
                continue
            if not m.inited:
                raise Bad("%s: calculated without initialisation" % " ".join(done), key="uninitialised", seq=done)
            e = expected(k, op)
            d = differs(r, e)
            if d:
                raise Bad("%s: not the result of a new object with the same settings: %s" % (" ".join(done), d),
                          key="history", seq=done)
            obs.outcome((k, op, [rd(flat(v)) for v in r.values()]))
        obs.trace(1)


def refusable(done):
    """A refusal of a calculation is right when NAC was changed after the initialisation, or off Gamma with a direction."""
    last = max((i for i, o in enumerate(done) if o.startswith("init")), default=-1)
    if last < 0:
        return True
    if any(o.startswith("nac") for o in done[last:]):
        return True
    return done[last] == "init:q"


SETS = ("mesh:n", "fc:B", "fc2:B", "fc3:B", "sym", "prod", "nac:N", "nac:M", "nac", "mass:2", "band:b", "band", "sig", "sig:t",
        "cut:2", "phon:A", "phon:B", "solve", "disp", "mesh:m", "fc:A", "init", "init:sym", "init:q", "init:scale", "init:ave")
RUNS = ("rta", "iso", "full", "lbte", "red", "ave", "wig", "ise", "ise0", "iseb", "isen", "rse", "sf", "pho")


def sequences(c):
    if c["kind"] == "set":
        # init, a run, two settings with and without initialisation between and after, a run
        for s2 in c["s2"]:
            for r2 in c["r2"]:
                for mid, end in itertools.product((0, 1), (0, 1)):
                    if mid and (c["s1"].startswith("init")):
                        continue
                    yield ([c["i"]] + ([c["r1"]] if c["r1"] else []) + [c["s1"]] + ["init"] * mid + [s2]
                           + ["init"] * end + [r2])
    elif c["kind"] == "runs":
        for r in itertools.product(c["r"], repeat=c["depth"] - 1):
            yield list(c["pre"]) + [c["first"]] + list(r)


# --------------------------------------------------------- displacements, forces
D_X, D_SM, D_PSM = "cscl", (1, 1, 2), (1, 2, 2)


def d_new(phonon):
    import xtal

    return xtal.phono3py(D_X, D_SM, with_fc=False, phonon_smat=D_PSM if phonon else None)


def d_forces(disps, scale, smat):
    import xtal

    fc2, fc3 = xtal.model(D_X, smat)
    return scale * xtal.forces_of(fc2, fc3, np.array(disps))


def waves(n, natom, k):
    return 0.02 * np.sin(np.arange(n * natom * 3) * (k + 0.37) + k).reshape(n, natom, 3)


def d_op(ph3, op):
    """Operations on displacement datasets."""
    name, _, v = op.partition(":")
    n, m = len(ph3.supercell), len(ph3.phonon_supercell)
    if name == "gen":
        ph3.generate_displacements(**{"a": dict(distance=0.03), "b": dict(distance=0.02, cutoff_pair_distance=3.3),
                                      "c": dict(distance=0.02, is_plusminus=True, is_diagonal=False),
                                      "r": dict(number_of_snapshots=3, random_seed=7),
                                      "s": dict(number_of_snapshots=3, random_seed=8, is_plusminus=True)}[v])
    elif name == "gen2":
        ph3.generate_fc2_displacements(**{"a": dict(distance=0.01), "r": dict(number_of_snapshots=2, random_seed=5)}[v])
    elif name == "ds":
        ph3.dataset = {"n": lambda: None, "1": lambda: d_dataset("gen:a"),
                       "2": lambda: {"displacements": waves(4, n, 1), "forces": waves(4, n, 2),
                                     "supercell_energies": np.arange(4.0)},
                       "3": lambda: {"displacements": waves(5, n, 3)}}[v]()
    elif name == "pds":
        ph3.phonon_dataset = {"n": lambda: None, "2": lambda: {"displacements": waves(3, m, 1), "forces": waves(3, m, 2)},
                              "1": lambda: d_dataset("gen2:a")}[v]()
    elif name == "disp":
        ph3.displacements = waves(3, n, 5)
    elif name == "pdisp":
        ph3.phonon_displacements = waves(3, m, 6)
    elif name == "forces":
        ph3.forces = d_forces(ph3.displacements, {"1": 1.0, "2": 1.2}[v], D_SM)
    elif name == "pforces":
        ph3.phonon_forces = d_forces(ph3.phonon_displacements, {"1": 1.0, "2": 1.2}[v], D_PSM)
    elif name == "ener":
        ph3.supercell_energies = 0.5 + np.arange(float(len(ph3.displacements)))
    elif name == "mass":
        ph3.masses = [20.0, 70.0]
    elif name == "scells":
        for x in ("supercells_with_displacements", "phonon_supercells_with_displacements"):
            try:
                getattr(ph3, x)
            except Exception:
                pass
    elif name == "fc":
        ph3.produce_fc3()
    elif name == "fc2":
        ph3.produce_fc2()
    else:
        raise KeyError(op)


def d_dataset(gen):
    def f(gen):
        ph3 = d_new(True)
        d_op(ph3, gen)
        if gen.startswith("gen2"):
            d_op(ph3, "pforces:1")
            return ph3.phonon_dataset
        d_op(ph3, "forces:1")
        return ph3.dataset

    f.__name__ = "d_dataset"
    return copied(memo(f)(gen))


def d_read(ph3, fc):
    """All that can be asked for."""
    out = {}

    def cells(x):
        return None if x is None else [None if c is None else (c.positions, c.cell, c.masses, c.numbers) for c in x]

    get = {n: (lambda n=n: copied(getattr(ph3, n))) for n in
           ("displacements", "forces", "supercell_energies", "phonon_displacements", "phonon_forces",
            "phonon_supercell_energies", "masses", "fc2", "fc3")}
    get["cells"] = lambda: cells(ph3.supercells_with_displacements)
    get["pcells"] = lambda: cells(ph3.phonon_supercells_with_displacements)
    if fc:
        def made():
            ph3.produce_fc3()
            return copied((ph3.fc3, ph3.fc2))

        get["made"] = made
    for n, f in get.items():
        try:
            out[n] = f()
        except Exception as e:
            out[n] = "error " + type(e).__name__
    return out


class Record:
    """Shortest history which gives the same settings."""

    def __init__(self, phonon):
        self.phonon = phonon
        self.ds, self.pds, self.mass, self.fc, self.fc2 = (), (), (), (), ()

    def next(self, op):
        """The state after the operation, None when the operation is not possible or its outcome is not defined."""
        r = copy.copy(self)
        name, _, v = op.partition(":")
        t1 = bool(self.ds) and self.ds[0] in ("gen:a", "gen:b", "gen:c", "ds:1")
        p1 = bool(self.pds) and (self.pds[0].startswith("gen:") or self.pds[0] in ("gen2:a", "pds:1"))
        has_f = any(o.startswith(("forces", "ds:1", "ds:2")) for o in self.ds)
        if name == "gen":
            r.ds = (op,)
            if self.phonon and not self.pds:
                r.pds = (op,)
        elif name == "gen2":
            r.pds = (op,)
        elif name == "ds":
            r.ds = () if v == "n" else (op,)
        elif name == "pds":
            if not self.phonon and v == "2":
                return None
            r.pds = () if v == "n" else (op,)
        elif name == "disp":
            if t1 or len(self.ds) > 1 or has_f:
                return None
            r.ds = (op,)
        elif name == "pdisp":
            if not self.phonon or p1 or len(self.pds) > 1 or "pds:2" in self.pds:
                return None
            r.pds = (op,)
        elif name in ("forces", "ener"):
            if not self.ds:
                return None
            r.ds = tuple(o for o in self.ds if not o.startswith(name)) + (op,)
            r.ds = r.ds[:1] + tuple(sorted(r.ds[1:]))
        elif name == "pforces":
            if not self.pds or not self.phonon:
                return None
            r.pds = tuple(o for o in self.pds if not o.startswith(name)) + (op,)
        elif name == "mass":
            r.mass = (op,)
        elif name == "fc":
            if not t1 or not has_f or "gen:b" in self.ds:
                return None
            r.fc = (self.ds,)
            if not self.phonon and not self.fc2:
                r.fc2 = ("fc", self.ds)
        elif name == "fc2":
            pf = any(o.startswith(("pforces", "pds")) for o in self.pds)
            if self.phonon:
                if not p1 or not pf:
                    return None
                r.fc2 = ("fc2", self.pds)
            else:
                if self.pds or not t1 or not has_f:
                    return None
                r.fc2 = ("fc2", self.ds)
        elif name != "scells":
            raise KeyError(op)
        return r

    def key(self):
        return self.phonon, self.ds, self.pds, self.mass, self.fc, self.fc2


@memo
def d_expected(phonon, ds, pds, mass, fc, fc2, made):
    ph3 = d_new(phonon)

    def put(ops, p):
        for o in ops:
            d_op(ph3, o)
        if p and ops and ops[0].startswith("gen:"):
            pass

    # phonon dataset made with generate_displacements
    def put_p(ops):
        if ops and ops[0].startswith("gen:"):
            other = d_new(phonon)
            d_op(other, ops[0])
            ph3.phonon_dataset = other.phonon_dataset
            ops = ops[1:]
        put(ops, True)

    if fc:
        put(fc[0], False)
        ph3.produce_fc3()
        ph3.fc2 = None
    if fc2:
        if fc2[0] == "fc":
            ph3.dataset = None
            put(fc2[1], False)
            keep = ph3.fc3
            ph3.produce_fc3()
            ph3.fc3 = keep
        elif phonon:
            put_p(fc2[1])
            ph3.produce_fc2()
        else:
            ph3.dataset = None
            put(fc2[1], False)
            ph3.produce_fc2()
    ph3.dataset = None
    ph3.phonon_dataset = None
    put_p(pds)
    put(ds, False)
    if not pds:
        ph3.phonon_dataset = None
    put(mass, False)
    return d_read(ph3, made)


D_OPS = ("gen:a", "gen:b", "gen:c", "gen:r", "gen:s", "gen2:a", "gen2:r", "ds:n", "ds:1", "ds:2", "ds:3", "pds:n", "pds:1", "pds:2",
         "disp", "pdisp", "forces:1", "forces:2", "pforces:1", "pforces:2", "ener", "mass", "scells", "fc", "fc2")


def datasets(c, obs):
    """All sequences which go on from those of the case to the depth."""
    quiet()

    def made(r):
        return bool(r.ds) and r.ds[0] in ("gen:a", "gen:c", "ds:1") and any(o.startswith(("forces", "ds:1")) for o in r.ds)

    def visit(seq, rec):
        ph3 = d_new(c["phonon"])
        for o in seq:
            d_op(ph3, o)
            obs.step(1)
        with_fc = c["made"] and made(rec)
        k = rec.key() + (with_fc,)
        r = d_read(ph3, with_fc)
        e = d_expected(*k)
        for n in e:
            if isinstance(e[n], str) or isinstance(r[n], str):
                if str(e[n]) != str(r[n]):
                    raise Bad("%s: %s is %.100s instead of %.100s" % (" ".join(seq), n, r[n], e[n]), key=n, seq=seq)
        d = differs(r, e, 1e-10)
        if d:
            raise Bad("%s: not as in a new object with the same datasets: %s" % (" ".join(seq), d), key=d.split(":")[0], seq=seq)
        obs.state(k)
        obs.trace(1)
        obs.outcome([(n, rd(flat(e[n]).real)) for n in e if not isinstance(e[n], str)])
        if len(seq) < c["depth"]:
            for o in D_OPS:
                nxt = rec.next(o)
                if nxt is not None:
                    visit(seq + [o], nxt)

    rec = Record(c["phonon"])
    for o in c["pre"]:
        rec = rec.next(o)
        if rec is None:
            return
    visit(list(c["pre"]), rec)


# --------------------------------------------------------- smaller objects
def _x(c):
    import xtal

    return xtal.phono3py(c["xtal"], tuple(c["smat"]), nac=c.get("nac"))


@memo
def _inter_key(x, sm, mesh, nacm):
    return None


def interaction(c):
    ph3 = _x(c)
    ph3.mesh_numbers = c["mesh"]
    ph3.init_phph_interaction()
    ph3.run_phonon_solver()
    return ph3.phph_interaction


def ise_steps(ise, old, new):
    """Steps from one setting to another; only what changed is given again."""
    ch = {k for k in new if old is None or old[k] != new[k]}
    if "gp" in ch:
        ise.set_grid_point(new["gp"])
    if ch & {"sigma", "cut"}:
        ise.set_sigma(new["sigma"], sigma_cutoff=new["cut"])
    if "fp" in ch:
        ise.frequency_points = new["fp"]
    if ch & {"gp", "sigma", "cut", "fp", "cls"}:
        ise.run_integration_weights(scattering_event_class=new["cls"])
    if not new["full"] and ch & {"gp", "sigma", "cut", "fp", "full"} or "full" in ch:
        ise.run_interaction(is_full_pp=new["full"])
    if "t" in ch:
        ise.temperature = new["t"]
    ise.run()
    return {"ise": ise.imag_self_energy.copy()}


def rse_steps(r, old, new):
    ch = {k for k in new if old is None or old[k] != new[k]}
    if "gp" in ch:
        r.grid_point = new["gp"]
    if "eps" in ch:
        r.epsilon = new["eps"]
    if "t" in ch:
        r.temperature = new["t"]
    if "fp" in ch:
        r.frequency_points = new["fp"]
    r.run()
    return {"rse": r.real_self_energy.copy()}


def jd_steps(j, old, new):
    if old is None or old["mesh"] != new["mesh"]:
        j.initialize(new["mesh"])
    j.num_frequency_points_in_batch = new["batch"]
    j.run(new["gps"])
    return {"jdos": j.joint_dos.copy(), "f": j.frequency_points.copy()}


def iso_steps(i, old, new):
    ph3 = _x(dict(xtal="zb", smat=(2, 2, 2), nac="gonze"))
    if old is None or old["fc"] != new["fc"]:
        i.init_dynamical_matrix(ph3.fc2 * new["fc"], ph3.phonon_supercell, ph3.phonon_primitive,
                                nac_params=ph3.nac_params if new["fc"] == 1 else None)
    i.run(new["gps"])
    return {"g": np.array(i.gamma), "f": i.frequencies.copy()}


def gru_steps(g, old, new):
    if new["kind"] == "mesh":
        g.set_sampling_mesh(new["v"], is_gamma_center=True)
    else:
        g.set_band_structure([np.array([[0, 0, 0.1 * k + 0.05], [0.1, 0.2, 0.1 * k]]) for k in range(new["v"])])
    g.run()
    return {"g": flat(g.get_gruneisen_parameters())}


def objects(c, obs):
    """A calculation after another one with other settings equals that of a new object."""
    quiet()
    kind = c["obj"]
    new, steps = {
        "ise": (lambda p: __import__("phono3py.phonon3.imag_self_energy", fromlist=["x"]).ImagSelfEnergy(p), ise_steps),
        "rse": (lambda p: __import__("phono3py.phonon3.real_self_energy", fromlist=["x"]).RealSelfEnergy(p), rse_steps),
        "jdos": (lambda p: _jdos(c), jd_steps),
        "iso": (lambda p: _iso(c), iso_steps),
        "gru": (lambda p: _gru(c), gru_steps),
    }[kind]

    def parent():
        return interaction(c) if kind in ("ise", "rse") else None

    confs = [dict(zip(c["opts"], v)) for v in itertools.product(*c["opts"].values())]
    ref = []
    for x in confs:
        ref.append(steps(new(parent()), None, x))
        obs.state((kind, x))
        obs.outcome([rd(v) for v in ref[-1].values()])
    n = len(confs)
    for a in range(n):
        if a % c["parts"] != c["part"]:
            continue
        for b in range(n):
            o = new(parent()) if kind not in ("ise", "rse") or b == 0 else o  # noqa: F821
            seq = [a, b] if kind not in ("ise", "rse") else [a, b]
            old = None
            if kind in ("ise", "rse") and b > 0:
                old = last  # noqa: F821
            for i in seq:
                r = steps(o, old, confs[i])
                obs.step(1)
                d = differs(r, ref[i])
                if d:
                    raise Bad("%s: %s after %s is not that of a new object: %s" % (kind, confs[i], old, d), key=kind)
                old = confs[i]
            last = old
            obs.trace(1)


def _jdos(c):
    from phono3py import Phono3pyJointDos

    ph3 = _x(c)
    return Phono3pyJointDos(ph3.phonon_supercell, ph3.phonon_primitive, ph3.fc2, nac_params=ph3.nac_params,
                            nac_q_direction=c.get("q"), sigmas=c["sigmas"], num_frequency_points=4,
                            temperatures=c.get("ts"))


def _iso(c):
    from phono3py import Phono3pyIsotope

    ph3 = _x(c)
    return Phono3pyIsotope(c["mesh"], ph3.primitive, mass_variances=[1e-3, 2e-3], sigmas=c["sigmas"])


def _gru(c):
    from phono3py.phonon3.gruneisen import Gruneisen

    ph3 = _x(c)
    return Gruneisen(ph3.fc2, ph3.fc3, ph3.supercell, ph3.primitive, nac_params=ph3.nac_params)


# --------------------------------------------------------- inputs, other objects
def content(x):
    from phonopy.structure.atoms import PhonopyAtoms

    if isinstance(x, PhonopyAtoms):
        return [x.cell.tolist(), x.scaled_positions.tolist(), list(x.symbols), x.masses.tolist()]
    if isinstance(x, np.ndarray):
        return [x.dtype.str, x.shape, x.tolist()]
    if isinstance(x, dict):
        return {str(k): content(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [content(v) for v in x]
    return x


def inputs(c, obs):
    """Two objects made with the same inputs, used in turns; what was given is not altered."""
    import xtal
    from phono3py import Phono3py

    quiet()
    given = {"cell": xtal.unitcell(X), "smat": np.diag(SM), "pmat": np.eye(3), "fc2": fcs("A")[0].copy(), "fc3": fcs("A")[1].copy(),
             "nac": copied(nac("N")), "mesh": np.array([3, 1, 1]), "sigmas": [0.6], "bands": [[0, 1], [4]], "ts": [300.0],
             "ds": copied(dataset()), "mass": np.array([30.0, 14.0]), "gps": np.array([1, 0]), "fp": np.array([0.0, 4.0, 8.0]),
             "q": np.array([1.0, 0.5, 0.0]), "eps": [0.2]}
    before = content(given)

    def make(mass):
        p = Phono3py(given["cell"], supercell_matrix=given["smat"], primitive_matrix=given["pmat"], log_level=0)
        if mass:
            p.masses = given["mass"]
        p.mesh_numbers = given["mesh"]
        p.sigmas = given["sigmas"]
        p.band_indices = given["bands"]
        p.dataset = given["ds"]
        p.nac_params = given["nac"]
        p.fc2, p.fc3 = given["fc2"], given["fc3"]
        return p

    def act(p, o):
        if o == "init":
            p.init_phph_interaction()
        elif o == "initq":
            p.init_phph_interaction(nac_q_direction=given["q"])
        elif o == "initsym":
            p.init_phph_interaction(symmetrize_fc3q=True)
        elif o == "rta":
            p.run_thermal_conductivity(temperatures=given["ts"])
            return {"k": p.thermal_conductivity.kappa.copy()}
        elif o == "lbte":
            p.run_thermal_conductivity(temperatures=given["ts"], is_LBTE=True)
            return {"k": p.thermal_conductivity.kappa.copy()}
        elif o == "ise":
            return {"r": copied(p.run_imag_self_energy(given["gps"], given["ts"], frequency_points=given["fp"]))}
        elif o == "ise0":
            return {"r": copied(p.run_imag_self_energy(given["gps"][1:], given["ts"], frequency_points=given["fp"]))}
        elif o == "rse":
            return {"r": copied(p.run_real_self_energy(given["gps"], given["ts"], frequency_points=given["fp"],
                                                       epsilons=given["eps"]))}
        elif o == "sf":
            p.run_spectral_function(given["gps"], given["ts"], frequency_points=given["fp"])
        elif o == "cells":
            return {"m": np.array([s.masses for s in p.supercells_with_displacements if s is not None])}
        elif o == "new":
            return {"m": [p.masses, p.supercell.masses, p.unitcell.masses]}
        elif o == "save":
            p.save("x.yaml")
            text = Path("x.yaml").read_text()
            os.unlink("x.yaml")
            return {"y": text}
        return None

    plan = [(int(s[0]), s[1:]) for s in c["plan"]]
    want = {}
    for who in (0, 1):
        own = {k: copied(v) for k, v in given.items()}
        shared, given = given, own
        p = make(who)
        want[who] = [act(p, o) for w, o in plan if w == who]
        given = shared
    objs = {}
    got = {0: [], 1: []}
    for who, o in plan:
        if who not in objs:
            objs[who] = make(who)
        got[who].append(act(objs[who], o))
        obs.step(1)
        obs.state((tuple(c["plan"]), who, o))
        now = content(given)
        for k in before:
            if now[k] != before[k]:
                raise Bad("%s: input %s was altered" % (" ".join(c["plan"]), k), key="input-" + k)
    for who in objs:
        for a, b, o in zip(got[who], want[who], [o for w, o in plan if w == who]):
            if a is None:
                continue
            d = differs(a, b)
            if d:
                raise Bad("%s: result of %s is changed by another object: %s" % (" ".join(c["plan"]), o, d), key="object")
            obs.outcome(repr(sorted((k, rd(flat(v).real)) for k, v in b.items())))


def spaces(tier):
    q = tier == "quick"
    r1 = (None, "rta", "ise") if q else (None, "rta", "ise", "iseb", "rse", "lbte", "sf", "pho")
    r2 = ("rta", "ise") if q else ("rta", "ise", "rse", "lbte", "sf", "iso")
    ini = ("init",) if q else ("init", "init:sym", "init:q")
    cs = [dict(kind="set", i=i, r1=a, s1=s, s2=SETS[k::4], r2=r2) for i in ini for a in r1 for s in SETS for k in range(4)]
    yield Space("settings", cs, api, bound="2 settings of %d, with and without initialisation, runs %s then %s"
                % (len(SETS), r1, r2))
    rr = ("rta", "full", "lbte", "ave", "ise", "ise0", "iseb", "isen", "rse", "sf", "iso", "pho", "red", "wig")
    d = 2 if q else 3
    pres = [["init"], ["nac:N", "init"], ["band:b", "init"]]
    if not q:
        pres += [["sig:t", "init"], ["nac:N", "init:q"], ["nac:N", "init:sym"], ["init", "phon:B"]]
    cs = [dict(kind="runs", pre=p, first=f, r=rr if p[-1] != "init:q" else ("ise0", "pho", "ise"), depth=d)
          for p in pres for f in rr if p[-1] != "init:q" or f in ("ise0", "pho", "ise")]
    yield Space("calculations", cs, api, bound="sequences of %d calculations of %d" % (d, len(rr)))

    dep = 3 if q else 4
    cs = [dict(pre=[a], phonon=p, depth=1, made=True) for a in D_OPS for p in (False, True)]
    cs += [dict(pre=[a, b], phonon=p, depth=dep, made=not q or a.startswith(("forces", "ds:1", "gen:a")))
           for a in D_OPS for b in D_OPS for p in (False, True)]
    yield Space("datasets", cs, datasets, bound="sequences to %d of %d operations on datasets" % (dep, len(D_OPS)), chunk=4)

    fp = [1.0, 6.0]
    zb = dict(xtal="zb", smat=[2, 2, 2], mesh=[2, 2, 2], nac="gonze")
    tr = dict(xtal="tric2", smat=[2, 1, 1], mesh=[3, 1, 1])
    cs = []
    for m, gps in ((zb, [0, 1, 3]), (tr, [0, 1])):
        cs += [dict(m, obj="ise", parts=8, part=k, opts=dict(gp=gps, sigma=[None, 0.5], cut=[None, 2.0], fp=[None, fp], cls=[None, 2],
                                                             full=[True, False], t=[300.0])) for k in range(8)]
        cs += [dict(m, obj="rse", parts=2, part=k, opts=dict(gp=gps, eps=[0.1, 0.3], fp=[None, fp], t=[0.0, 300.0])) for k in range(2)]
    for x in (dict(sigmas=[None, 0.5]), dict(sigmas=[0.5], ts=[300.0]), dict(sigmas=[None], q=[1, 0.3, 0])):
        cs.append(dict(zb, obj="jdos", parts=1, part=0, opts=dict(mesh=[[2, 2, 2], [3, 3, 3]], batch=[None, 3],
                                                                  gps=[[0], [1], [0, 1], [1, 0]]), **x))
    cs.append(dict(zb, obj="iso", parts=1, part=0, sigmas=[None, 0.5], opts=dict(fc=[1, 1.3], gps=[[0], [1], [0, 3]])))
    cs.append(dict(zb, obj="gru", parts=1, part=0, opts=dict(kind=["mesh"], v=[[2, 2, 2], [3, 1, 1]])))
    cs.append(dict(zb, obj="gru", parts=1, part=0, opts=dict(kind=["band"], v=[1, 3])))
    yield Space("objects", cs, objects, bound="all ordered pairs of settings of the classes of calculations")

    acts = ("init", "rta", "ise", "rse", "lbte", "sf", "cells", "new", "save", "initq", "initsym")
    cs = []
    for a, b in itertools.product(acts, repeat=2):
        for swap in (0, 1):
            p = ["0init", "1init", "0" + a, "1" + b] if not swap else ["1init", "0init", "1" + a, "0" + b]
            tail = [x for w in (p[2][0], p[3][0]) for x in ([w + "ise0"] if "initq" in (a, b) else [w + "rta", w + "cells"])]
            if a == "initq" and b in ("rta", "rse", "lbte", "sf"):
                continue
            cs.append(dict(plan=p + tail))
    yield Space("inputs", cs, inputs, bound="two objects with shared inputs, all pairs of %d operations" % len(acts))


if __name__ == "__main__":
    main(globals())
