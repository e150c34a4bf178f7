"""C28: displaced structures written for a calculator, and forces collected from its output.

collect  for every calculator, crystal and combination of displacement options the
         structure files are written with the real command, a calculator is played
         (forces of a model crystal at the atomic positions found in the files,
         with residual forces, a drift and an energy) and its outputs are collected
         with every combination of command, list or file of names, subtraction
         of residual forces, output files and order of collection: each force set
         is found again with the displacements it belongs to
faults   outputs dropped, added, swapped, broken, of another supercell: refused
         and no file of force sets is left
convert  FORCE_SETS and FORCES_FC2 made from each other
"""

import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
from vcommon import Bad, Space, main

PROPERTY = "C28"
TECHNIQUE = (
    "exhaustive enumeration on the real commands: all combinations of displacement options with a calculator played by a "
    "model crystal, all combinations of collection options, and all single faults in the list of outputs; force sets "
    "collected are compared with the model at each displaced structure"
)
LEVEL = "model_checking"
LEVEL_NOTE = (
    "bounded: five of the calculators (VASP, QE, Abinit, TURBOMOLE, WIEN2k), small supercells of three crystals, one "
    "fault at a time; the parsers of calculator outputs belong to phonopy and are taken as they are"
)

CTRL = {"phono3py": {}, "phono3py-load": {"fc_symmetry": True, "is_nac": True, "load_phono3py_yaml": True}}
REFUSALS = (RuntimeError, ValueError, NotImplementedError, FileNotFoundError, OSError)


# ------------------------------------------------------------------ commands
def command(cmd, argv):
    """(exit code, output, internal error)."""
    from phono3py.cui.phono3py_script import main as cmain

    old = sys.argv
    sys.argv = [cmd] + argv
    out = io.StringIO()
    code, crash = 0, None
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            warnings.simplefilter("ignore")
            try:
                cmain(**CTRL[cmd])
            except SystemExit as e:
                code = e.code or 0
            except REFUSALS as e:
                code = 1
                out.write("%s: %s" % (type(e).__name__, e))
            except Exception as e:
                code = 2
                crash = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = old
    return code, out.getvalue(), crash


# --------------------------------------------------------------- calculators
def rows(a, f="%22.16f"):
    return "".join("  " + " ".join(f % x for x in r) + "\n" for r in a)


class Vasp:
    name, flag, distance, drift, energies, points = "vasp", [], 0.03, False, True, True
    structure = "POSCAR-%05d"
    structure_fc2 = "POSCAR_FC2-%05d"

    def unitcell(self, cell):
        from phonopy.interface.vasp import write_vasp

        write_vasp("unit.in", cell)

    def read(self, fn):
        from phonopy.interface.vasp import read_vasp

        return read_vasp(fn)

    def write(self, fn, cell, forces, energy):
        steps = ""
        for k, s in enumerate((0.5, 1.0)):  # two ionic steps, the last counts
            steps += (
                "<calculation><scstep><energy><i name=\"e_fr_energy\">1.0</i></energy></scstep>"
                "<structure><crystal><varray name=\"basis\">%s</varray></crystal>"
                "<varray name=\"positions\">%s</varray></structure>"
                "<varray name=\"forces\">%s</varray>"
                "<energy><i name=\"e_fr_energy\">%.10f</i><i name=\"e_wo_entrp\">%.10f</i><i name=\"e_0_energy\">0.0</i>"
                "</energy></calculation>"
            ) % (
                "".join("<v>%s</v>" % r for r in rows(cell.cell).strip("\n").split("\n")),
                "".join("<v>%s</v>" % r for r in rows(cell.scaled_positions).strip("\n").split("\n")),
                "".join("<v>%s</v>" % r for r in rows(forces * s).strip("\n").split("\n")),
                energy - 1, energy * s,
            )
        Path(fn).write_text('<?xml version="1.0"?>\n<modeling>\n<generator>\n'
                            '<i name="version" type="string">6.3.0 </i>\n</generator>\n%s</modeling>' % steps)


class Qe:
    name, flag, distance, drift, energies, points = "qe", ["--qe"], 0.06, True, False, False
    structure = "supercell-%05d.in"
    structure_fc2 = "supercell_fc2-%05d.in"

    def unitcell(self, cell):
        from phonopy.interface.qe import write_pwscf

        n = len(cell)
        s = sorted(set(cell.symbols))
        text = "&control\n /\n&system\n ibrav = 0\n nat = %d\n ntyp = %d\n /\n&electrons\n /\n" % (n, len(s))
        text += "ATOMIC_SPECIES\n" + "".join("%s %f %s.pp\n" % (x, 10.0, x) for x in s)
        text += "ATOMIC_POSITIONS crystal\n" + "".join(
            "%s %s\n" % (x, " ".join("%.16f" % y for y in p)) for x, p in zip(cell.symbols, cell.scaled_positions))
        text += "CELL_PARAMETERS bohr\n" + rows(cell.cell) + "K_POINTS automatic\n1 1 1 0 0 0\n"
        Path("unit.in").write_text(text)

    def read(self, fn):
        """Files written are parts of inputs, without ATOMIC_SPECIES of the system."""
        from phonopy.structure.atoms import PhonopyAtoms

        lines = Path(fn).read_text().split("\n")
        i = [k for k, x in enumerate(lines) if x.startswith("CELL_PARAMETERS")][0]
        if "bohr" not in lines[i]:
            raise Bad("unit of %s: %s" % (fn, lines[i]))
        lat = [[float(y) for y in x.split()] for x in lines[i + 1:i + 4]]
        i = [k for k, x in enumerate(lines) if x.startswith("ATOMIC_POSITIONS")][0]
        if "crystal" not in lines[i]:
            raise Bad("coordinates of %s: %s" % (fn, lines[i]))
        sym, pos = [], []
        for x in lines[i + 1:]:
            if not x.strip():
                break
            sym.append(x.split()[0])
            pos.append([float(y) for y in x.split()[1:4]])
        return PhonopyAtoms(symbols=sym, cell=lat, scaled_positions=pos)

    def write(self, fn, cell, forces, energy):
        text = "     Program PWSCF\n"
        for s in (0.5, 1.0):
            text += "     Forces acting on atoms (cartesian axes, Ry/au):\n\n"
            for i, f in enumerate(forces * s):
                text += "     atom %4d type  1   force = %s\n" % (i + 1, " ".join("%18.12f" % x for x in f))
            text += "\n     Total force = 0.0\n"
        Path(fn).write_text(text)


class Abinit:
    name, flag, distance, drift, energies, points = "abinit", ["--abinit"], 0.06, True, False, False
    structure = "supercell-%05d.in"
    structure_fc2 = "supercell_fc2-%05d.in"

    def unitcell(self, cell):
        from phonopy.interface.abinit import write_abinit

        write_abinit("unit.in", cell)

    def read(self, fn):
        from phonopy.interface.abinit import read_abinit

        return read_abinit(fn)

    def write(self, fn, cell, forces, energy):
        text = " cartesian forces (eV/Angstrom) at end:\n"
        for i, f in enumerate(forces):
            text += " %4d %s\n" % (i + 1, " ".join("%20.14f" % x for x in f))
        Path(fn).write_text(text)


class Turbomole:
    name, flag, distance, drift, energies, points = "turbomole", ["--turbomole"], 0.06, True, False, False
    structure = "supercell-%05d"
    structure_fc2 = "supercell_fc2-%05d"

    def unitcell(self, cell):
        from phonopy.interface.turbomole import write_turbomole

        write_turbomole("unit", cell)
        # the reader looks for coord where it stands
        shutil.move("unit/control", "unit.in")
        shutil.move("unit/coord", "coord")

    def read(self, fn):
        from phonopy.interface.turbomole import read_turbomole

        cwd = os.getcwd()
        os.chdir(fn)
        try:
            return read_turbomole("control")
        finally:
            os.chdir(cwd)

    def write(self, fn, cell, forces, energy):
        os.makedirs(fn, exist_ok=True)
        text = "$grad          cartesian gradients\n  cycle =      1    SCF energy = -1.0   |dE/dxyz| =  0.0\n"
        text += rows(cell.positions)
        text += "".join("  " + " ".join(("%24.14E" % -x).replace("E", "D") for x in f) + "\n" for f in forces)
        Path(fn, "gradient").write_text(text + "$end\n")


class Wien2k:
    """Only force sets of fc3, without subtraction, are collected for it."""

    name, flag, distance, drift, energies, points = "wien2k", ["--wien2k"], 0.03, True, False, False
    structure = "unit.inS-%05d.in"
    structure_fc2 = None

    def unitcell(self, cell):
        from phonopy.interface.wien2k import write_wein2k

        n = len(cell)
        write_wein2k("unit.in", cell, [781] * n, [1e-5] * n, [2.0] * n)

    def read(self, fn):
        from phonopy.interface.wien2k import parse_wien2k_struct

        return parse_wien2k_struct(fn)[0]

    def write(self, fn, cell, forces, energy, sites=None):
        """Independent atoms only (those of ``sites``)."""
        text = ""
        uv = cell.cell / np.linalg.norm(cell.cell, axis=1)[:, None]
        sites = range(len(cell)) if sites is None else sites
        for k, i in enumerate(sites):
            p = cell.scaled_positions[i] % 1
            text += "%-27s%s  MULTIPLICITY =  1\n" % (
                ":POS%03d: ATOM %4d  X,Y,Z =" % (k + 1, -(i + 1)), " ".join("%7.5f" % x for x in p))
        for k, i in enumerate(sites):
            f = forces[i] @ np.linalg.inv(uv)
            text += ":FGL%03d:%s%s total forces\n" % (k + 1, " " * 21, "".join("%16.9f" % x for x in f))
        Path(fn).write_text(text)


# units of length [Angstrom] and force [eV/Angstrom] to which data are converted when loaded
BOHR, RY = 0.529177210903, 13.605693122994
UNITS = {"vasp": (1.0, 1.0), "qe": (BOHR, RY / BOHR), "abinit": (BOHR, 1.0), "turbomole": (BOHR, 2 * RY / BOHR),
         "wien2k": (BOHR, RY / BOHR / 1000)}
CALCS = {c.name: c for c in (Vasp(), Qe(), Abinit(), Turbomole(), Wien2k())}


# ------------------------------------------------------------ played crystal
class Played:
    """Forces and energy at atomic positions of a supercell."""

    def __init__(self, xt, smat, residual):
        import xtal
        from phonopy.structure.cells import get_supercell

        self.sc = get_supercell(xtal.unitcell(xt), np.diag(smat))
        self.fc2, self.fc3 = xtal.model(xt, tuple(smat))
        n = len(self.sc)
        r = np.array([[np.sin(1.3 * i + 2.1 * c + 0.2) for c in range(3)] for i in range(n)]) * residual
        self.r = r - r.mean(axis=0)

    def displacement(self, cell):
        if len(cell) != len(self.sc) or list(cell.symbols) != list(self.sc.symbols):
            raise Bad("atoms of a structure file: %s, expected %s" % (cell.symbols, self.sc.symbols))
        if abs(cell.cell - self.sc.cell).max() > 1e-6:
            raise Bad("basis vectors of a structure file: %s, expected %s" % (cell.cell, self.sc.cell))
        d = cell.scaled_positions - self.sc.scaled_positions
        d -= np.rint(d)
        return d @ self.sc.cell

    def forces(self, u):
        import xtal

        return xtal.forces_of(self.fc2, self.fc3, u[None])[0] + self.r

    def energy(self, u):
        return -20.0 + float((u * self.fc2.transpose(0, 2, 1, 3).reshape(u.size, -1).dot(u.ravel()).reshape(u.shape)).sum())


def structures(yml, which):
    """{id: displacement} of the structures which phono3py_disp.yaml lists."""
    sc = yml["supercell" if which == "fc3" else "phonon_supercell"]
    n = len(sc["points"])
    out = {}
    if which == "fc3":
        d, d2 = yml.get("displacement_pairs"), yml.get("dataset")
    else:
        d, d2 = yml.get("phonon_displacements"), yml.get("phonon_dataset")
    if (d is None) == (d2 is None):
        raise Bad("displacements of %s in phono3py_disp.yaml: %s, %s" % (which, d, d2))
    if d2 is not None:  # type 2: all atoms of each structure
        for i, x in enumerate(d2["displacements"]):
            out[i + 1] = np.array(x, dtype=float)
        return out, True
    count = 0
    for x in d:
        count += 1
        u = np.zeros((n, 3))
        u[x["atom"] - 1] = x["displacement"]
        i = x.get("displacement_id", count)
        out[i] = u
    for x in d:
        for y in x.get("paired_with", []):
            for k, v in zip(y["displacement_ids"], y["displacements"]):
                if not y.get("included", True):
                    continue
                u = np.zeros((n, 3))
                u[x["atom"] - 1] = x["displacement"]
                u[y["atom"] - 1] += v
                out[k] = u
    return out, False


def flat(dataset, natom):
    """[(displacement, forces, energy)] of a dataset of Phono3py, in the order of structures."""
    if "displacements" in dataset:
        f = dataset.get("forces")
        e = dataset.get("supercell_energies")
        if f is None or len(f) != len(dataset["displacements"]):
            raise Bad("dataset has %s forces of %d displacements" % (None if f is None else len(f),
                                                                   len(dataset["displacements"])))
        return [(np.array(u), np.array(x), None if e is None else e[i])
                for i, (u, x) in enumerate(zip(dataset["displacements"], f))]
    out = []
    for x in dataset["first_atoms"]:
        u = np.zeros((natom, 3))
        u[x["number"]] = x["displacement"]
        out.append((u, x["forces"], x.get("supercell_energy")))
    for x in dataset["first_atoms"]:
        for y in x.get("second_atoms", []):
            if not y.get("included", True):
                if "forces" in y and abs(np.array(y["forces"])).max() > 0:
                    raise Bad("forces of a pair beyond the cutoff: %s" % y["forces"])
                continue
            u = np.zeros((natom, 3))
            u[x["number"]] = x["displacement"]
            u[y["number"]] += y["displacement"]
            out.append((u, y["forces"], y.get("supercell_energy")))
    return out


# --------------------------------------------------------------------- cases
XT = {"cscl": ((2, 1, 1), (2, 2, 1)), "p4": ((1, 1, 1), (2, 1, 1)), "tric2": ((1, 1, 1), (2, 1, 1))}
GENS = {
    "d": ["-d"], "pm": ["-d", "--pm"], "nodiag": ["-d", "--nodiag"], "amp": ["-d", "--amplitude", "0.05"],
    "cut0": ["-d", "--cutoff-pair", "0.5"], "cut1": ["-d", "--cutoff-pair", "3.2"],
    "cut2": ["-d", "--pm", "--cutoff-pair", "4.0"],
    "rd": ["--rd", "3", "--random-seed", "5"], "rdamp": ["--rd", "2", "--amplitude", "0.02", "--random-seed", "7"],
}
FC2S = {"none": [], "dim": [], "pm": ["--pm-fc2"], "rd": ["--rd-fc2", "2"]}
OTHER = {"vasp": ["--qe"], "qe": ["--abinit"], "abinit": ["--qe"], "turbomole": ["--qe"], "wien2k": ["--qe"]}
COLLECTED = ("FORCES_FC3", "FORCES_FC2", "phono3py_params.yaml")


def born(xt):
    import xtal

    p = xtal.nac_params(xt)
    lines = ["14.399652", " ".join("%.12f" % x for x in p["dielectric"].ravel())]
    lines += [" ".join("%.12f" % x for x in b.ravel()) for b in p["born"]]
    Path("BORN").write_text("\n".join(lines) + "\n")


def remove(names=COLLECTED):
    for f in names:
        if os.path.exists(f):
            os.remove(f)


def load(fn, **kw):
    import phono3py

    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return phono3py.load(fn, log_level=0, **kw)


class Setup:
    """Structures written by -d / --rd, and outputs of the played calculator."""

    def __init__(self, case):
        import xtal
        import yaml

        self.case = case
        self.calc = c = CALCS[case["calc"]]
        self.s3, self.s2 = XT[case["xt"]]
        self.res = 0.0 if case.get("reduced") else 0.02  # residual forces are not symmetric
        c.unitcell(xtal.unitcell(case["xt"]))
        argv = c.flag + ["-c", "unit.in", "--dim"] + [str(x) for x in self.s3] + GENS[case["gen"]]
        if case["fc2"] != "none":
            argv += ["--dim-fc2"] + [str(x) for x in self.s2] + FC2S[case["fc2"]]
        if case.get("born") == "gen":
            born(case["xt"])
        code, out, crash = command("phono3py", argv)
        if code or crash:
            raise Bad("phono3py %s: %s" % (" ".join(argv), crash or out[-300:]))
        with open("phono3py_disp.yaml") as f:
            self.yml = yaml.safe_load(f)
        self.lists = {"fc3": self.written("fc3", self.s3)}
        if case["fc2"] != "none":
            self.lists["fc2"] = self.written("fc2", self.s2)

    def written(self, which, smat):
        """Files of structures agree with phono3py_disp.yaml; outputs of these."""
        c, case = self.calc, self.case
        want, self.type2 = structures(self.yml, which)
        pat = c.structure if which == "fc3" else c.structure_fc2
        rx = re.compile("^" + re.escape(pat.replace("%05d", "@@@")).replace("@@@", r"(\d{5})") + "$")
        have = {int(m.group(1)): f for f in os.listdir(".") for m in [rx.match(f)] if m}
        if sorted(have) != sorted(want):
            raise Bad("structure files of %s are numbered %s, phono3py_disp.yaml lists %s"
                      % (which, sorted(have), sorted(want)))
        o = GENS[case["gen"]] if which == "fc3" else FC2S[case["fc2"]]
        rd = {"fc3": "--rd", "fc2": "--rd-fc2"}[which]
        if self.type2 != (rd in o):
            raise Bad("random displacements of %s with the options %s: %s" % (which, o, self.type2))
        if self.type2 and len(want) != int(o[o.index(rd) + 1]):
            raise Bad("%d structures of %s with random displacements, asked for by %s" % (len(want), which, o))
        p = Played(case["xt"], smat, self.res)
        if which == "fc3":
            self.played3 = p
        n = len(p.sc)
        amp = c.distance
        a = GENS[case["gen"]]
        if "--amplitude" in a:
            amp = float(a[a.index("--amplitude") + 1])
        items = []
        for i in sorted(want):
            u = p.displacement(c.read(have[i]))
            if abs(u - want[i]).max() > 3e-7:
                raise Bad("structure %s has displacement %s, phono3py_disp.yaml %s"
                          % (have[i], u[abs(u).max(axis=1) > 1e-6], want[i][abs(want[i]).max(axis=1) > 1e-6]))
            moved = np.linalg.norm(want[i], axis=1)
            moved = moved[moved > 1e-9]
            # two displacements of the same atom add up
            if len(moved) > (which == "fc3") and abs(moved - amp).max() > 1e-8:
                raise Bad("displacement distances %s, expected %s" % (moved, amp))
            u = want[i]
            f = p.forces(u)
            items.append({"id": i, "u": u, "f": f, "e": p.energy(u), "out": self.output(which, i, u, f, p)})
        z = np.zeros((n, 3))
        items_zero = self.output(which, 0, z, p.forces(z), p)
        return {"items": items, "zero": items_zero, "played": p, "type2": self.type2}

    def output(self, which, i, u, f, p):
        from phonopy.structure.atoms import PhonopyAtoms

        fn = "out-%s-%05d" % (which, i)
        cell = PhonopyAtoms(symbols=p.sc.symbols, cell=p.sc.cell, positions=p.sc.positions + u)
        d = np.array([0.013, -0.021, 0.034]) if self.calc.drift else 0.0
        if isinstance(self.calc, Wien2k):
            sites = None
            if self.case.get("reduced"):
                import spglib

                ds = spglib.get_symmetry_dataset((cell.cell, cell.scaled_positions, cell.numbers), symprec=1e-5)
                sites = np.unique(ds.equivalent_atoms)
                d = 0.0  # not symmetric
            self.calc.write(fn, cell, f + d, p.energy(u), sites)
        else:
            self.calc.write(fn, cell, f + d, p.energy(u))
        return fn

    # ------------------------------------------------------------ comparison
    def compare(self, ph3, which, sub, where, n=None, energies=False):
        L = self.lists[which]
        dataset = ph3.dataset if which == "fc3" else ph3.phonon_dataset
        if dataset is None:
            raise Bad("%s: no dataset of %s" % (where, which))
        natom = len(L["played"].sc)
        got = flat(dataset, natom)
        want = L["items"] if n is None else L["items"][:n]
        if len(got) != len(want):
            raise Bad("%s: %d force sets of %s, expected %d" % (where, len(got), which, len(want)))
        r = L["played"].r if sub else 0.0
        lu, fu = UNITS[self.calc.name]
        tol = (2e-8 if L["type2"] else 2e-9) * fu + 2e-6 * fu * max(abs(w["f"]).max() for w in want)
        for (u, f, e), w in zip(got, want):
            if abs(u / lu - w["u"]).max() > 1e-7:
                raise Bad("%s: structure %d of %s has displacements %s, expected %s"
                          % (where, w["id"], which, u, w["u"]))
            d = abs(np.array(f) - (w["f"] - r) * fu).max()
            if not d <= tol:
                raise Bad("%s: forces of structure %d of %s differ by %.2e" % (where, w["id"], which, d))
            if energies and self.calc.energies:
                if e is None or abs(e - w["e"]) > 2e-8:
                    raise Bad("%s: energy of structure %d of %s is %s, expected %s"
                              % (where, w["id"], which, e, w["e"]))
        return len(got)


def names(L):
    return [x["out"] for x in L["items"]]


def argv_fc3(s, route, files):
    if route == "cf3":
        return ["--cf3"] + files
    Path("list.dat").write_text("".join(f + "\n" for f in files))
    return ["--cf3-file", "list.dat"]


def run(cmd, argv, where):
    code, out, crash = command(cmd, argv)
    if crash:
        raise Bad("%s: %s" % (where, crash))
    if code:
        raise Bad("%s: exit code %s: %s" % (where, code, out[-300:]))
    return out


def scratch(fn):
    def wrapped(case, obs):
        d = tempfile.mkdtemp(prefix="c28-")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            return fn(case, obs)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)

    return wrapped


@scratch
def run_collect(case, obs):
    s = Setup(case)
    obs.step(sum(len(x["items"]) for x in s.lists.values()))
    has2 = "fc2" in s.lists
    wien = isinstance(s.calc, Wien2k)
    n3, z3 = names(s.lists["fc3"]), s.lists["fc3"]["zero"]
    n2, z2 = (names(s.lists["fc2"]), s.lists["fc2"]["zero"]) if has2 else (None, None)
    if wien:
        has2 = False
    count = 0
    for cmd, route, sub, mode in itertools.product(
            CTRL, ("cf3", "cf3-file"), (False, True), ("files", "sp", "separate")):
        if wien and sub:
            continue
        if mode == "separate" and not has2:
            continue
        if case.get("few") and (cmd == "phono3py-load") != (route == "cf3-file"):
            continue
        remove()
        where = "%s %s%s, %s" % (cmd, route, " --cfz" if sub else "", mode)
        if mode == "separate":
            order = [argv_fc3(s, route, n3) + (["--cfz", z3] if sub else []),
                     ["--cf2"] + n2 + (["--cfz", z2] if sub else [])]
            if cmd == "phono3py-load":
                order.reverse()
            for a in order:
                run(cmd, a, where)
                obs.step()
        else:
            a = argv_fc3(s, route, n3)
            if has2:
                a += ["--cf2"] + n2
            if sub:
                a += ["--cfz", z3]
                if has2:
                    a += ["--cfz-fc2", z2]
            if mode == "sp":
                a += ["--sp"]
            if case.get("born") == "collect":
                born(case["xt"])
            if case.get("option"):  # phono3py_disp.yaml knows the calculator
                a += s.calc.flag if case["option"] == "same" else OTHER[s.calc.name]
            run(cmd, a, where)
            obs.step()
        fn = "phono3py_disp.yaml"
        if mode == "sp":
            fn = "phono3py_params.yaml"
            if os.path.exists("FORCES_FC3") or os.path.exists("FORCES_FC2"):
                raise Bad("%s: FORCES_FC3 or FORCES_FC2 written with --sp" % where)
        elif os.path.exists("phono3py_params.yaml"):
            raise Bad("%s: phono3py_params.yaml written without --sp" % where)
        remove(["BORN"])
        ph3 = load(fn, produce_fc=False)
        s.compare(ph3, "fc3", sub, where, energies=mode == "sp")
        if has2:
            s.compare(ph3, "fc2", sub, where, energies=mode == "sp")
        if case.get("born") and (mode == "sp" or case["born"] == "gen"):
            import xtal

            p = xtal.nac_params(case["xt"])
            if ph3.nac_params is None:
                raise Bad("%s: no parameters of NAC" % where)
            for k in ("born", "dielectric"):
                if abs(ph3.nac_params[k] - p[k]).max() > 1e-8:
                    raise Bad("%s: %s differs from BORN" % (where, k))
        # force constants, once: as by the API from the same forces
        if count == 0 and not s.lists["fc3"]["type2"] and not (has2 and s.lists["fc2"]["type2"]):
            force_constants(s, case, sub, where, obs)
        count += 1
        obs.state((cmd, route, sub, mode, sorted(case.items())))
    obs.note("structures", sum(len(x["items"]) for x in s.lists.values()))


def force_constants(s, case, sub, where, obs):
    import xtal
    from phono3py import Phono3py

    a = GENS[case["gen"]]
    kw = {"distance": s.calc.distance}
    if "--amplitude" in a:
        kw["distance"] = float(a[a.index("--amplitude") + 1])
    if "--cutoff-pair" in a:
        kw["cutoff_pair_distance"] = float(a[a.index("--cutoff-pair") + 1])
    if "--pm" in a:
        kw["is_plusminus"] = True
    if "--nodiag" in a:
        kw["is_diagonal"] = False
    has2 = "fc2" in s.lists and not isinstance(s.calc, Wien2k)
    ref = Phono3py(xtal.unitcell(case["xt"]), np.diag(s.s3), primitive_matrix=np.eye(3),
                   phonon_supercell_matrix=np.diag(s.s2) if "fc2" in s.lists else None, log_level=0)
    ref.generate_displacements(**kw)
    if "fc2" in s.lists:
        ref.generate_fc2_displacements(
            distance=kw["distance"], **({"is_plusminus": True} if case["fc2"] == "pm" else {}))
    byid = {x["id"]: x for x in s.lists["fc3"]["items"]}
    z = np.zeros((len(s.lists["fc3"]["played"].sc), 3))
    cells = ref.supercells_with_displacements
    r = s.lists["fc3"]["played"].r if sub else 0.0
    ref.forces = [byid[i + 1]["f"] - r if i + 1 in byid else z for i in range(len(cells))]
    if has2:
        r = s.lists["fc2"]["played"].r if sub else 0.0
        ref.phonon_forces = [x["f"] - r for x in s.lists["fc2"]["items"]]
    ref.produce_fc3()
    if "fc2" not in s.lists or has2:
        ref.produce_fc2()
    ph3 = load("phono3py_disp.yaml", produce_fc=False)
    ph3.produce_fc3()
    if "fc2" not in s.lists or has2:
        ph3.produce_fc2()
    for k in ("fc3",) + (("fc2",) if "fc2" not in s.lists or has2 else ()):
        x, y = getattr(ph3, k), getattr(ref, k)
        if x is None or y is None or x.shape != y.shape:
            raise Bad("%s: %s %s, by the API %s" % (where, k, None if x is None else x.shape,
                                                   None if y is None else y.shape))
        lu, fu = UNITS[s.calc.name]
        y = y * (fu / lu ** (2 if k == "fc3" else 1))
        if abs(x - y).max() > 1e-5 * abs(y).max():
            raise Bad("%s: %s of collected forces differ from those by the API by %.2e of %.2e"
                      % (where, k, abs(x - y).max(), abs(y).max()))
    obs.state(("fc", sorted(case.items())))


# -------------------------------------------------------------------- faults
@scratch
def run_faults(case, obs):
    s = Setup(case)
    has2 = "fc2" in s.lists
    L3 = s.lists["fc3"]
    n3 = names(L3)
    Path("broken").write_text("nothing\n")
    if isinstance(s.calc, Turbomole):
        os.makedirs("brokendir", exist_ok=True)
        Path("brokendir/gradient").write_text("nothing\n")
    broken = "brokendir" if isinstance(s.calc, Turbomole) else "broken"

    def refused(argv, where, files):
        for cmd in CTRL:
            for sp in ((), ("--sp",)) if "--cf3" in argv else ((),):
                remove()
                code, out, crash = command(cmd, list(argv) + list(sp))
                obs.step()
                obs.state((cmd, sp, argv, sorted(case.items())))
                w = "%s %s: %s" % (cmd, " ".join(sp), where)
                if crash:
                    raise Bad("%s: failed by %s" % (w, crash))
                left = [f for f in files + (["phono3py_params.yaml"] if sp else []) if os.path.exists(f)]
                if left:
                    raise Bad("%s: %s was written (exit code %s)" % (w, left, code))
                if not code:
                    raise Bad("%s: not refused: %s" % (w, out[-200:]))

    def lists(L, which):
        """(files, what) of faulty lists."""
        n = names(L)
        items = L["items"]
        u = [x["u"] for x in items]
        if not L["type2"]:
            yield n[:-1], "without the last"
            if len(n) > 2:
                yield n[:-2], "without the last two"
        yield n + [n[-1]], "the last one twice"
        yield n[:-1] + ["absent"], "a file which does not exist"
        for k in sorted({0, len(n) - 1}) if s.calc.name != "wien2k" else ():  # phonopy's parser fails
            if k < len(n) - 1 and s.calc.name == "turbomole":
                continue  # phonopy's parser judges the last file only
            yield n[:k] + [broken] + n[k + 1:], "file %d broken" % (k + 1)
        if has2 and s.calc.points and len(s.lists["fc2"]["played"].sc) != len(s.lists["fc3"]["played"].sc):
            o = names(s.lists["fc2" if which == "fc3" else "fc3"])
            yield n[:-1] + [o[0]], "the last one of the other supercell"
        if s.calc.points:
            if L["type2"]:
                yield n[1:], "without the first"
            for k in range(len(n) - 1):
                if abs(u[k] - u[k + 1]).max() > 1e-4:
                    yield n[:k] + [n[k + 1], n[k]] + n[k + 2:], "%d and %d swapped" % (k + 1, k + 2)

    for files, what in lists(L3, "fc3"):
        refused(["--cf3"] + files, "outputs of fc3: " + what, ["FORCES_FC3"])
        if not isinstance(s.calc, Wien2k) and ("without" in what or "twice" in what):
            refused(["--cf3"] + files + ["--cfz", L3["zero"]], "outputs of fc3 with --cfz: " + what, ["FORCES_FC3"])
    if s.calc.points:
        refused(["--cf3"] + n3 + ["--cfz", n3[0]], "residual forces of a displaced supercell", ["FORCES_FC3"])
    if not isinstance(s.calc, Wien2k):
        refused(["--cf3"] + n3 + ["--cfz", broken], "broken file of residual forces", ["FORCES_FC3"])
    if L3["type2"] and not isinstance(s.calc, Wien2k):  # fewer structures may have been calculated
        for sp in ((), ("--sp",)):
            remove()
            where = "phono3py %s: without the last of random displacements" % " ".join(sp)
            run("phono3py", ["--cf3"] + n3[:-1] + list(sp), where)
            ph3 = load("phono3py_params.yaml" if sp else "phono3py_disp.yaml", produce_fc=False)
            s.compare(ph3, "fc3", False, where, n=len(n3) - 1, energies=bool(sp))
            obs.step()
            obs.state((where, sorted(case.items())))
    if has2 and not isinstance(s.calc, Wien2k):
        L2 = s.lists["fc2"]
        for files, what in lists(L2, "fc2"):
            refused(["--cf2"] + files, "outputs of fc2: " + what, ["FORCES_FC2"])
            refused(["--cf3"] + n3 + ["--cf2"] + files, "outputs of fc2 after those of fc3: " + what,
                    ["FORCES_FC2"])
        refused(["--cf2"] + names(L2) + ["--sp"], "--sp without --cf3", ["phono3py_params.yaml"])
    remove()


# ------------------------------------------------------------------- convert
@scratch
def run_convert(case, obs):
    """FORCES_FC3 / FORCES_FC2 -> FORCE_SETS -> FORCES_FC2."""
    from phonopy.file_IO import parse_FORCE_SETS

    s = Setup(case)
    has2 = "fc2" in s.lists
    argv = ["--cf3"] + names(s.lists["fc3"])
    if has2:
        argv += ["--cf2"] + names(s.lists["fc2"])
    for cmd in CTRL:
        for which in ("fc3", "fc2") if has2 else ("fc3",):
            remove(COLLECTED + ("FORCE_SETS",))
            run(cmd, argv, "collection")
            L = s.lists[which]
            a = ["--cfs"]
            if which == "fc2":
                a += ["--dim-fc2"] + [str(x) for x in s.s2]
                if cmd == "phono3py-load":
                    continue  # it has no --dim-fc2
            where = "%s %s" % (cmd, " ".join(a))
            out = run(cmd, a, where)
            obs.step()
            obs.state((where, sorted(case.items())))
            if L["type2"]:
                if os.path.exists("FORCE_SETS"):
                    raise Bad("%s: FORCE_SETS written of random displacements" % where)
                if "already readable" not in out:
                    raise Bad("%s: %s" % (where, out[-200:]))
                continue
            if not os.path.exists("FORCE_SETS"):
                raise Bad("%s: no FORCE_SETS" % where)
            d = parse_FORCE_SETS()
            want = [x for x in L["items"] if which == "fc2" or (abs(x["u"]) > 1e-9).any(axis=1).sum() == 1]
            n1 = len(s.yml["displacement_pairs"]) if which == "fc3" else len(L["items"])
            want = L["items"][:n1]
            check_type1(d, want, where)
            # back to FORCES_FC2
            remove(("FORCES_FC2",))
            w2 = "%s --fs2f2 after %s" % (cmd, where)
            out = run(cmd, ["--fs2f2"], w2)
            obs.step()
            obs.state((where, sorted(case.items())))
            check_lines(Path("FORCES_FC2").read_text(), want, w2)
            check_printed(out, want, w2)
            if which == "fc2":
                ph3 = load("phono3py_disp.yaml", produce_fc=False)
                s.compare(ph3, "fc2", False, w2)
        if has2 and cmd == "phono3py":
            bad = ["--cfs", "--dim-fc2"] + [str(x + 1) for x in s.s2]
            if not s.lists["fc2"]["type2"]:
                remove(("FORCE_SETS",))
                code, out, crash = command(cmd, bad)
                if crash or not code or os.path.exists("FORCE_SETS"):
                    raise Bad("%s of another supercell matrix: exit code %s, %s" % (" ".join(bad), code, crash))


def check_type1(d, want, where):
    if "first_atoms" not in d or len(d["first_atoms"]) != len(want):
        raise Bad("%s: FORCE_SETS has %s displacements, expected %d"
                  % (where, len(d.get("first_atoms", [])), len(want)))
    for x, w in zip(d["first_atoms"], want):
        u = np.zeros_like(w["u"])
        u[x["number"]] = x["displacement"]
        if abs(u - w["u"]).max() > 1e-9 or abs(x["forces"] - w["f"]).max() > 2e-9:
            raise Bad("%s: FORCE_SETS differs at structure %d" % (where, w["id"]))


def check_lines(text, want, where):
    v = np.array([[float(x) for x in l.split()] for l in text.split("\n") if l.strip() and l.strip()[0] != "#"])
    ref = np.concatenate([w["f"] for w in want])
    if v.shape != ref.shape or abs(v - ref).max() > 2e-9:
        raise Bad("%s: FORCES_FC2 differs" % where)


def check_printed(out, want, where):
    """Lines of displacements which are to be put in phono3py_disp.yaml."""
    import yaml

    i = out.find("displacements:\n")
    if i < 0:
        raise Bad("%s: no lines of displacements printed" % where)
    text = []
    for l in out[i:].split("\n")[1:]:
        if l and not l.startswith((" ", "- ", "#")):
            break
        text.append(l)
    d = yaml.safe_load("\n".join(text))
    if len(d) != len(want):
        raise Bad("%s: %d displacements printed, expected %d" % (where, len(d), len(want)))
    for x, w in zip(d, want):
        u = np.zeros_like(w["u"])
        u[x["atom"] - 1] = x["displacement"]
        if abs(u - w["u"]).max() > 1e-9:
            raise Bad("%s: displacement printed differs: %s" % (where, x))


# -------------------------------------------------------------------- spaces
def cases(tier):
    full = tier != "quick"
    for calc in CALCS:
        for xt in XT:
            if calc == "wien2k" and xt == "tric2":
                continue  # angles of the struct file have few digits
            for gen in GENS:
                for fc2 in FC2S:
                    if calc == "wien2k" and fc2 != "none":
                        continue
                    yield {"calc": calc, "xt": xt, "gen": gen, "fc2": fc2, "few": not full}


def spaces(tier):
    full = tier != "quick"
    a = list(cases(tier))
    col = [c for c in a if full or c["calc"] == "vasp" or c["xt"] == "cscl" or c["gen"] in ("d", "cut1", "rd")]
    col += [{"calc": calc, "xt": xt, "gen": gen, "fc2": fc2, "few": True, "born": b}
            for calc in ("vasp", "qe") for xt in ("cscl", "tric2") for gen in ("d", "rd") for fc2 in ("none", "dim")
            for b in ("gen", "collect")]
    col += [{"calc": calc, "xt": "cscl", "gen": gen, "fc2": "none" if calc == "wien2k" else "dim", "few": not full,
             "option": o} for calc in CALCS for gen in ("d", "cut1", "rd") for o in ("same", "other")
            if calc != "vasp"]
    col += [dict(c, reduced=True) for c in a if c["calc"] == "wien2k"]
    flt = [c for c in a if (full or (c["xt"] == "cscl" and c["gen"] in ("d", "cut1", "pm", "rd")))
           and c["gen"] not in ("amp", "rdamp") and (c["xt"] != "tric2" or full)]
    cv = [c for c in a if c["calc"] in ("vasp", "qe") and (full or c["xt"] != "tric2")]
    yield Space("collect", col, run_collect, "five calculators, three crystals, all combinations of displacement options "
                "of fc3 and fc2; command, list of outputs, subtraction, output files and order of collection")
    yield Space("faults", flt, run_faults, "all single faults of the listed kinds in the lists of outputs")
    yield Space("convert", cv, run_convert, "FORCE_SETS and FORCES_FC2 from each other, all displacement options")


if __name__ == "__main__":
    main(globals())
