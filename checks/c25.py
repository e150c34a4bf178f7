"""C25: where the data of a calculation come from.

forces    all subsets of fc3.hdf5, fc2.hdf5, FORCES_FC3, FORCES_FC2 in the working
          directory, of the explicit file arguments, and of the contents of the
          yaml file, each source having data of its own: the loaded object has the
          data of the source of highest priority and is that built by the API
nac       all combinations of sources of NAC parameters, units
cells     all subsets of the five sources of the crystal structure, with matrices
commands  both commands on all subsets of files: force constants used and written,
          files of the user kept
"""

import contextlib
import copy
import hashlib
import io
import itertools
import os
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
from vcommon import Bad, Space, main  # noqa: E402
import c17  # noqa: E402
import c19  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C25"
TECHNIQUE = (
    "exhaustive enumeration of environments on the real loader and commands: every subset of files present, arguments "
    "given and contents of the yaml file, each source carrying distinguishable data; the state of the loaded object is "
    "compared with that of the object built through the API from the source a table of priorities selects"
)
LEVEL = "model_checking"
LEVEL_NOTE = "bounded: one or two small crystals, one set of data of each source; all subsets of sources"

ERR = (RuntimeError, FileNotFoundError, KeyError, ValueError, TypeError)
SCALE = {"yaml": 1.0, "cwd": 1.7, "arg": 2.3}
FCS = {"file": 3.1, "argfile": 4.3}
A = ("cscl", (2, 1, 1))
PS = (2, 2, 1)


def build(ph, calculator=None):
    return c19.build({"args": A + (PS if ph else None,), "cut": None}, calculator)


_memo = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + a
        if k not in _memo:
            _memo[k] = f(*a)
        return _memo[k]
    return g


@memo
def dataset(kind, ph, which):
    p = {"args": A + (PS if ph else None,), "cut": None}
    q = build(ph)
    return c19.data(p, kind, 1, len(q.supercell if which == "fc3" else q.phonon_supercell), which)


def scaled(kind, ph, which, src, forces=True):
    ds = copy.deepcopy(dataset(kind, ph, which))
    k = SCALE.get(src)
    at = [ds] if "first_atoms" not in ds else list(ds["first_atoms"]) + [
        b for a in ds["first_atoms"] for b in a.get("second_atoms", ())]
    for a in at:
        if "forces" in a:
            if forces:
                a["forces"] = a["forces"] * k
            else:
                del a["forces"]
    return ds


@memo
def shape(ph):
    q = build(ph)
    return len(q.supercell), len(q.phonon_supercell)


@memo
def computed(kind, ph, src, psrc, sym, compact):
    """Force constants from data of the sources through the API: (fc3, fc2)."""
    q = build(ph)
    calc = "symfc" if kind == "two" else None
    f3 = f2 = None
    if src:
        q.dataset = scaled(kind, ph, "fc3", src)
        q.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact, fc_calculator=calc)
        f3 = q.fc3
    q = build(ph)
    if src:
        q.dataset = scaled(kind, ph, "fc3", src)
    if psrc:
        q.phonon_dataset = scaled(kind, ph, "fc2", psrc)
    if psrc if ph else src:
        q.produce_fc2(symmetrize_fc2=sym, is_compact_fc=compact, fc_calculator=calc)
        f2 = q.fc2
    return f3, f2


@memo
def fcs(ph, src, order):
    n, m = shape(ph)
    k = FCS[src]
    return k * c17.waves((n, n, n, 3, 3, 3) if order == 3 else (m, m, 3, 3), 0.3 * order)


def digest():
    return {f: hashlib.sha256(Path(f).read_bytes()).hexdigest() for f in sorted(os.listdir("."))}


def put_fc(ph, order, src, name):
    from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

    (write_fc3_to_hdf5 if order == 3 else write_fc2_to_hdf5)(fcs(ph, src, order), filename=name)


def put_forces(kind, ph, which, src, name):
    from phono3py.file_IO import write_FORCES_FC2, write_FORCES_FC3

    (write_FORCES_FC3 if which == "fc3" else write_FORCES_FC2)(scaled(kind, ph, which, src), filename=name)


def put_yaml(kind, ph, forces, name, calculator=None, nac=None, fsrc="yaml"):
    q = build(ph, calculator)
    if nac is not None:
        q.nac_params = nac
    if kind:
        q.dataset = scaled(kind, ph, "fc3", fsrc, forces)
        if ph:
            q.phonon_dataset = scaled(kind, ph, "fc2", fsrc, forces)
    q.save(name)


def close(a, b, what, tol=1e-9):
    if (a is None) != (b is None):
        raise Bad("%s is %s" % (what, "missing" if a is None else "there, though nothing gives it"))
    if a is None:
        return
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Bad("%s has shape %s, should be %s" % (what, a.shape, b.shape))
    s = max(np.abs(b).max(), 1e-30)
    d = np.abs(a - b).max()
    if not d <= tol * s:
        k = (a * b).sum() / (b * b).sum()
        raise Bad("%s differs by %.3g of %.3g (ratio %.4f)" % (what, d, s, k))


# ------------------------------------------------------------------ forces
FILES = ("fc3.hdf5", "fc2.hdf5", "FORCES_FC3", "FORCES_FC2")
ARGS = ("fc3_filename", "fc2_filename", "forces_fc3_filename", "forces_fc2_filename")


def subsets(x):
    return [tuple(b for b, k in zip(x, bits) if k) for bits in itertools.product((0, 1), repeat=len(x))]


def select(which, files, args, yaml, disp, kind):
    """Source of displacements and forces: name of the source, 'disp' or None; 'bad' where data are incomplete."""
    arg, f = ("forces_%s_filename" % which), "FORCES_" + which.upper()
    if arg in args:
        return "arg" if kind == "two" or yaml or disp else "bad"
    if yaml == "forces":
        return "yaml"
    if f in files:
        return "cwd" if kind == "two" or yaml or disp == "cwd" else "bad"
    return "disp" if yaml else None


def run_forces(case, obs):
    import phono3py

    kind, ph, yaml, disp = case["kind"], case["ph"], case["yaml"], case["disp"]
    sym, compact = case["sym"], case["compact"]
    for files in [tuple(x) for x in case["files"]]:
        with c19.Cwd():
            for f in files:
                if f.endswith("hdf5"):
                    put_fc(ph, int(f[2]), "file", f)
                else:
                    put_forces(kind, ph, "fc" + f[-1], "cwd", f)
            put_fc(ph, 3, "argfile", "a3.hdf5")
            put_fc(ph, 2, "argfile", "a2.hdf5")
            put_forces(kind, ph, "fc3", "arg", "AF3")
            if ph:
                put_forces(kind, ph, "fc2", "arg", "AF2")
            if yaml:
                put_yaml(kind, ph, yaml == "forces", "p.yaml")
            if disp:
                put_yaml(kind, ph, False, "phono3py_disp.yaml" if disp == "cwd" else "d.yaml")
            before = digest()
            for args in subsets(ARGS):
                if "forces_fc2_filename" in args and not ph or disp == "tuple" and not any("forces" in x for x in args):
                    continue
                for produce in (True, False):
                    what = "%s%s, files %s, arguments %s, yaml %s%s%s" % (
                        "type-2" if kind == "two" else "type-1", " dim-fc2" if ph else "", list(files), list(args),
                        yaml, "" if disp is None else ", displacements: %s" % disp, "" if produce else ", no fc")
                    one(what, phono3py, kind, ph, yaml, disp, files, args, produce, sym, compact, obs)
            if digest() != before:
                raise Bad("files of the user were changed: %s" % what)


def one(what, phono3py, kind, ph, yaml, disp, files, args, produce, sym, compact, obs):
    kw = {}
    for x, f in zip(ARGS, ("a3.hdf5", "a2.hdf5", "AF3", "AF2")):
        if x in args:
            kw[x] = f
            if disp == "tuple" and "forces" in x:
                kw[x] = (f, "d.yaml")
    if yaml:
        kw["phono3py_yaml"] = "p.yaml"
    else:
        q = build(ph)
        kw.update(unitcell=q.unitcell, supercell_matrix=q.supercell_matrix, primitive_matrix=np.eye(3))
        if ph:
            kw["phonon_supercell_matrix"] = q.phonon_supercell_matrix
    src = select("fc3", files, args, yaml, disp, kind)
    psrc = select("fc2", files, args, yaml, disp, kind) if ph else None
    try:
        r = phono3py.load(produce_fc=produce, symmetrize_fc=sym, is_compact_fc=compact, is_nac=False, log_level=0,
                          fc_calculator="symfc" if kind == "two" else None, **kw)
    except Exception as e:
        if "bad" in (src, psrc) and isinstance(e, ERR):
            obs.outcome("refused")
            obs.step()
            return
        raise Bad("%s: %r" % (what, e)) from e
    obs.step()
    if "bad" in (src, psrc):
        raise Bad(what + ": forces without displacements are accepted")
    n, m = shape(ph)
    for which, s, got, N in (("fc3", src, r.dataset, n), ("fc2", psrc, r.phonon_dataset, m)):
        want = None if s is None else scaled(kind, ph, which, s, s != "disp")
        c19.same_ds(got, want, N, "%s: %s dataset should be %s" % (what, which, s), optional=True,
                    utol=2e-8, ftol=2e-7)
    real = src if src in SCALE else None
    preal = psrc if psrc in SCALE else None
    c3, c2 = computed(kind, ph, real, preal, sym, compact) if produce else (None, None)
    if "fc3_filename" in args:
        w3 = fcs(ph, "argfile", 3)
    elif "forces_fc3_filename" in args:
        w3 = c3
    elif "fc3.hdf5" in files:
        w3 = fcs(ph, "file", 3)
    else:
        w3 = c3
    tol = 1e-7 if kind == "one" else 1e-4  # digits of the files
    close(r.fc3, w3, what + ": fc3", tol)
    if "fc2_filename" in args:
        w2 = fcs(ph, "argfile", 2)
    elif ph and "forces_fc2_filename" in args:
        w2 = c2
    elif "fc2.hdf5" in files:
        w2 = fcs(ph, "file", 2)
        if not ph and "forces_fc3_filename" in args:  # either is documented
            try:
                close(r.fc2, w2, "", tol)
            except Bad:
                w2 = c2
    else:
        w2 = c2
    close(r.fc2, w2, what + ": fc2", tol)
    obs.state(what)
    obs.outcome((src, psrc, r.fc3 is None, r.fc2 is None))


def run_missing(case, obs):
    """Explicit files which do not exist or do not fit are refused."""
    import phono3py

    with c19.Cwd():
        ph = case["ph"]
        put_yaml("one", ph, True, "p.yaml")
        put_yaml("one", ph, False, "d.yaml")
        put_fc(ph, 3, "file", "fc3.hdf5")
        put_fc(ph, 2, "file", "fc2.hdf5")
        put_forces("one", ph, "fc3", "cwd", "FORCES_FC3")
        if ph:
            put_forces("one", ph, "fc2", "cwd", "FORCES_FC2")
        n, m = shape(ph)
        from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

        write_fc3_to_hdf5(np.zeros((n + 2,) * 3 + (3,) * 3), filename="w3.hdf5")
        write_fc2_to_hdf5(np.zeros((m + 2,) * 2 + (3,) * 2), filename="w2.hdf5")
        for a in ARGS + ("born_filename",):
            if a == "forces_fc2_filename" and not ph:
                continue
            bad = ["none"]
            if not a.startswith("forces") and a != "born_filename":
                bad += ["w%s.hdf5" % a[2]]
            if a.startswith("forces"):
                Path("short").write_text("\n".join(Path("FORCES_" + a[7:10].upper()).read_text().split("\n")[:-4]))
                Path("empty").write_text("")
                bad += ["short", "empty", ("FORCES_" + a[7:10].upper(), "none")]
            for b, y in itertools.product(bad, ("p.yaml", "d.yaml")):
                what = "%s: %s=%s" % (y, a, b)
                try:
                    r = phono3py.load(y, log_level=0, **{a: b})
                except Exception:
                    obs.outcome(what)
                    continue
                finally:
                    obs.step()
                raise Bad("%s is accepted, fc3 %s" % (what, r.fc3 is not None))


# ------------------------------------------------------------------ nac
def run_nac(case, obs):
    import phono3py
    from phono3py.file_IO import write_fc2_to_hdf5  # noqa: F401
    from phonopy.interface.calculator import get_default_physical_units

    calc = case["calc"]
    base = xtal.nac_params("cscl")

    def params(k, factor=True, method=None):
        x = {"born": base["born"] * k, "dielectric": base["dielectric"] * (1 + 0.1 * k)}
        if factor:
            x["factor"] = 14.399652 * (1 + 0.01 * k)
        if method:
            x["method"] = method
        return x

    unit = get_default_physical_units(calc)["nac_factor"]

    def born(name, k, how):
        x = params(k)
        head = {"default": "default value", "number": "%.12f" % x["factor"]}[how]
        q = build(False)
        rows = [head, " ".join("%.12f" % v for v in x["dielectric"].ravel())]
        from phonopy.structure.symmetry import Symmetry

        for i in Symmetry(q.primitive).get_independent_atoms():
            rows.append(" ".join("%.12f" % v for v in x["born"][i].ravel()))
        Path(name).write_text("\n".join(rows) + "\n")
        if how == "default":
            x["factor"] = unit
        return x

    for src, file, arg, par, yml, is_nac, how in itertools.product(
            ("yaml", "unitcell"), (0, 1), (0, 1), (None, "factor", "nofactor", "wang"), (0, 1), (True, False),
            ("default", "number")):
        if src == "unitcell" and yml or how == "number" and not (file or arg):
            continue
        what = "from %s, %s, BORN %s, born_filename %s (%s), nac_params %s, in yaml %s, is_nac %s" % (
            src, calc, file, arg, how, par, yml, is_nac)
        with c19.Cwd():
            put_yaml(None, False, False, "p.yaml", calc, params(1.3) if yml else None)
            kw = {"is_nac": is_nac, "log_level": 0}
            bfile = born("BORN", 1.6, how) if file else None
            barg = None
            if arg:
                barg = born("other", 0.7, how)
                kw["born_filename"] = "other"
            pin = None
            if par:
                pin = params(0.4, par != "nofactor", "wang" if par == "wang" else None)
                kw["nac_params"] = pin
            given = copy.deepcopy(pin)
            cell = build(False).unitcell.copy()
            kept = cell.copy()
            if src == "yaml":
                kw["phono3py_yaml"] = "p.yaml"
            else:
                kw.update(unitcell=cell, supercell_matrix=[2, 1, 1], primitive_matrix=np.eye(3), calculator=calc)
            if arg:
                want = barg
            elif par:
                want = dict(given)
                want.setdefault("factor", unit)
            elif is_nac and yml:
                want = params(1.3)
            elif is_nac and file:
                want = bfile
            else:
                want = None
            try:
                r = phono3py.load(**kw)
            except Exception as e:
                raise Bad("%s: %r" % (what, e)) from e
            obs.step()
            got = r.nac_params
            if (got is None) != (want is None):
                raise Bad("%s: parameters %s" % (what, "missing" if got is None else "invented"))
            if want is not None:
                for k in ("born", "dielectric", "factor"):
                    close(got[k], want[k], "%s: %s" % (what, k), 1e-7)
                if got.get("method", "gonze") != want.get("method", "gonze"):
                    raise Bad("%s: method %s" % (what, got.get("method")))
            if given is not None and (set(given) != set(pin) or any(
                    np.any(np.asarray(given[k]) != np.asarray(pin[k])) for k in given)):
                raise Bad("%s: dictionary of the user was changed: %s" % (what, sorted(pin)))
            if np.abs(cell.cell - kept.cell).max() > 0:
                raise Bad(what + ": unit cell of the user was changed")
            obs.state(what)
            obs.outcome(None if want is None else round(float(want["factor"]), 6))


# ------------------------------------------------------------------ cells
def conv(a):
    """NaCl-like F-centred cell with lattice constant a (unit cell) or its 1x1x2 supercell."""
    from phonopy.structure.atoms import PhonopyAtoms

    return PhonopyAtoms(symbols=["Na"] * 4 + ["Cl"] * 4, cell=np.eye(3) * a, scaled_positions=xtal.CONV["naclc"][2])


F = np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]])
PM = {"none": None, "auto": "auto", "F": "F", "P": "P", "array": F, "list": F.tolist(), "identity": np.eye(3)}
CELL = ("unitcell_filename", "supercell_filename", "unitcell", "supercell", "phono3py_yaml")


def expected(src, a, dA, smat, ph, pm):
    from phono3py import Phono3py
    from phonopy.structure.cells import get_supercell

    u = conv(a[src])
    if src.startswith("unitcell"):
        M, ps = np.diag([2, 1, 1]) if smat else np.eye(3), [1, 1, 2] if ph else None
    elif src.startswith("supercell"):
        u, M, ps = get_supercell(u, np.diag([1, 1, 2])), np.eye(3), None
    else:
        M, ps, pm = np.diag([1, 2, 1]), [2, 1, 1], "auto" if pm == "auto" else "F"
    u.cell = u.cell * dA
    return Phono3py(u, np.array(M, dtype=int), primitive_matrix="auto" if PM[pm] is None else PM[pm],
                    phonon_supercell_matrix=ps)


def run_cells(case, obs):
    import phono3py
    from phonopy.interface.calculator import get_default_physical_units, write_crystal_structure
    from phonopy.structure.cells import get_supercell
    from phono3py import Phono3py

    calc = case["calc"]
    dA = get_default_physical_units(calc)["distance_to_A"] or 1.0
    a = dict(zip(CELL, (5.0, 5.2, 5.4, 5.6, 5.8)))
    with c19.Cwd():
        info = {"qe": (None, {"Na": "Na.UPF", "Cl": "Cl.UPF"}),
                "elk": (None, ["Na.in", "Cl.in"])}.get(calc)
        write_crystal_structure("UC", conv(a[CELL[0]]), interface_mode=calc, optional_structure_info=info)
        write_crystal_structure("SC", get_supercell(conv(a[CELL[1]]), np.diag([1, 1, 2])), interface_mode=calc,
                                optional_structure_info=info)
        if calc == "qe":  # the writer gives the lists only
            for f, k in (("UC", 8), ("SC", 16)):
                Path(f).write_text(" &system\n ibrav = 0\n nat = %d\n ntyp = 2\n /\n" % k + Path(f).read_text())
        objs = {"unitcell": conv(a["unitcell"]), "supercell": get_supercell(conv(a["supercell"]), np.diag([1, 1, 2]))}
        q = Phono3py(conv(a["phono3py_yaml"]), [1, 2, 1], primitive_matrix="F", phonon_supercell_matrix=[2, 1, 1],
                     calculator=calc)
        q.save("p.yaml")
        for given, pm, smat, ph in itertools.product(subsets(CELL), [case["pm"]], (None, "diag", "full"), (False, True)):
            if not given:
                continue
            src = given[0]
            if ph and src.startswith("supercell") and "unitcell" in given:
                continue  # not documented
            what = "%s: %s, primitive_matrix %s, supercell_matrix %s, phonon %s" % (calc, list(given), pm, smat, ph)
            kw = {}
            for g in given:
                kw[g] = {"unitcell_filename": "UC", "supercell_filename": "SC", "phono3py_yaml": "p.yaml"}.get(g) or objs[g]
            if pm != "none":
                kw["primitive_matrix"] = copy.deepcopy(PM[pm])
            if smat:
                kw["supercell_matrix"] = [2, 1, 1] if smat == "diag" else [[2, 0, 0], [0, 1, 0], [0, 0, 1]]
            if ph:
                kw["phonon_supercell_matrix"] = [1, 1, 2]
            kept = {k: v.copy() for k, v in objs.items()}
            try:
                w = expected(src, a, dA, smat, ph, pm)
            except Exception:
                w = None  # matrices which do not fit
            try:
                r = phono3py.load(calculator=calc, log_level=0, **kw)
            except Exception as e:
                if w is None and isinstance(e, ERR):
                    obs.outcome("does not fit")
                    continue
                if ph and "unitcell" not in src and src != "phono3py_yaml" and isinstance(e, RuntimeError):
                    obs.outcome("refused")
                    continue
                if src.startswith("unitcell") and not smat and isinstance(e, (TypeError, RuntimeError, ValueError)):
                    obs.outcome("no matrix")
                    continue
                raise Bad("%s: %r" % (what, e)) from e
            finally:
                obs.step()
            for k, v in kept.items():
                if np.abs(v.cell - objs[k].cell).max() > 0 or np.any(v.scaled_positions != objs[k].scaled_positions):
                    raise Bad("%s: %s of the user was changed" % (what, k))
            if w is None:
                raise Bad(what + ": matrices which do not fit are accepted")
            for k in ("unitcell", "supercell", "primitive", "phonon_supercell", "phonon_primitive"):
                x, y = getattr(r, k), getattr(w, k)
                if x is not None and y is not None and len(x) == len(y) and src.endswith("filename"):
                    if np.abs(x.cell - y.cell).max() > 1e-6 or np.abs(
                            (d := x.scaled_positions - y.scaled_positions) - np.rint(d)).max() > 1e-6 or list(
                                x.symbols) != list(y.symbols):
                        raise Bad("%s: %s is not that of %s" % (what, k, src))
                else:
                    c19.same_cell(x, y, "%s: %s is not that of %s" % (what, k, src))
            obs.state(what)
            obs.outcome((src, len(w.primitive)))


# ------------------------------------------------------------------ commands
def run_commands(case, obs):
    import c24

    import h5py

    cmd, ph, yaml, opts = case["cmd"], case["ph"], case["yaml"], case["opts"]
    load = cmd == "phono3py-load"
    for files in [tuple(x) for x in case["files"]]:
        with c19.Cwd():
            for f in files:
                if f.endswith("hdf5"):
                    put_fc(ph, int(f[2]), "file", f)
                else:
                    put_forces("one", ph, "fc" + f[-1], "cwd", f)
            name = "phono3py_params.yaml" if yaml == "forces" and load else "phono3py_disp.yaml"
            put_yaml("one", ph, yaml == "forces", name)
            before = digest()
            what = "%s %s%s: files %s, %s with%s forces" % (cmd, opts, " dim-fc2" if ph else "", list(files), name,
                                                        "" if yaml == "forces" else "out")
            argv = ([name] if load else ["-c", name]) + opts.split()
            code, out = c24.command(cmd, argv)
            obs.step()
            src = select("fc3", files, (), yaml, None, "one")
            psrc = select("fc2", files, (), yaml, None, "one") if ph else None
            real = src if src in SCALE else None
            preal = psrc if psrc in SCALE else None
            sym = ("--no-sym-fc" not in opts) if load else ("--sym-fc" in opts)
            c3, c2 = computed("one", ph, real, preal, sym, "--cfc" in opts)
            read3 = "fc3.hdf5" in files if load else "--fc3" in opts
            read2 = "fc2.hdf5" in files if load else "--fc2" in opts
            nofc3 = case["nofc3"]
            w3 = fcs(ph, "file", 3) if read3 else c3
            w2 = fcs(ph, "file", 2) if read2 else c2
            if not load and sym and w3 is not None and read3 or not load and sym and read2:
                continue
            missing = (w3 is None and not nofc3 or w2 is None or not load and (
                read3 and "fc3.hdf5" not in files and not nofc3 or read2 and "fc2.hdf5" not in files))
            after = digest()
            if missing:
                if code in (0, None):
                    raise Bad("%s: accepted, though force constants cannot be obtained" % what)
                if not isinstance(code, int):
                    raise Bad("%s: %s" % (what, code))
            elif code not in (0, None):
                raise Bad("%s: exit %s %s" % (what, code, out[-300:]))
            keep = set(before)
            if not load:  # the command writes force constants it has computed
                keep -= ({"fc3.hdf5"} if not read3 and not nofc3 else set())
                keep -= ({"fc2.hdf5"} if not read2 else set())
            for f in keep:
                if after.get(f) != before[f]:
                    raise Bad("%s: %s of the user was changed" % (what, f))
            if not missing:
                for f, w, rd in (("fc3.hdf5", None if nofc3 else w3, read3), ("fc2.hdf5", w2, read2)):
                    if rd or w is None:
                        continue
                    if f not in after:
                        raise Bad("%s: %s is not written" % (what, f))
                    with h5py.File(f) as h:
                        x = h["fc3" if f[2] == "3" else ("force_constants" if "force_constants" in h else "fc2")][:]
                    if "--cutoff-fc3" in opts and f[2] == "3":
                        q = build(ph)
                        q.fc3 = w.copy()
                        q.cutoff_fc3_by_zero(float(opts.split("--cutoff-fc3")[1].split()[0]))
                        w = q.fc3
                    close(x, w, "%s: %s" % (what, f))
            obs.state(what)
            obs.outcome((missing, code))


def split(x, order):
    """Part of the force constants of an order in the notation "fc2|fc3"."""
    if x is None or isinstance(x, dict):
        return x
    return x.split("|")[order - 2].strip() if "|" in x else x.strip()


@memo
def solved(kind, ph, order, calc, cutoff, sym, compact):
    """Force constants by one solver, or None when it cannot treat the dataset."""
    q = build(ph)
    q.dataset = scaled(kind, ph, "fc3", "yaml")
    if ph:
        q.phonon_dataset = scaled(kind, ph, "fc2", "yaml")
    if kind == "two" and not calc:
        return None
    kw = {"fc_calculator": calc or None, "fc_calculator_options": {"cutoff": {3: cutoff}} if calc and cutoff else None}
    if order == 3:
        q.produce_fc3(symmetrize_fc3r=sym, is_compact_fc=compact, **kw)
        return q.fc3
    q.produce_fc2(symmetrize_fc2=sym, is_compact_fc=compact, **kw)
    return q.fc2


def run_solvers(case, obs):
    """Which solver, with which cutoff distance, gives fc2 and fc3."""
    import h5py
    import phono3py

    import c24

    kind, ph, sym, compact, how = (case[k] for k in ("kind", "ph", "sym", "compact", "how"))
    with c19.Cwd():
        put_yaml(kind, ph, True, "p.yaml")
        yaml = Path("p.yaml").read_bytes()
    for calc, opt, pair in itertools.product(
            (None, "symfc", "symfc|", "|symfc", "symfc|symfc", "|"),
            (None, "cutoff = 3.5", "cutoff=4.0|cutoff=3.5", "cutoff=3.5|", "|cutoff=3.5", "use_mkl = false"),
            (None, "3.5") if how != "load" else (None,)):
        c3, c2 = split(calc, 3) or None, split(calc, 2) or None
        o3 = split(opt, 3) or ""
        joint = False
        if kind == "two" and how == "phono3py-load" and not (c3 and c2):
            joint = bool(c3)  # fc2 fitted together with fc3 is kept
            c3 = c2 = "symfc"
        cut = 4.0 if "4.0" in o3 else 3.5 if "3.5" in o3 else 3.5 if pair else None
        if pair and not c3:
            continue  # the cutoff distance is of displacements then
        what = "%s, %s%s, symmetrization %s, compact %s: solvers %s, options %s, cutoff of pairs %s" % (
            how, kind, " dim-fc2" if ph else "", sym, compact, calc, opt, pair)
        want = (solved(kind, ph, 3, c3, cut, sym, compact), solved(kind, ph, 2, c2, None, sym, compact))
        with c19.Cwd():
            Path("p.yaml").write_bytes(yaml)
            code = None
            if how == "load":
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = phono3py.load("p.yaml", fc_calculator=calc, fc_calculator_options=opt, symmetrize_fc=sym,
                                          is_compact_fc=compact, is_nac=False, log_level=0)
                    got = r.fc3, r.fc2
                except RuntimeError as e:
                    code = str(e)
            else:
                argv = ["p.yaml"] if how == "phono3py-load" else ["-c", "p.yaml"]
                if sym != (how == "phono3py-load"):
                    argv.append("--sym-fc" if sym else "--no-sym-fc")
                argv += ["--cfc"] if compact else []
                argv += ["--fc-calc", calc] if calc else []
                argv += ["--fc-calc-opt", opt] if opt else []
                argv += ["--cutoff-pair", pair] if pair else []
                code, out = c24.command(how, argv)
                if code not in (0, None) and not isinstance(code, int):
                    raise Bad("%s: %s" % (what, code))
                code = code or None
                if code is None:
                    with h5py.File("fc3.hdf5") as h:
                        g3 = h["fc3"][:]
                    with h5py.File("fc2.hdf5") as h:
                        got = g3, h["force_constants" if "force_constants" in h else "fc2"][:]
            obs.step()
            if want[0] is None or want[1] is None:
                if code is None:
                    raise Bad("%s: random displacements accepted by the solver of finite differences" % what)
            elif code is not None:
                raise Bad("%s: refused: %s" % (what, code))
            else:
                close(got[0], want[0], what + ": fc3", 1e-7)
                if not joint:
                    close(got[1], want[1], what + ": fc2", 1e-7)
            obs.state(what)
            obs.outcome((code is None, c3, c2, cut))


def run_again(case, obs):
    """Force constants written by one command are those which another reads."""
    import phono3py

    import c24

    kind, ph, compact = case["kind"], case["ph"], case["compact"]
    for first, second in itertools.product(("phono3py", "phono3py-load"), ("phono3py", "phono3py-load", "load")):
        if kind == "two" and first == "phono3py":
            continue
        what = "%s%s, compact %s: %s and then %s" % (kind, " dim-fc2" if ph else "", compact, first, second)
        with c19.Cwd():
            put_yaml(kind, ph, True, "p.yaml")
            code, out = c24.command(first, (["p.yaml"] if first == "phono3py-load" else ["-c", "p.yaml"]) + (
                ["--cfc"] if compact else []))
            if code not in (0, None):
                raise Bad("%s: exit %s %s" % (what, code, out[-300:]))
            calc = "symfc" if kind == "two" else None
            want = [solved(kind, ph, n, calc, None, first == "phono3py-load", compact) for n in (3, 2)]
            before = {f: h for f, h in digest().items() if f[:2] == "fc"}
            put_yaml(kind, ph, False, "p.yaml")  # no forces from now on
            obs.step()
            try:
                r = phono3py.load("p.yaml", is_nac=False, log_level=0)
            except RuntimeError as e:
                raise Bad("%s: force constants written cannot be read: %s" % (what, e)) from e
            close(r.fc3, want[0], what + ": fc3", 1e-9)
            close(r.fc2, want[1], what + ": fc2", 1e-9)
            if second != "load":
                code, out = c24.command(second, ["p.yaml"] if second == "phono3py-load" else ["-c", "p.yaml", "--fc2", "--fc3"])
                if code not in (0, None):
                    raise Bad("%s: exit %s %s" % (what, code, out[-300:]))
            if {f: h for f, h in digest().items() if f[:2] == "fc"} != before:
                raise Bad("%s: force constants were written again" % what)
            obs.state(what)
            obs.outcome((ph, compact))


def run_settings(case, obs):
    """Settings given to the loader are those of the object: results are those of the object built directly."""
    import phono3py
    from phonopy.structure.atoms import PhonopyAtoms

    name, sm = "zb", (2, 2, 2)
    fc2, fc3 = xtal.model(name, sm)
    u = xtal.unitcell(name)
    eps = np.eye(3)
    eps[0, 1] = eps[1, 0] = 3e-4  # symmetric within a loose tolerance
    u = PhonopyAtoms(symbols=u.symbols, cell=u.cell @ eps, scaled_positions=u.scaled_positions)
    nac = xtal.nac_params(name, "gonze")
    for mesh_sym, grg, r0, factor in itertools.product((True, False), (False, True), (True, False), (None, 10.0)):
        kw = {"is_symmetry": case["sym"], "is_mesh_symmetry": mesh_sym, "use_grg": grg, "make_r0_average": r0}
        if case["symprec"]:
            kw["symprec"] = case["symprec"]
        what = "%s, factor %s" % (kw, factor)
        res = []
        for how in (0, 1):
            try:
                if how:
                    p = phono3py.load(unitcell=u, supercell_matrix=np.diag(sm), primitive_matrix=np.eye(3), nac_params=nac,
                                      produce_fc=False, log_level=0, **kw, **({"factor": factor} if factor else {}))
                else:
                    p = phono3py.Phono3py(u, supercell_matrix=np.diag(sm), primitive_matrix=np.eye(3), log_level=0, **kw,
                                          **({"frequency_factor_to_THz": factor} if factor else {}))
                    p.nac_params = nac
                p.fc2, p.fc3 = fc2.copy(), fc3.copy()
                p.sigmas = [0.3]
                p.mesh_numbers = 8.0
                p.init_phph_interaction()
                p.run_thermal_conductivity(temperatures=[300])
                t = p.thermal_conductivity
                res.append((len(p.symmetry.symmetry_operations["rotations"]),
                            len(p.primitive_symmetry.symmetry_operations["rotations"]), list(p.mesh_numbers),
                            list(t.grid_points), t.frequencies, t.gamma, t.kappa))
            except RuntimeError as e:
                res.append(e)
        obs.step()
        if any(isinstance(x, Exception) for x in res):
            if not all(isinstance(x, Exception) for x in res):
                raise Bad("%s: %r" % (what, [x for x in res if isinstance(x, Exception)]))
            obs.outcome("refused")
            continue
        a, b = res
        if a[:4] != b[:4]:
            raise Bad("%s: numbers of operations, mesh or grid points are %s, should be %s" % (what, b[:4], a[:4]))
        for x, y, n in zip(a[4:], b[4:], ("frequencies", "gamma", "kappa")):
            close(y, x, "%s: %s" % (what, n), 1e-7)
        obs.state(what)
        obs.outcome((a[:2], len(a[3]), round(float(a[4].max()), 4), float("%.6g" % a[5].sum())))


def spaces(tier):
    thorough = tier == "thorough"
    cs = []
    for kind, ph, yaml in itertools.product(("one", "two"), (False, True), (None, "disp", "forces")):
        disps = (None, "cwd", "tuple") if kind == "one" and yaml is None else (
            (None, "tuple") if kind == "one" else (None,))
        for disp in disps:
            for sym, compact in [(True, False)] + ([(False, False), (True, True)] if thorough else []):
                if sym is False and kind == "two":
                    continue
                for k in range(0, 16, 4):
                    cs.append({"kind": kind, "ph": ph, "yaml": yaml, "disp": disp, "sym": sym, "compact": compact,
                               "files": [f for f in subsets(FILES)[k:k + 4] if ph or "FORCES_FC2" not in f]})
    cs = [c for c in cs if c["files"]]
    yield Space("forces", cs, run_forces,
                "all subsets of 4 files x 4 arguments x contents of yaml x kinds of dataset x dim-fc2 x produce_fc")
    yield Space("missing", [{"ph": x} for x in (False, True)], run_missing, "files which are missing, damaged or do not fit")
    yield Space("nac", [{"calc": c} for c in ([None, "qe"] if not thorough else c19.CALCS)], run_nac,
                "all combinations of 4 sources of NAC parameters, units, is_nac")
    yield Space("cells", [{"calc": c, "pm": m} for m in PM for c in (
        [None, "qe"] if not thorough else [None, "vasp", "qe", "elk", "abinit"])], run_cells, "all subsets of 5 sources x primitive matrix x supercell matrix x dim-fc2")
    cc = []
    ofs = ["", "--cutoff-fc3 3.3", "--cfc", "--no-sym-fc"]
    for ph, yaml, o in itertools.product((False, True), ("disp", "forces"), ofs):
        cc.append({"cmd": "phono3py-load", "opts": o, "nofc3": False, "ph": ph, "yaml": yaml})
    for ph, yaml, o in itertools.product((False, True), ("disp", "forces"),
                                         ["", "--fc3", "--fc2", "--fc3 --fc2", "--sym-fc", "--cfc", "--cutoff-fc3 3.3",
                                          "--fc3 --cutoff-fc3 3.3"]):
        cc.append({"cmd": "phono3py", "opts": o, "nofc3": False, "ph": ph, "yaml": yaml})
    for ph, yaml, o in itertools.product((False, True), ("disp", "forces"),
                                         ["--jdos --mesh 1 1 1 --gp 0", "--isotope --mesh 1 1 1 --gp 0",
                                          "--jdos --mesh 1 1 1 --gp 0 --fc2", "--isotope --mesh 1 1 1 --gp 0 --fc2",
                                          "--write-phonon --mesh 1 1 1"]):
        cc.append({"cmd": "phono3py", "opts": o, "nofc3": True, "ph": ph, "yaml": yaml})
    for c in cc:
        c["files"] = [f for f in subsets(FILES) if c["ph"] or "FORCES_FC2" not in f]
    yield Space("solvers", [dict(kind=k, ph=p, sym=y, compact=z, how=h) for k, p, y, z, h in itertools.product(
        ("one", "two"), (False, True), (False, True) if thorough else (False,), (False, True) if thorough else (False,),
        ("load", "phono3py", "phono3py-load"))], run_solvers, "all solvers x options x cutoff, each for fc2 and fc3")
    yield Space("again", [dict(kind=k, ph=p, compact=z) for k, p, z in itertools.product(
        ("one", "two"), (False, True), (False, True))], run_again, "all pairs of commands which write and read")
    yield Space("settings", [dict(sym=y, symprec=p) for y in (True, False) for p in (None, 1e-5, 1e-2)], run_settings,
                "all combinations of the settings of the object")
    yield Space("commands", cc, run_commands, "both commands x all subsets of files x contents of yaml x options")


if __name__ == "__main__":
    main(globals())
