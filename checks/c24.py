"""C24: command-line options, configuration tags and the Python API agree.

options  every option and its tag, over values of its domain, for both commands:
         the option alone, the tag alone and both (option wins) give the settings
         of the table below and nothing else
pairs    all ordered pairs of options: tag+tag, tag+option, option+option in
         both orders: settings of both, the option wins over a tag
runs     the commands are run (in-process) in every run mode with every option
         of the mode (thorough: and every pair of these); files written are
         those of the same run through the configuration file, through the other
         command and through the Python API
"""

import contextlib
import io
import itertools
import os
import re
import sys
import tempfile
import shutil
import warnings
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
from vcommon import Bad, Space, main

PROPERTY = "C24"
TECHNIQUE = (
    "exhaustive enumeration of configurations on the real parser and the real commands: all options and tags with values, "
    "all ordered pairs of them through both sources, and all run modes with all options (thorough: pairs of options), the "
    "result of each compared with a specification table, the other command and the Python API"
)
LEVEL = "model_checking"
LEVEL_NOTE = (
    "bounded: one or a few values of each option, interactions of two options; runs on one small crystal with force "
    "constants read from files (where these come from is C25)"
)

ON, OFF = ".TRUE.", ".FALSE."
BOTH, SCRIPT, LOAD = "both", "phono3py", "phono3py-load"
CTRL = {SCRIPT: {}, LOAD: {"fc_symmetry": True, "is_nac": True, "load_phono3py_yaml": True}}
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def E(opts, vals, tag, tagval, eff, cmd=BOTH):
    return {"opts": opts.split(), "vals": [str(x) for x in vals], "tag": tag, "tagval": str(tagval), "eff": eff,
            "cmd": cmd}


def flag(opts, tag, attr, cmd=BOTH):
    return E(opts, [], tag, ON, {attr: True}, cmd)


def off(opts, tag, attr, cmd=BOTH):
    return E(opts, [], tag, OFF, {attr: False}, cmd)


def num(opts, tag, attr, values, cmd=BOTH):
    return [E(opts, [v], tag, v, {attr: v}, cmd) for v in values]


def table():
    t = [
        flag("--ave-pp", "USE_AVE_PP", "use_ave_pp"),
        flag("--br --bterta", "BTERTA", "is_bterta"),
        flag("--cfc --compact-fc", "COMPACT_FC", "is_compact_fc"),
        flag("--cph --collective-phonon", "COLLECTIVE_PHONON", "solve_collective_phonon"),
        flag("-d --disp", "CREATE_DISPLACEMENTS", "create_displacements"),
        flag("--fc2", "READ_FC2", "read_fc2", SCRIPT),
        flag("--fc3", "READ_FC3", "read_fc3", SCRIPT),
        off("--v2", "FC3_R0_AVERAGE", "is_fc3_r0_average"),
        flag("--fc-symmetry --sym-fc", "FC_SYMMETRY", "fc_symmetry", SCRIPT),
        off("--no-fc-symmetry --no-sym-fc", "FC_SYMMETRY", "fc_symmetry", LOAD),
        flag("--full-pp", "FULL_PP", "is_full_pp"),
        flag("--grg --generalized-regular-grid", "USE_GRG", "use_grg"),
        flag("--gruneisen", "GRUNEISEN", "is_gruneisen"),
        flag("--ion-clamped", "ION_CLAMPED", "ion_clamped"),
        flag("--ise", "IMAG_SELF_ENERGY", "is_imag_self_energy"),
        flag("--isotope", "ISOTOPE", "is_isotope"),
        flag("--jdos", "JOINT_DOS", "is_joint_dos"),
        flag("--lbte", "LBTE", "is_lbte"),
        flag("--nac", "NAC", "is_nac", SCRIPT),
        off("--nonac", "NAC", "is_nac", LOAD),
        off("--nodiag", "DIAG", "is_diagonal_displacement"),
        off("--noks --no-kappa-stars", "KAPPA_STAR", "is_kappa_star"),
        off("--nomeshsym", "MESH_SYMMETRY", "is_mesh_symmetry"),
        E("--nosym", [], "SYMMETRY", OFF, {"is_symmetry": False, "is_mesh_symmetry": False}),
        flag("--nu", "N_U", "is_N_U"),
        flag("--pm", "PM", "is_plusminus_displacement"),
        flag("--pm-fc2", "PM_FC2", "is_plusminus_displacement_fc2"),
        flag("--pypolymlp", "USE_PYPOLYMLP", "use_pypolymlp"),
        flag("--read-gamma", "READ_GAMMA", "read_gamma"),
        flag("--read-phonon", "READ_PHONON", "read_phonon"),
        flag("--read-pp", "READ_PP", "read_pp"),
        flag("--reducible-colmat", "REDUCIBLE_COLLISION_MATRIX", "is_reducible_collision_matrix"),
        flag("--rse", "REAL_SELF_ENERGY", "is_real_self_energy"),
        flag("--sp --save-params", "SAVE_PARAMS", "save_params"),
        flag("--symfc-memshow", "SHOW_SYMFC_MEMORY_USAGE", "show_symfc_memory_usage", LOAD),
        flag("--spf", "SPECTRAL_FUNCTION", "is_spectral_function"),
        flag("--sym-fc2", "SYMMETRIZE_FC2", "is_symmetrize_fc2", SCRIPT),
        flag("--sym-fc3r", "SYMMETRIZE_FC3_R", "is_symmetrize_fc3_r", SCRIPT),
        flag("--sym-fc3q", "SYMMETRIZE_FC3_Q", "is_symmetrize_fc3_q"),
        flag("--thm --tetrahedron-method", "TETRAHEDRON", "is_tetrahedron_method"),
        flag("--write-collision", "WRITE_COLLISION", "write_collision"),
        flag("--write-gamma", "WRITE_GAMMA", "write_gamma"),
        flag("--write-gamma-detail", "WRITE_GAMMA_DETAIL", "write_gamma_detail"),
        flag("--write-phonon", "WRITE_PHONON", "write_phonon"),
        flag("--write-pp", "WRITE_PP", "write_pp"),
        flag("--write-lbte-solution", "WRITE_LBTE_SOLUTION", "write_LBTE_solution"),
        E("--wigner", [], "CONDUCTIVITY_TYPE", "wigner", {"conductivity_type": "wigner"}),
        E("--kubo", [], "CONDUCTIVITY_TYPE", "kubo", {"conductivity_type": "kubo"}),
        E("--symfc", [], "FC_CALCULATOR", "symfc", {"fc_calculator": "symfc"}),
        E("--alm", [], "FC_CALCULATOR", "alm", {"fc_calculator": "alm"}),
        E("--fc-calc --fc-calculator", ["symfc|"], "FC_CALCULATOR", "symfc|", {"fc_calculator": "symfc|"}),
        E("--fc-calc-opt --fc-calculator-options", ["cutoff=4.0"], "FC_CALCULATOR_OPTIONS", "cutoff:4.0",
          {"fc_calculator_options": None}),
        E("--cf2 --create-f2", ["a"], "CREATE_FORCES_FC2", "a", {"create_forces_fc2": ["a"]}),
        E("--cf2 --create-f2", ["a", "b"], "CREATE_FORCES_FC2", "a b", {"create_forces_fc2": ["a", "b"]}),
        E("--cf3 --create-f3", ["a"], "CREATE_FORCES_FC3", "a", {"create_forces_fc3": ["a"]}),
        E("--cf3 --create-f3", ["a", "b"], "CREATE_FORCES_FC3", "a b", {"create_forces_fc3": ["a", "b"]}),
        E("--cf3-file --create-f3-from-file", ["a"], "CREATE_FORCES_FC3_FILE", "a", {"create_forces_fc3_file": "a"}),
        E("--cfz --subtract-forces", ["a"], "SUBTRACT_FORCES", "a", {"subtract_forces": "a"}),
        E("--cfz-fc2 --subtract-forces-fc2", ["a"], "SUBTRACT_FORCES_FC2", "a", {"subtract_forces_fc2": "a"}),
        E("-c --cell", ["POSCAR-x"], "CELL_FILENAME", "POSCAR-x", {"cell_filename": "POSCAR-x"}, SCRIPT),
        E("--nac-method", ["Wang"], "NAC_METHOD", "Wang", {"nac_method": "wang"}),
        E("--nac-method", ["gonze"], "NAC_METHOD", "gonze", {"nac_method": "gonze"}),
        E("--hdf5-compression", ["lzf"], "HDF5_COMPRESSION", "lzf", {"hdf5_compression": "lzf"}),
        E("--hdf5-compression", ["none"], "HDF5_COMPRESSION", "none", {"hdf5_compression": None}),
        E("--hdf5-compression", ["4"], "HDF5_COMPRESSION", "4", {"hdf5_compression": 4}),
        E("--uplo", ["u"], "LAPACK_ZHEEV_UPLO", "u", {"lapack_zheev_uplo": "U"}),
        E("-o", ["x.yaml"], "OUTPUT_YAML_FILENAME", "x.yaml", {"output_yaml_filename": "x.yaml"}, LOAD),
        E("--read-collision", ["all"], "READ_COLLISION", "all", {"read_collision": "all"}),
        E("--read-collision", ["0 2"], "READ_COLLISION", "0 2", {"read_collision": [0, 2]}),
        E("--rd --random-displacements", ["auto"], "RANDOM_DISPLACEMENTS", "auto", {"random_displacements": "auto"}),
        E("--rd --random-displacements", [7], "RANDOM_DISPLACEMENTS", 7, {"random_displacements": 7}),
        E("--rd-fc2 --random-displacements-fc2", ["auto"], "RANDOM_DISPLACEMENTS_FC2", "auto",
          {"random_displacements_fc2": "auto"}),
        E("--rd-fc2 --random-displacements-fc2", [7], "RANDOM_DISPLACEMENTS_FC2", 7, {"random_displacements_fc2": 7}),
        E("--dim", [1, 2, 3], "DIM", "1 2 3", {"supercell_matrix": [[1, 0, 0], [0, 2, 0], [0, 0, 3]]}, SCRIPT),
        E("--dim", [0, 1, 1, 1, 0, 1, 1, 1, 0], "DIM", "0 1 1 1 0 1 1 1 0",
          {"supercell_matrix": [[0, 1, 1], [1, 0, 1], [1, 1, 0]]}, SCRIPT),
        E("--dim-fc2", [1, 2, 3], "DIM_FC2", "1 2 3",
          {"phonon_supercell_matrix": [[1, 0, 0], [0, 2, 0], [0, 0, 3]]}, SCRIPT),
        E("--dim-fc2", [0, 1, 1, 1, 0, 1, 1, 1, 0], "DIM_FC2", "0 1 1 1 0 1 1 1 0",
          {"phonon_supercell_matrix": [[0, 1, 1], [1, 0, 1], [1, 1, 0]]}, SCRIPT),
        E("--dim-fc2", [1, 0, 0, 0, 1, 0, 0, 0, 1], "DIM_FC2", "1 0 0 0 1 0 0 0 1",
          {"phonon_supercell_matrix": I3}, SCRIPT),
        E("--pa --primitive-axis --primitive-axes", ["F"], "PRIMITIVE_AXES", "F",
          {"primitive_matrix": None}),
        E("--pa --primitive-axis --primitive-axes", ["auto"], "PRIMITIVE_AXES", "auto", {"primitive_matrix": "auto"}),
        E("--pa --primitive-axis --primitive-axes", ["0", "1/2", "1/2", "1/2", "0", "1/2", "1/2", "1/2", "0"],
          "PRIMITIVE_AXES", "0 1/2 1/2 1/2 0 1/2 1/2 1/2 0",
          {"primitive_matrix": [[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]}),
        E("--mesh", [2, 3, 4], "MESH", "2 3 4", {"mesh_numbers": [2, 3, 4]}),
        E("--mesh", [2, 3, 4], "MESH_NUMBERS", "2 3 4", {"mesh_numbers": [2, 3, 4]}),
        E("--mesh", [30.5], "MESH", "30.5", {"mesh_numbers": 30.5}),
        E("--mesh", [1, 0, 0, 0, 2, 0, 0, 0, 3], "MESH", "1 0 0 0 2 0 0 0 3",
          {"mesh_numbers": [[1, 0, 0], [0, 2, 0], [0, 0, 3]]}),
        E("--gm --grid-matrix", [-2, 2, 2, 2, -2, 2, 2, 2, -2], "GRID_MATRIX", "-2 2 2 2 -2 2 2 2 -2",
          {"mesh_numbers": [[-2, 2, 2], [2, -2, 2], [2, 2, -2]]}),
        E("--gp --grid-points", [0], "GRID_POINTS", "0", {"grid_points": [0]}),
        E("--gp --grid-points", [5, 1, 2], "GRID_POINTS", "5 1 2", {"grid_points": [5, 1, 2]}),
        E("--gp --grid-points", [5, 1, 2], "GRID_POINTS", "5, 1, 2", {"grid_points": [5, 1, 2]}),
        E("--ga --grid-addresses", [0, 1, 2], "GRID_ADDRESSES", "0 1 2", {"grid_addresses": [[0, 1, 2]]}),
        E("--ga --grid-addresses", [0, 1, 2, 1, 0, 0], "GRID_ADDRESSES", "0 1 2, 1 0 0",
          {"grid_addresses": [[0, 1, 2], [1, 0, 0]]}),
        E("--bi --band-indices", [1], "BAND_INDICES", "1", {"band_indices": [[0]]}),
        E("--bi --band-indices", ["4", "5,", "1", "6"], "BAND_INDICES", "4 5, 1 6", {"band_indices": [[3, 4], [0, 5]]}),
        E("--ts", [300], "TEMPERATURES", "300", {"temperatures": [300.0]}),
        E("--ts", [300, 0, 12.5], "TEMPERATURES", "300 0 12.5", {"temperatures": [300.0, 0.0, 12.5]}),
        E("--sigma", [0.1], "SIGMA", "0.1", {"sigma": 0.1}),
        E("--sigma", [0.2, 0.1], "SIGMA", "0.2 0.1", {"sigma": [0.2, 0.1]}),
        E("--mass", [28, 16.5], "MASS", "28 16.5", {"masses": [28.0, 16.5]}),
        E("--magmom", [1, -1], "MAGMOM", "1 -1", {"magnetic_moments": [1.0, -1.0]}),
        E("--mv --mass-variances", ["1e-4", "2e-4"], "MASS_VARIANCES", "1e-4 2e-4", {"mass_variances": [1e-4, 2e-4]}),
        E("--q-direction", [1, 0, "1/2"], "Q_DIRECTION", "1 0 1/2", {"nac_q_direction": [1.0, 0.0, 0.5]}),
        E("--qpoints", [0, 0, 0, "1/2", "0.25", 0], "QPOINTS", "0 0 0  1/2 0.25 0",
          {"qpoints": [[0, 0, 0], [.5, .25, 0]]}),
        E("--band", [0, 0, 0, "1/2", 0, 0], "BAND", "0 0 0  1/2 0 0", {"band_paths": [[[0, 0, 0], [.5, 0, 0]]]}),
        E("--mlp-params", ["cutoff=5"], "MLP_PARAMS", "cutoff:5", {"mlp_params": None}),
    ]
    # values of which the text has "=" cannot be written in a configuration file
    for o, tg, a, vs in (
            ("--amplitude", "DISPLACEMENT_DISTANCE", "displacement_distance", [0.05]),
            ("--bmfp --boundary-mfp", "BOUNDARY_MFP", "boundary_mfp", [0.25, 1e6]),
            ("--const-ave-pp", "CONST_AVE_PP", "constant_averaged_pp_interaction", [1e-10]),
            ("--cutoff-fc3 --cutoff-fc3-distance", "CUTOFF_FC3_DISTANCE", "cutoff_fc3_distance", [4.5]),
            ("--cutoff-freq --cutoff-frequency", "CUTOFF_FREQUENCY", "cutoff_frequency", [0.5]),
            ("--cutoff-pair --cutoff-pair-distance", "CUTOFF_PAIR_DISTANCE", "cutoff_pair_distance", [4.5]),
            ("--factor", "FREQUENCY_CONVERSION_FACTOR", "frequency_conversion_factor", [521.471]),
            ("--freq-scale", "FREQUENCY_SCALE_FACTOR", "frequency_scale_factor", [1.5]),
            ("--freq-pitch", "FPITCH", "frequency_pitch", [0.25]),
            ("--gv-delta-q", "GV_DELTA_Q", "group_velocity_delta_q", [0.001]),
            ("--pinv-cutoff", "PINV_CUTOFF", "pinv_cutoff", [1e-4]),
            ("--pp-unit-conversion", "PP_CONVERSION_FACTOR", "pp_conversion_factor", [2.0]),
            ("--sigma-cutoff", "SIGMA_CUTOFF_WIDTH", "sigma_cutoff_width", [3.0]),
            ("--tmax", "TMAX", "max_temperature", [800.0]),
            ("--tmin", "TMIN", "min_temperature", [50.0]),
            ("--tstep", "TSTEP", "temperature_step", [25.0]),
            ("--tolerance", "SYMMETRY_TOLERANCE", "symmetry_tolerance", [1e-3]),
            ("--band-points", "BAND_POINTS", "band_points", [11]),
            ("--num-freq-points", "NUM_FREQUENCY_POINTS", "num_frequency_points", [21]),
            ("--num-points-in-batch", "NUM_POINTS_IN_BATCH", "num_points_in_batch", [3]),
            ("--pinv-method", "PINV_METHOD", "pinv_method", [1]),
            ("--pinv-solver", "PINV_SOLVER", "pinv_solver", [4]),
            ("--random-seed", "RANDOM_SEED", "random_seed", [11]),
            ("--scattering-event-class", "SCATTERING_EVENT_CLASS", "scattering_event_class", [1, 2])):
        t += num(o, tg, a, vs)
    for c in ("abinit", "crystal", "qe", "turbomole", "vasp", "wien2k"):
        t.append(E("--" + c, [], "CALCULATOR", c, {"calculator": c}))
    for i, e in enumerate(t):
        e["id"] = i
    return t


TABLE = table()


def of(cmd):
    return [e for e in TABLE if e["cmd"] in (BOTH, cmd)]


class Cwd:
    def __enter__(self):
        self.old = os.getcwd()
        self.new = tempfile.mkdtemp(prefix="c24")
        os.chdir(self.new)
        return self.new

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.new)


def plain(x):
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


NAMES = None


def parse(cmd, argv, conf=None):
    """Settings as the command reads them."""
    from phono3py.cui.phono3py_argparse import get_parser
    from phono3py.cui.settings import Phono3pyConfParser, Phono3pySettings

    global NAMES
    old = sys.argv
    sys.argv = [cmd] + list(argv)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            parser, _ = get_parser(**CTRL[cmd])
            args = parser.parse_args()
            fn = None
            if conf is not None:
                fn = "phono3py.conf"
                Path(fn).write_text("".join("%s = %s\n" % x for x in conf))
            s = Phono3pyConfParser(filename=fn, args=args, default_settings=CTRL[cmd]).settings
    except SystemExit:
        raise Bad("%s %s, file %s: refused: %s" % (cmd, " ".join(argv), conf, out.getvalue()[-200:]))
    finally:
        sys.argv = old
    if NAMES is None:
        names = set()
        for e in TABLE:
            names |= set(e["eff"])
        names |= set(getattr(s, "_v", {}))
        names -= {"default", "load_phono3py_yaml"}
        NAMES = sorted(names)
    r = {}
    for n in NAMES:
        try:
            r[n] = plain(getattr(s, n))
        except (KeyError, AttributeError):
            pass
    return r


def argv_of(e, k=0):
    return [e["opts"][k]] + e["vals"]


_base = {}


def base(cmd):
    if cmd not in _base:
        _base[cmd] = parse(cmd, [])
    return _base[cmd]


def diff(a, b):
    return {k: b[k] for k in b if a.get(k) != b[k]}


_eff = {}


def effect(cmd, e):
    """Attributes set by the option alone, including those equal to the default."""
    if (cmd, e["id"]) not in _eff:
        _eff[cmd, e["id"]] = {**{k: v for k, v in parse(cmd, argv_of(e)).items() if k in e["eff"]}}
    return _eff[cmd, e["id"]]


# Values that settings are expected to have without any option and tag.
DEFAULT = {
    "boundary_mfp": 1e6, "conductivity_type": None, "cutoff_fc3_distance": None, "cutoff_pair_distance": None,
    "grid_points": None, "grid_addresses": None, "is_bterta": False, "is_lbte": False, "is_compact_fc": False,
    "is_isotope": False, "is_kappa_star": True, "is_N_U": False, "is_tetrahedron_method": False,
    "is_fc3_r0_average": True, "lapack_zheev_uplo": "L", "pinv_cutoff": 1e-8, "pinv_solver": 0,
    "read_gamma": False, "read_pp": False, "write_gamma": False, "write_pp": False, "write_phonon": False,
    "sigma": None, "temperatures": None, "max_temperature": 1000, "min_temperature": 0, "temperature_step": 10,
    "mesh_numbers": None, "band_indices": None, "is_symmetry": True, "is_mesh_symmetry": True, "use_grg": False,
    "is_full_pp": False, "use_ave_pp": False, "hdf5_compression": "gzip", "is_diagonal_displacement": True,
    "is_plusminus_displacement": "auto", "is_plusminus_displacement_fc2": "auto", "masses": None,
    "nac_q_direction": None, "symmetry_tolerance": None, "calculator": None, "fc_calculator": None,
    "is_symmetrize_fc3_q": False, "sigma_cutoff_width": None, "mass_variances": None, "read_fc2": False,
    "read_fc3": False, "create_displacements": False, "random_displacements": None}


def key_of(e):
    return e["opts"][0].lstrip("-")


def run_options(case, obs):
    e, cmd = TABLE[case["entry"]], case["cmd"]
    with Cwd():
        b = base(cmd)
        want = {**DEFAULT, "fc_symmetry": cmd == LOAD, "is_nac": cmd == LOAD}
        for k, v in want.items():
            if k in b and b[k] != v:
                raise Bad("%s: default of %s is %s, not %s" % (cmd, k, b[k], v))
        tag = (e["tag"], e["tagval"])
        forms = [("tag", [], [tag])]
        if e["tag"].lower() != e["tag"]:
            forms.append(("tag in lower case", [], [(e["tag"].lower(), e["tagval"])]))
        if e["tagval"] in (ON, OFF):
            forms.append(("value in lower case", [], [(e["tag"], e["tagval"].lower())]))
        for k in range(len(e["opts"])):
            forms.append(("option", argv_of(e, k), None))
            forms.append(("option and empty file", argv_of(e, k), []))
            forms.append(("option and tag", argv_of(e, k), [tag]))
            if "-" in e["opts"][k].lstrip("-") and e["opts"][k] != "--write-gamma-detail":
                o = "--" + e["opts"][k][2:].replace("-", "_")
                forms.append(("deprecated spelling of option", [o] + e["vals"], None))
        if e["tagval"] in (ON, OFF):
            forms.append(("option over opposite tag", argv_of(e), [(e["tag"], OFF if e["tagval"] == ON else ON)]))
        no_tag = None in e["eff"].values() and e["tag"] in ("FC_CALCULATOR_OPTIONS", "MLP_PARAMS")
        first = None
        for name, argv, conf in forms:
            if no_tag and conf:
                continue
            s = parse(cmd, argv, conf)
            obs.step()
            obs.state((cmd, name, sorted(diff(b, s))))
            d = diff(b, s)
            extra = set(d) - set(e["eff"])
            if extra:
                raise Bad("%s: %s %s of %s also sets %s" % (cmd, name, argv, e["tag"], sorted(extra)), key=key_of(e))
            for k, v in e["eff"].items():
                if v is not None and (k not in s or s[k] != v):
                    raise Bad("%s: %s %s %s: %s is %s, should be %s"
                              % (cmd, name, argv, conf, k, s.get(k), v), key=key_of(e))
                if v is None and s[k] == b[k] and k != "hdf5_compression":
                    raise Bad("%s: %s %s has no effect on %s" % (cmd, name, argv, k), key=key_of(e))
            if first is None:
                first = s
            elif s != first:
                raise Bad("%s: %s %s gives %s, %s gives %s" % (cmd, name, argv, diff(first, s), forms[0][0],
                                                               diff(s, first)), key=key_of(e))
        if e["tagval"] in (ON, OFF):
            # the opposite value of the tag
            k, v = next(iter(e["eff"].items()))
            s = parse(cmd, [], [(e["tag"], OFF if e["tagval"] == ON else ON)])
            if s[k] != (not v):
                raise Bad("%s: tag %s of the opposite value leaves %s at %s" % (cmd, e["tag"], k, s[k]), key=key_of(e))
        obs.outcome(sorted(e["eff"].items(), key=str))


def run_pairs(case, obs):
    e, cmd = TABLE[case["entry"]], case["cmd"]
    notag = ("FC_CALCULATOR_OPTIONS", "MLP_PARAMS")
    with Cwd():
        b = base(cmd)
        ee = effect(cmd, e)
        for f in of(cmd):
            if f["id"] == e["id"] or "PP_CONVERSION_FACTOR" in (e["tag"], f["tag"]):
                continue  # the option of the latter is known to have no effect
            ef = effect(cmd, f)
            overlap = set(ee) & set(ef)
            te, tf = (e["tag"], e["tagval"]), (f["tag"], f["tagval"])
            want = {**b, **ee, **ef}
            runs = []
            if e["tag"] not in notag:
                # e in the file, f on the command line: f wins
                runs.append((argv_of(f), [te], "tag %s and option %s" % (e["tag"], f["opts"][0])))
            if not overlap:
                runs.append((argv_of(e) + argv_of(f), None, "options %s %s" % (e["opts"][0], f["opts"][0])))
                if e["tag"] not in notag and f["tag"] not in notag:
                    runs.append(([], [te, tf], "tags %s, %s" % (e["tag"], f["tag"])))
            for argv, conf, name in runs:
                s = parse(cmd, argv, conf)
                obs.step()
                if s != want:
                    d = diff(want, s)
                    raise Bad("%s: %s: %s, should be %s" % (cmd, name, d, {k: want.get(k) for k in d}),
                              key="pair:%s:%s" % (key_of(e), key_of(f)))
            obs.state((cmd, e["id"], f["id"]))
        obs.outcome(case["entry"])


# --------------------------------------------------------------------- runs
TS = [200.0, 0.0, 300.0]


def opts_of_mode(mode):
    """option -> (argv, tags, API changes)."""
    o = {
        "ts": (["--ts", "200", "0", "300"], [("TEMPERATURES", "200 0 300")], {"temps": TS}),
        "sigma": (["--sigma", "0.8"], [("SIGMA", "0.8")], {"sigmas": [0.8]}),
        "sigmas": (["--sigma", "1.0", "0.7"], [("SIGMA", "1.0 0.7")], {"sigmas": [1.0, 0.7]}),
        "thm-sigma": (["--thm", "--sigma", "0.8"], [("TETRAHEDRON", ON), ("SIGMA", "0.8")], {"sigmas": [None, 0.8]}),
        "thm": (["--thm"], [("TETRAHEDRON", ON)], {"sigmas": [None]}),
        "mass": (["--mass", "30", "20"], [("MASS", "30 20")], {"masses": [30.0, 20.0]}),
        "cutoff-freq": (["--cutoff-freq", "3.0"], [("CUTOFF_FREQUENCY", "3.0")], {"cutoff": 3.0}),
        "factor": (["--factor", "31.0"], [("FREQUENCY_CONVERSION_FACTOR", "31.0")], {"factor": 31.0}),
        "freq-scale": (["--freq-scale", "1.2"], [("FREQUENCY_SCALE_FACTOR", "1.2")], {"scale": 1.2}),
        "mesh": (["--mesh", "3", "3", "3"], [("MESH", "3 3 3")], {"mesh": [3, 3, 3]}),
        "mesh-length": (["--mesh", "9.1"], [("MESH", "9.1")], {"mesh": 9.1}),
        "grg": (["--mesh", "9.1", "--grg"], [("MESH", "9.1"), ("USE_GRG", ON)], {"mesh": 9.1, "grg": True}),
        "gm": (["--gm", "-1", "1", "1", "1", "-1", "1", "1", "1", "-1", "--grg"],
               [("GRID_MATRIX", "-1 1 1 1 -1 1 1 1 -1"), ("USE_GRG", ON)],
               {"mesh": [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], "grg": True}),
        "nac": (["--nac"], [("NAC", ON)], {"nac": "gonze"}),
        "nac-wang": (["--nac", "--nac-method", "wang"], [("NAC", ON), ("NAC_METHOD", "wang")], {"nac": "wang"}),
        "nosym": (["--nosym"], [("SYMMETRY", OFF)], {"nosym": True}),
        "nomeshsym": (["--nomeshsym"], [("MESH_SYMMETRY", OFF)], {"nomeshsym": True}),
        "gp": (["--gp", "1", "0"], [("GRID_POINTS", "1 0")], {"gps": [1, 0]}),
        "ga": (["--ga", "0", "0", "1", "1", "1", "0"], [("GRID_ADDRESSES", "0 0 1 1 1 0")],
               {"gas": [[0, 0, 1], [1, 1, 0]]}),
        "part-gp": (["--gp", "1", "0", "--write-gamma"], [("GRID_POINTS", "1 0"), ("WRITE_GAMMA", ON)],
                    {"gps": [1, 0], "wgamma": True}),
        "part-ga": (["--ga", "0", "0", "1", "1", "1", "0", "--write-gamma"],
                    [("GRID_ADDRESSES", "0 0 1 1 1 0"), ("WRITE_GAMMA", ON)],
                    {"gas": [[0, 0, 1], [1, 1, 0]], "wgamma": True}),
        "part-bi": (["--bi", "1", "2", "3,", "6", "--write-gamma"], [("BAND_INDICES", "1 2 3, 6"), ("WRITE_GAMMA", ON)],
                    {"bands": [[0, 1, 2], [5]], "wgamma": True}),
        "uplo": (["--uplo", "U"], [("LAPACK_ZHEEV_UPLO", "U")], {"uplo": "U"}),
        "scut": (["--sigma", "0.8", "--sigma-cutoff", "2"], [("SIGMA", "0.8"), ("SIGMA_CUTOFF_WIDTH", "2")],
                 {"sigmas": [0.8], "scut": 2.0}),
        "v2": (["--v2"], [("FC3_R0_AVERAGE", OFF)], {"r0": False}),
        "sym-fc3q": (["--sym-fc3q"], [("SYMMETRIZE_FC3_Q", ON)], {"fc3q": True, "full": True}),
        "cutoff-fc3": (["--cutoff-fc3", "4.2"], [("CUTOFF_FC3_DISTANCE", "4.2")], {"cutfc3": 4.2}),
        "q-direction": (["--nac", "--q-direction", "1", "0", "0", "--gp", "0"],
                        [("NAC", ON), ("Q_DIRECTION", "1 0 0"), ("GRID_POINTS", "0")],
                        {"nac": "gonze", "qdir": [1.0, 0, 0], "gps": [0]}),
        "bi": (["--bi", "1", "2", "3,", "6"], [("BAND_INDICES", "1 2 3, 6")], {"bands": [[0, 1, 2], [5]]}),
        "const": (["--const-ave-pp", "1e-10"], [("CONST_AVE_PP", "1e-10")], {"const": 1e-10}),
        "tminmax": (["--tmin", "100", "--tmax", "300", "--tstep", "50"],
                    [("TMIN", "100"), ("TMAX", "300"), ("TSTEP", "50")], {"range": (100, 300, 50)}),
        "num-freq-points": (["--num-freq-points", "7"], [("NUM_FREQUENCY_POINTS", "7")], {"npts": 7}),
        "freq-pitch": (["--freq-pitch", "1.5"], [("FPITCH", "1.5")], {"pitch": 1.5}),
        "batch": (["--num-points-in-batch", "3"], [("NUM_POINTS_IN_BATCH", "3")], {"batch": 3}),
        "class": (["--scattering-event-class", "2"], [("SCATTERING_EVENT_CLASS", "2")], {"class": 2}),
        "mv": (["--mv", "1e-4", "3e-4"], [("MASS_VARIANCES", "1e-4 3e-4")], {"mv": [1e-4, 3e-4]}),
        "isotope": (["--isotope"], [("ISOTOPE", ON)], {"iso": True}),
        "isotope-mv": (["--isotope", "--mv", "1e-4", "3e-4"], [("ISOTOPE", ON), ("MASS_VARIANCES", "1e-4 3e-4")],
                       {"iso": True, "mv": [1e-4, 3e-4]}),
        "bmfp": (["--bmfp", "0.5"], [("BOUNDARY_MFP", "0.5")], {"mfp": 0.5}),
        "nu": (["--nu"], [("N_U", ON)], {"nu": True}),
        "noks": (["--noks"], [("KAPPA_STAR", OFF)], {"star": False}),
        "full-pp": (["--full-pp"], [("FULL_PP", ON)], {"full": True}),
        "ave-pp": (["--ave-pp"], [("USE_AVE_PP", ON)], {"ave": True}),
        "wigner": (["--wigner"], [("CONDUCTIVITY_TYPE", "wigner")], {"type": "wigner"}),
        "kubo": (["--kubo"], [("CONDUCTIVITY_TYPE", "kubo")], {"type": "kubo"}),
        "gv-delta-q": (["--gv-delta-q", "0.01"], [("GV_DELTA_Q", "0.01")], {"dq": 0.01}),
        "write-gamma": (["--write-gamma"], [("WRITE_GAMMA", ON)], {"wgamma": True}),
        "write-gamma-detail": (["--write-gamma-detail"], [("WRITE_GAMMA_DETAIL", ON)], {"wdetail": True}),
        "write-pp": (["--write-pp"], [("WRITE_PP", ON)], {"wpp": True}),
        "write-collision": (["--write-collision"], [("WRITE_COLLISION", ON)], {"wcol": True}),
        "lbte-solution": (["--write-lbte-solution"], [("WRITE_LBTE_SOLUTION", ON)], {"wsol": True}),
        "reducible": (["--reducible-colmat"], [("REDUCIBLE_COLLISION_MATRIX", ON)], {"red": True}),
        "pinv-cutoff": (["--pinv-cutoff", "1e-3"], [("PINV_CUTOFF", "1e-3")], {"pinv": 1e-3}),
        "pinv-solver": (["--pinv-solver", "4"], [("PINV_SOLVER", "4")], {"solver": 4}),
        "pinv-method": (["--pinv-method", "1"], [("PINV_METHOD", "1")], {"method": 1}),
        "compression": (["--hdf5-compression", "lzf"], [("HDF5_COMPRESSION", "lzf")], {"compression": "lzf"}),
        "ion-clamped": (["--ion-clamped"], [("ION_CLAMPED", ON)], {"clamped": True}),
        "qpoints": (["--qpoints", "0.1", "0.2", "0.3", "0.5", "0", "0"], [("QPOINTS", "0.1 0.2 0.3 0.5 0 0")],
                    {"qpoints": [[.1, .2, .3], [.5, 0, 0]]}),
        "band": (["--band", "0.1", "0", "0", "0.5", "0", "0", "--band-points", "4"],
                 [("BAND", "0.1 0 0 0.5 0 0"), ("BAND_POINTS", "4")], {"band": ([[.1, 0, 0], [.5, 0, 0]], 4)}),
        "write-phonon": (["--write-phonon"], [("WRITE_PHONON", ON)], {"wph": True}),
    }
    common = ["mass", "freq-scale", "factor", "nac", "nac-wang", "mesh"]
    grid = ["mesh-length", "grg", "gm"]
    harm = common + grid + ["cutoff-freq", "sigma", "sigmas", "thm", "thm-sigma"]
    anh = harm + ["ts", "nosym", "nomeshsym", "uplo", "scut", "v2", "sym-fc3q", "cutoff-fc3"]
    freq = ["num-freq-points", "freq-pitch", "ga", "gp", "q-direction"]
    m = {
        "bterta": anh + ["part-bi", "tminmax", "part-gp", "part-ga", "isotope", "isotope-mv", "bmfp", "nu", "noks", "full-pp",
                         "wigner", "kubo", "gv-delta-q", "const", "write-gamma", "write-gamma-detail", "write-pp",
                         "write-collision", "compression", "write-phonon"],
        "lbte": anh + ["tminmax", "isotope", "isotope-mv", "bmfp", "noks", "wigner", "gv-delta-q", "write-gamma",
                       "write-collision", "lbte-solution", "reducible", "pinv-cutoff", "pinv-solver", "pinv-method"],
        "ise": anh + freq + ["bi"] + ["class", "batch", "write-gamma-detail"],
        "rse": anh + freq + ["bi"],
        "spf": anh + freq + ["bi"] + ["batch"],
        "jdos": [x for x in harm if x != "thm-sigma"] + freq + ["ts", "nomeshsym", "batch", "thm-sigma"],
        "isotope": harm + ["mv", "gp", "ga", "bi", "uplo"],
        "gruneisen": ["mass", "factor", "nac", "nac-wang", "mesh", "ion-clamped", "qpoints", "band", "q-direction", "nosym"],
        "phonon": common + grid + ["uplo", "compression"],
        "cutfc3-none": [],
    }[mode]
    # what makes no sense together with the mode or is refused
    return {k: o[k] for k in m}


BASE = {
    "bterta": (["--br"], [("BTERTA", ON)]),
    "lbte": (["--lbte"], [("LBTE", ON)]),
    "ise": (["--ise", "--gp", "1"], [("IMAG_SELF_ENERGY", ON), ("GRID_POINTS", "1")]),
    "rse": (["--rse", "--gp", "1"], [("REAL_SELF_ENERGY", ON), ("GRID_POINTS", "1")]),
    "spf": (["--spf", "--gp", "1"], [("SPECTRAL_FUNCTION", ON), ("GRID_POINTS", "1")]),
    "jdos": (["--jdos", "--gp", "1"], [("JOINT_DOS", ON), ("GRID_POINTS", "1")]),
    "isotope": (["--isotope", "--gp", "1"], [("ISOTOPE", ON), ("GRID_POINTS", "1")]),
    "gruneisen": (["--gruneisen"], [("GRUNEISEN", ON)]),
    "phonon": (["--write-phonon"], [("WRITE_PHONON", ON)]),
}
XT, SM = "zb", (2, 2, 2)


def provide(nac):
    """Files of the working directory."""
    import xtal
    from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

    ph3 = xtal.phono3py(XT, SM, nac="gonze")
    ph3.save("phono3py_disp.yaml", settings={"force_sets": False, "displacements": False, "force_constants": False,
                                             "born_effective_charge": True, "dielectric_constant": True})
    write_fc2_to_hdf5(ph3.fc2, p2s_map=ph3.phonon_primitive.p2s_map, physical_unit="eV/angstrom^2")
    write_fc3_to_hdf5(ph3.fc3, p2s_map=ph3.primitive.p2s_map)
    return set(os.listdir("."))


def call(fn):
    out = io.StringIO()
    code = 0
    with warnings.catch_warnings(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        warnings.simplefilter("ignore")
        try:
            fn()
        except SystemExit as e:
            code = e.code or 0
        except (RuntimeError, ValueError, NotImplementedError) as e:
            code = 1
            out.write("%s: %s" % (type(e).__name__, e))
    return code, out.getvalue()


def command(cmd, argv):
    from phono3py.cui.phono3py_script import main as cmain

    old = sys.argv
    sys.argv = [cmd] + argv
    try:
        return call(lambda: cmain(**CTRL[cmd]))
    finally:
        sys.argv = old


def load_hdf5(fn):
    import h5py

    r = {}
    with h5py.File(fn) as f:
        for k in f:
            r[k] = f[k][()]
            if k not in ("version",):
                r["compression of " + k] = str(f[k].compression)
    r.pop("version", None)
    return r


def content(fn):
    if fn.endswith(".hdf5"):
        return load_hdf5(fn)
    if fn.endswith(".yaml"):
        import yaml

        with open(fn) as f:
            return {"yaml": yaml.safe_load(f)}
    toks = Path(fn).read_text().split()
    r, words = [], []
    for t in toks:
        try:
            r.append(float(t))
        except ValueError:
            words.append(t)
    return {"numbers": np.array(r), "words": " ".join(words)}


def collect(known, out=None):
    """Files written, and what is printed of isotope scattering."""
    skip = ("phono3py.yaml", "phono3py.conf", "fc2.hdf5", "fc3.hdf5")
    r = {f: content(f) for f in sorted(os.listdir(".")) if f not in known and f not in skip}
    if out is not None:
        lines = out.split("\n")
        k = [i for i, x in enumerate(lines) if "Isotope scattering -" in x]
        m = [i for i, x in enumerate(lines) if re.match(r" *[0-9.-]+ +[0-9.e+-]+$", x)]
        if k and m:
            Path("stdout").write_text("\n".join(lines[k[0]:m[-1] + 1]))
            r["stdout"] = content("stdout")
            os.remove("stdout")
    return r


def fl(x, out):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            out.append(str(k))
            fl(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            fl(y, out)
    else:
        out.append(x)


def equal(a, b, what, ref):
    if set(a) != set(b):
        raise Bad("%s: files %s, %s: %s" % (what, sorted(set(a) - set(b)), ref, sorted(set(b) - set(a))))
    for f in b:
        if set(a[f]) != set(b[f]):
            raise Bad("%s: %s has %s, %s: %s" % (what, f, sorted(set(a[f]) - set(b[f])), ref,
                                                 sorted(set(b[f]) - set(a[f]))))
        for k in b[f]:
            x, y = a[f][k], b[f][k]
            if k == "yaml":
                p, q = [], []
                fl(x, p)
                fl(y, q)
                ok = len(p) == len(q) and all(
                    (abs(u - v) <= 1e-7 * max(abs(u), abs(v)) + 1e-6)
                    if isinstance(u, (int, float)) and isinstance(v, (int, float)) else u == v for u, v in zip(p, q))
                if not ok:
                    raise Bad("%s: %s differs from that of %s" % (what, f, ref))
                continue
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                raise Bad("%s: %s %s has shape %s, %s: %s" % (what, f, k, x.shape, ref, y.shape))
            if x.size == 0:
                continue
            if x.dtype.kind in "fc":
                ok = np.isfinite(y)
                if (np.isfinite(x) != ok).any():
                    raise Bad("%s: %s %s not finite elsewhere than in %s" % (what, f, k, ref))
                if ok.any():
                    d, sc = np.abs(x - y)[ok].max(), np.abs(y)[ok].max()
                    if d > 1e-7 * sc + 1e-30:
                        raise Bad("%s: %s %s differs by %.3g of %.3g from %s" % (what, f, k, d, sc, ref))
            elif (x != y).any():
                raise Bad("%s: %s %s is %s, %s: %s" % (what, f, k, x, ref, y))


def api(mode, ch):
    """The calculation through the Python API."""
    import xtal
    from phonopy.units import VaspToTHz

    kw = {}
    if ch.get("nosym"):
        kw["is_symmetry"] = False
    if ch.get("nosym") or ch.get("nomeshsym"):
        kw["is_mesh_symmetry"] = False
    nac = ch.get("nac")
    ph3 = xtal.phono3py(XT, SM, nac=nac, use_grg=ch.get("grg", False), make_r0_average=ch.get("r0", True),
                        cutoff_frequency=ch.get("cutoff", 1e-2),
                        frequency_factor_to_THz=ch.get("factor", VaspToTHz), **kw)
    if "masses" in ch:
        ph3.masses = ch["masses"]
    sig = ch.get("sigmas", [None])
    rng = ch.get("range", (0, 1000, 10))
    ts = ch.get("temps", np.arange(rng[0], rng[1] + rng[2] / 10, rng[2]))
    pts = ch.get("temps", [0.0, 300.0])
    mesh = ch.get("mesh", [2, 2, 2])
    fr = {"frequency_step": ch.get("pitch"), "num_frequency_points": ch.get("npts", None if "pitch" in ch else 201)}
    if "npts" in ch:
        fr["frequency_step"] = None

    def points(grid):
        from phono3py.phonon.grid import get_grid_point_from_address

        if "gas" in ch:
            return [int(grid.grg2bzg[get_grid_point_from_address(a, grid.D_diag)]) for a in ch["gas"]]
        return ch.get("gps", None if mode in ("bterta", "lbte") else [1])

    if mode == "gruneisen":
        from phonopy.phonon.band_structure import get_band_qpoints
        from phono3py.phonon3.gruneisen import run_gruneisen_parameters

        bands = None
        if "band" in ch:
            bands = get_band_qpoints([np.array(ch["band"][0])], npoints=ch["band"][1])
        run_gruneisen_parameters(
            ph3.fc2, ph3.fc3, ph3.supercell, ph3.primitive, bands,
            ch.get("mesh", None if "band" in ch or "qpoints" in ch else [2, 2, 2]),
            ph3.primitive_symmetry.pointgroup_operations, ch.get("qpoints"),
            nac_params=ph3.nac_params, nac_q_direction=ch.get("qdir"), ion_clamped=ch.get("clamped", False),
            factor=ch.get("factor", VaspToTHz), log_level=0)
        return
    if mode == "jdos":
        from phono3py import Phono3pyJointDos

        j = Phono3pyJointDos(
            ph3.phonon_supercell, ph3.phonon_primitive, ph3.fc2, mesh=mesh, nac_params=ph3.nac_params,
            nac_q_direction=ch.get("qdir"), sigmas=sig, cutoff_frequency=ch.get("cutoff", 1e-2),
            temperatures=ch.get("temps"), frequency_factor_to_THz=ch.get("factor", VaspToTHz),
            frequency_scale_factor=ch.get("scale"), use_grg=ch.get("grg", False),
            is_mesh_symmetry=not ch.get("nomeshsym", False), num_points_in_batch=ch.get("batch", 10), log_level=0, **fr)
        j.run(points(j.grid), write_jdos=True)
        return
    if mode == "isotope":
        from phono3py import Phono3pyIsotope

        iso = Phono3pyIsotope(
            mesh, ph3.phonon_primitive, mass_variances=ch.get("mv"),
            band_indices=None if "bands" not in ch else np.hstack(ch["bands"]).astype("intc"), sigmas=sig,
            frequency_factor_to_THz=ch.get("factor", VaspToTHz), use_grg=ch.get("grg", False),
            cutoff_frequency=ch.get("cutoff"), lapack_zheev_uplo=ch.get("uplo", "L"))
        iso.init_dynamical_matrix(ph3.fc2, ph3.phonon_supercell, ph3.phonon_primitive, nac_params=ph3.nac_params,
                                  frequency_scale_factor=ch.get("scale"))
        iso.run(points(iso.grid))
        return

    ph3.band_indices = ch.get("bands")
    ph3.sigmas = sig
    ph3.sigma_cutoff = ch.get("scut")
    ph3.mesh_numbers = mesh
    if "cutfc3" in ch:
        ph3.cutoff_fc3_by_zero(ch["cutfc3"])
    ph3.init_phph_interaction(nac_q_direction=ch.get("qdir"), constant_averaged_interaction=ch.get("const"),
                              frequency_scale_factor=ch.get("scale"), symmetrize_fc3q=ch.get("fc3q", False),
                              lapack_zheev_uplo=ch.get("uplo", "L"))
    gps = points(ph3.grid)
    if mode == "phonon" or ch.get("wph"):
        from phono3py.file_IO import write_phonon_to_hdf5
        from phono3py.phonon.grid import get_ir_grid_points

        ph3.run_phonon_solver()
        fq, ev, ga = ph3.get_phonon_data()
        ir, w, _ = get_ir_grid_points(ph3.grid)
        write_phonon_to_hdf5(fq, ev, ga, ph3.mesh_numbers, bz_grid=ph3.grid,
                             ir_grid_points=np.array(ph3.grid.grg2bzg[ir], dtype="int64"), ir_grid_weights=w,
                             compression=ch.get("compression", "gzip"))
        if mode == "phonon":
            return
    if mode == "ise":
        ph3.run_imag_self_energy(gps, pts, write_txt=True, scattering_event_class=ch.get("class"),
                                 write_gamma_detail=ch.get("wdetail", False), num_points_in_batch=ch.get("batch"), **fr)
    elif mode == "rse":
        ph3.run_real_self_energy(gps, pts, write_txt=True, write_hdf5=True, **fr)
    elif mode == "spf":
        ph3.run_spectral_function(gps, pts, write_txt=True, write_hdf5=True, num_points_in_batch=ch.get("batch"), **fr)
    else:
        ph3.run_thermal_conductivity(
            is_LBTE=mode == "lbte", temperatures=ts, is_isotope=ch.get("iso", False), mass_variances=ch.get("mv"),
            grid_points=gps, boundary_mfp=ch.get("mfp", 1e6), use_ave_pp=ch.get("ave", False),
            is_reducible_collision_matrix=ch.get("red", False), is_kappa_star=ch.get("star", True),
            gv_delta_q=ch.get("dq"), is_full_pp=ch.get("full", False), pinv_cutoff=ch.get("pinv", 1e-8),
            pinv_solver=ch.get("solver", 0), pinv_method=ch.get("method", 0), write_gamma=ch.get("wgamma", False),
            write_kappa=True, is_N_U=ch.get("nu", False), conductivity_type=ch.get("type"),
            write_gamma_detail=ch.get("wdetail", False), write_collision=ch.get("wcol", False),
            write_pp=ch.get("wpp", False), write_LBTE_solution=ch.get("wsol", False),
            compression=ch.get("compression", "gzip"))


def fresh(known):
    for f in os.listdir("."):
        if f not in known:
            os.remove(f)


def run_runs(case, obs):
    mode, names = case["mode"], case["opts"]
    table = opts_of_mode(mode)
    bo, bt = BASE[mode]
    argv, tags, ch = [], [], {}
    if len(names) > 1 and mode in ("bterta", "lbte") and not {"ts", "tminmax"} & set(names):
        names = names + ["ts"]  # instead of 101 temperatures
    for n in names:
        a, t, c = table[n]
        for k in c:
            if k in ch and ch[k] != c[k]:
                return obs.outcome("exclusive")
        argv += a
        tags += [x for x in t if x not in tags]
        ch.update(c)
    if mode == "gruneisen" and ("qpoints" in ch) + ("band" in ch) + ("mesh" in ch) > 1:
        return obs.outcome("exclusive")
    cells = any(x in ("--mesh", "--gm") for x in argv)
    if not cells and not (mode == "gruneisen" and ("qpoints" in ch or "band" in ch)):
        argv = ["--mesh", "2", "2", "2"] + argv
        tags = [("MESH", "2 2 2")] + tags
    if "--gp" in bo and ("gps" in ch or "gas" in ch):
        bo, bt = bo[:-2], bt[:-1]
    # on the command line of one command two spellings of one option: once
    flat = bo + argv
    with Cwd():
        known = provide(None)
        y = "phono3py_disp.yaml"
        res = {}
        what = "%s %s" % (mode, " ".join(names))
        c0, out0 = command(SCRIPT, [y, "--fc2", "--fc3"] + flat)
        a = collect(known, out0 if mode == "isotope" else None)
        fresh(known)
        obs.step()
        Path("phono3py.conf").write_text("".join("%s = %s\n" % t for t in
                                                 bt + tags + [("CELL_FILENAME", y), ("READ_FC2", ON), ("READ_FC3", ON)]))
        c1, out1 = command(SCRIPT, ["phono3py.conf"])
        b = collect(known, out1 if mode == "isotope" else None)
        fresh(known)
        obs.step()
        extra = [] if "nac" in ch else ["--nonac"]
        c2, out2 = command(LOAD, [y] + extra + [x for x in flat if x != "--nac"])
        d = collect(known, out2 if mode == "isotope" else None)
        fresh(known)
        obs.step()
        c3, out3 = call(lambda: api(mode, ch))
        r = collect(known, out3 if mode == "isotope" else None)
        fresh(known)
        obs.step()
        if c0 or c3:
            if c0 and c1 and c2 and c3:
                return obs.outcome(("refused", mode))
            raise Bad("%s: the command ends with %s (%s), through the file %s, phono3py-load %s, API %s %s"
                      % (what, c0, out0[-200:].strip(), c1, c2, c3, out3[-200:]), key="runs:" + what)
        if not a:
            raise Bad("%s: no files written" % what)
        try:
            equal(a, r, what + ": phono3py with options", "the Python API")
            equal(b, a, what + ": phono3py with tags", "options")
            equal(d, a, what + ": phono3py-load", "phono3py")
        except Bad as e:
            e.key = "runs:" + what
            raise
        if c1 or c2:
            raise Bad("%s: exit codes %s %s %s" % (what, c0, c1, c2))
        for f in a:
            obs.state((mode, f))
        obs.outcome((mode, tuple(names)))


def spaces(tier):
    q = tier == "quick"
    oc = [{"cmd": c, "entry": e["id"]} for c in (SCRIPT, LOAD) for e in of(c)]
    yield Space("options", oc, run_options,
                "every option of both commands (%d options and values): tag, option, both" % len(TABLE))
    yield Space("pairs", oc, run_pairs, "all ordered pairs of options and values, by tag and by option")
    rc = []
    for m in BASE:
        rc.append({"mode": m, "opts": []})
        names = sorted(opts_of_mode(m))
        rc += [{"mode": m, "opts": [n]} for n in names]
        if not q:
            rc += [{"mode": m, "opts": list(p)} for p in itertools.combinations(names, 2)]
    yield Space("runs", rc, run_runs, "every run mode with every %s of it: options, tags, phono3py-load, API"
                % ("option" if q else "pair of options"))


if __name__ == "__main__":
    main(globals())
