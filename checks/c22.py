"""C22: distributed and interrupted calculations."""
import copy
import itertools
import os
import shutil
import sys
import tempfile
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
import vcommon as vc  # noqa: E402
from vcommon import Bad, Space  # noqa: E402
import numpy as np  # noqa: E402
import xtal  # noqa: E402

PROPERTY = "C22"
TECHNIQUE = ("explicit-state model checking: the set of files left by runs on subsets of grid points and bands "
             "is the state; all runs (subsets, orders), all reachable sets of files, all crash points at file "
             "operations (process killed in a fork, exception, truncation) and all pairs of settings of "
             "writing and reading run are explored with the real code, and the continued run is compared "
             "with the run which was never divided")
LEVEL = "model_checking"
LEVEL_NOTE = ("Crash points are the HDF5 operations of each file and the truncations of each finished file; "
              "what a file holds after a kill is decided by the real HDF5 library.")
ASSUMPTIONS = ["bands of a degenerate set are calculated in the same run (the linewidth of a part of a "
               "degenerate set is not defined)"]
RTOL = 1e-9


class Cwd:
    def __enter__(self):
        self.old = os.getcwd()
        self.new = tempfile.mkdtemp(prefix="c22")
        os.chdir(self.new)
        return self.new

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.new)


class Refused(Exception):
    pass


def calc(s, bands=None, gps=None, **kw):
    """One run in the current directory on a new object."""
    ph3 = xtal.phono3py(s["xtal"], s["smat"], is_mesh_symmetry=s.get("ms", True))
    ph3.sigmas = s.get("sigmas")
    ph3.sigma_cutoff = s.get("scut")
    ph3.mesh_numbers = s["mesh"]
    if bands is not None:
        ph3.band_indices = bands
    ph3.init_phph_interaction()
    a = dict(temperatures=s.get("temps", [100.0, 300.0]), is_LBTE=s.get("lbte", False),
             is_full_pp=s.get("full", False), is_isotope=s.get("iso", False), is_N_U=s.get("nu", False),
             is_kappa_star=s.get("star", True), boundary_mfp=s.get("mfp"),
             is_reducible_collision_matrix=s.get("red", False), conductivity_type=s.get("type"),
             grid_points=gps)
    a.update(kw)
    if a["is_LBTE"]:
        a.pop("is_N_U")
    ph3.run_thermal_conductivity(**a)
    k = ph3.thermal_conductivity
    if k is False or k is None:
        raise Refused("returns %s" % k)
    return k


def dump(name):
    import h5py

    with h5py.File(name, "r") as f:
        return {k: f[k][()] for k in f if k != "version"}


def files():
    return {x: Path(x).read_bytes() for x in sorted(os.listdir("."))}


def put(fs):
    for x in os.listdir("."):
        os.remove(x)
    for k, v in fs.items():
        Path(k).write_bytes(v)


def same(a, b, what, skip=()):
    if set(a) - set(skip) != set(b) - set(skip):
        raise Bad("%s: has %s, single run %s" % (what, sorted(set(a) - set(b)), sorted(set(b) - set(a))))
    for k in sorted(b):
        if k in skip:
            continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            raise Bad("%s: shape of %s is %s, of single run %s" % (what, k, x.shape, y.shape))
        if x.size and x.dtype.kind in "fc":
            sc = np.abs(y).max()
            d = np.abs(x - y).max()
            if not d <= RTOL * sc + 1e-300:
                raise Bad("%s: %s differs by %.3g of %.3g from the single run" % (what, k, d, sc))
        elif x.size and (x != y).any():
            raise Bad("%s: %s is %s, of single run %s" % (what, k, x, y))


REFUSE = (Refused, RuntimeError, ValueError, KeyError, OSError, AssertionError, TypeError, IndexError)


def kappas(tag):
    return {x.replace("." + tag, ""): dump(x) for x in os.listdir(".")
            if x.startswith("kappa-") and x.endswith("." + tag + ".hdf5")}


def blocks(freqs):
    """Sets of bands which have to be kept together at a point of the mesh."""
    cut = [0]
    nb = len(freqs)
    for i in range(1, nb):
        if freqs[i] - freqs[i - 1] > 1e-3:
            cut.append(i)
    cut.append(nb)
    return [list(range(a, b)) for a, b in zip(cut[:-1], cut[1:])]


def gp_of(name):
    import re

    m = re.search(r"-g(\d+)", name)
    return None if m is None else int(m.group(1))


def subsets(ir, limit):
    for k in range(1, len(ir) + 1):
        for c in itertools.combinations(ir, k):
            yield c
            if k > 1 and k <= limit:
                yield c[::-1]


def reference(s, tag="ref", **kw):
    k = calc(s, write_kappa=True, output_filename=tag, **kw)
    r = kappas(tag)
    if len(r) != len(s.get("sigmas") or [None]):
        raise Bad("files of the single run: %s" % sorted(r))
    return k, r


def read_back(s, ref, what, obs, ok=True, must=True, tag="out", skip=(), **kw):
    """A run which reads the files: equals the reference or is refused."""
    for x in os.listdir("."):
        if x.endswith("." + tag + ".hdf5"):
            os.remove(x)
    try:
        calc(s, write_kappa=True, output_filename=tag, **kw)
    except REFUSE as e:
        obs.step()
        left = kappas(tag)
        if left:
            raise Bad("%s: refused, but %s is written" % (what, sorted(left)))
        if ok and must:
            raise Bad("%s: is refused, %r" % (what, e)) from e
        return False
    obs.step()
    if not ok:
        raise Bad("%s: accepted though data is missing" % what)
    got = kappas(tag)
    if set(got) != set(ref):
        raise Bad("%s: files %s" % (what, sorted(got)))
    for x in ref:
        same(got[x], ref[x], "%s, %s" % (what, x), skip)
    return True


# ------------------------------------------------------------------ RTA, LBTE
def run_parts(case, obs):
    s = case["s"]
    lbte = s.get("lbte", False)
    head = "collision-" if lbte else "kappa-"
    w = {"write_collision" if lbte else "write_gamma": True}
    r = {"read_collision": "all"} if lbte else {"read_gamma": True}
    nsig = len(s.get("sigmas") or [None])
    with Cwd():
        k, ref = reference(s)
        ir = [int(x) for x in k.grid_points]
        single = {}
        for g in ir:
            put({})
            calc(s, gps=[g], **w)
            single[g] = files()
            obs.step()
            if len(single[g]) != nsig or any(gp_of(x) != g or not x.startswith(head) for x in single[g]):
                raise Bad("grid point %d: files %s" % (g, sorted(single[g])))
            if not lbte:
                row(single[g], ref, ir.index(g), None, "grid point %d" % g)
        content = {g: loads(single[g]) for g in ir}
        # runs on sets of grid points
        for sub in subsets(ir, case["rev"]):
            if len(sub) == 1 or case["lim"] < len(sub) < len(ir) - 1:
                continue
            put({})
            calc(s, gps=list(sub), **w)
            got = {x: dump(x) for x in os.listdir(".")}
            obs.step()
            want = {}
            for g in sub:
                want.update(content[g])
            if set(got) != set(want):
                raise Bad("run at %s: files %s" % (list(sub), sorted(got)))
            for x in want:
                same(got[x], want[x], "%s of run at %s" % (x, list(sub)))
        # the run without grid points writes the same
        put({})
        calc(s, **w)
        got = {x: dump(x) for x in os.listdir(".")}
        want = {}
        for g in ir:
            want.update(content[g])
        if set(got) != set(want):
            raise Bad("run of all points: files %s" % sorted(got))
        for x in want:
            same(got[x], want[x], "%s of run of all points" % x)
        # bands
        band = {}
        if case.get("bands"):
            for g in ir:
                b = blocks(k.frequencies[ir.index(g)])
                band[g] = {}
                if len(b) == 1:  # all bands at once: file of the grid point
                    continue
                fs = {}
                for grp in b:
                    put({})
                    calc(s, bands=[grp], gps=[g], **w)
                    obs.step()
                    fs.update(files())
                nb = k.frequencies.shape[1]
                if len(fs) != nsig * nb:
                    raise Bad("bands %s at %d: files %s" % (b, g, sorted(fs)))
                if not lbte:
                    for i in range(nb):
                        one = {x: v for x, v in fs.items() if x.split("-b")[1].split("-")[0].split(".")[0]
                               == str(i + 1)}
                        row(one, ref, ir.index(g), i, "grid point %d, band %d" % (g, i))
                band[g] = fs
        # whole
        put({})
        whole = {}
        if lbte:
            calc(s, write_LBTE_solution=True, write_kappa=True)
            whole = {x: v for x, v in files().items() if x.startswith("collision-") and gp_of(x) is None}
            if len(whole) != nsig:
                raise Bad("collision matrix is not written: %s" % sorted(os.listdir(".")))
        else:
            calc(s, write_kappa=True)
            whole = files()
        # all states of the directory
        kinds = ["gp", "none"] + (["bands", "part"] if any(band.values()) else [])
        skip = ()
        n = 0
        for st in itertools.product(kinds, repeat=len(ir)):
            if sum(x in ("none", "part") for x in st) > case.get("missing", 1):
                continue
            if any(x in ("bands", "part") and not band[g] for g, x in zip(ir, st)):
                continue
            fs = {}
            for g, x in zip(ir, st):
                if x == "gp":
                    fs.update(single[g])
                elif x != "none":
                    part = sorted(band[g])
                    fs.update({y: band[g][y] for y in (part if x == "bands" else part[:-1])})
            put(fs)
            ok = all(x in ("gp", "bands") for x in st)
            read_back(s, ref, "files %s of %s" % (list(st), ir), obs, ok, skip=skip, **r)
            obs.state(st)
            n += 1
        put(whole)
        read_back(s, ref, "file of all points", obs, True, skip=skip, **r)
        if nsig > 1:
            # files of one width only
            for x in whole:
                put({y: whole[y] for y in whole if y != x})
                read_back(s, ref, "without " + x, obs, False, **r)
            fs = {}
            for g in ir:
                fs.update(single[g])
            one = sorted(whole)[0]
            fs = {y: v for y, v in fs.items()}
            fs[one] = whole[one]
            put(fs)
            read_back(s, ref, "file of all points and files of points", obs, True, skip=skip, **r)
        if lbte:
            # selected temperatures
            t = s.get("temps", [100.0, 300.0])
            for idx in ([0], [len(t) - 1], list(range(len(t)))[::-1] if len(t) > 1 else [0]):
                if sorted(idx) != idx:
                    continue
                s2 = dict(s, temps=[t[i] for i in idx])
                put({})
                ref2 = reference(s2)[1]
                for src in ("whole", "gp"):
                    fs = dict(whole) if src == "whole" else {}
                    for g in ir:
                        if src == "gp":
                            fs.update(single[g])
                    put(fs)
                    read_back(s, ref2, "temperatures %s, %s" % (idx, src), obs, True, must=False,
                              read_collision=idx)
        obs.outcome((len(ir), n))


def loads(fs):
    out = {}
    with Cwd():
        put(fs)
        for x in fs:
            out[x] = dump(x)
    return out


def row(fs, ref, i, band, what):
    """Linewidths of a file are a row of the single run."""
    for x, d in loads(fs).items():
        y = x.split("-g")[0]
        tail = x.split("-g")[1]
        tail = tail[tail.index("-s"):] if "-s" in tail else ".hdf5"
        r = ref[y + tail]
        for key in ("gamma", "gamma_N", "gamma_U", "gamma_isotope", "ave_pp"):
            if (key in d) != (key in r):
                raise Bad("%s: %s in %s" % (what, key, sorted(d)))
            if key not in d:
                continue
            w = r[key]
            w = w[:, i] if w.ndim == 3 else w[i]
            if band is not None:
                w = w[..., band]
            same({key: d[key]}, {key: np.asarray(w)}, what + ", " + x)


# ------------------------------------------------------------------ interaction strength and phonons
def run_pp(case, obs):
    import phono3py
    from phono3py.file_IO import read_phonon_from_hdf5, write_phonon_to_hdf5

    s = case["s"]
    with Cwd():
        k, ref = reference(s)
        ir = [int(x) for x in k.grid_points]
        put({})
        calc(s, write_pp=True, write_kappa=True)
        fs = files()
        for x in ref:
            same(loads({x: fs[x]})[x], ref[x], "run writing strengths, " + x)
        fs = {x: v for x, v in fs.items() if x.startswith("pp-")}
        if not s.get("lbte"):
            det = {}
            for sig in s.get("sigmas") or [None]:
                put({})
                calc(dict(s, sigmas=[sig]), write_gamma_detail=True)
                det.update(loads(files()))
            put({})
            calc(s, write_gamma_detail=True)
            got = loads(files())
            if set(got) != set(det):
                raise Bad("files of details: %s" % sorted(got))
            for x in det:
                same(got[x], det[x], x + " of several widths")
        if sorted(gp_of(x) for x in fs) != sorted(ir):
            raise Bad("files of strengths: %s" % sorted(fs))
        put({})
        for g in ir:
            calc(s, write_pp=True, gps=[g])
        other = loads(files())
        for x, d in loads(fs).items():
            same(other[x], d, x + " written by parts")
        multi = len(s.get("sigmas") or [None]) > 1
        for st in itertools.product((1, 0), repeat=len(ir)):
            if sum(st) < len(st) - 1:
                continue
            put({x: v for x, v in fs.items() if st[ir.index(gp_of(x))]})
            read_back(s, ref, "strengths %s" % (st,), obs, all(st), must=not multi, read_pp=True)
            obs.state(st)
        # strengths of other settings
        put(fs)
        for change in case["changes"]:
            s2 = dict(s, **change)
            put({})
            ref2 = reference(s2)[1]
            put(fs)
            read_back(s2, ref2, "strengths written with %s, read with %s" % (s, change), obs, True, must=False,
                      read_pp=True)
    obs.outcome(len(ir))


def run_phonon(case, obs):
    from phono3py.file_IO import read_phonon_from_hdf5, write_phonon_to_hdf5

    s = case["s"]

    def obj(**kw):
        ph3 = xtal.phono3py(s["xtal"], s["smat"], nac=s.get("nac"), **kw)
        ph3.sigmas = s.get("sigmas")
        ph3.mesh_numbers = kw.pop("mesh", s["mesh"]) if False else s["mesh"]
        ph3.init_phph_interaction()
        return ph3

    def solve(ph3):
        ph3.run_thermal_conductivity(temperatures=[300.0], write_kappa=True, output_filename="x")
        return kappas("x")

    with Cwd():
        a = obj()
        a.run_phonon_solver()
        f, e, ga = a.get_phonon_data()
        f, e, ga = f.copy(), e.copy(), ga.copy()
        for comp in ("gzip", "lzf", None, 5):
            for tag in (None, "p"):
                put({})
                write_phonon_to_hdf5(f, e, ga, a.mesh_numbers, compression=comp, filename=tag)
                got = read_phonon_from_hdf5(a.mesh_numbers, filename=tag, verbose=False)
                for x, y in zip(got, (f, e, ga)):
                    if not np.array_equal(x, y):
                        raise Bad("phonons are not read back")
                obs.step(2)
        ref = solve(a)
        # eigenvectors with other phases and mixtures of degenerate ones are used as they are
        e2 = e.copy()
        ph = np.exp(2j * np.pi * np.arange(e2.shape[0] * e2.shape[2]).reshape(e2.shape[0], 1, -1) / 7.3)
        e2 *= ph
        for es in (e, e2):
            put({})
            write_phonon_to_hdf5(f, es, ga, a.mesh_numbers)
            b = obj()
            b.set_phonon_data(*read_phonon_from_hdf5(b.mesh_numbers, verbose=False))
            g = solve(b)
            for x in ref:
                same(g[x], ref[x], "phonons from file, %s" % x)
            f2, es2, _ = b.get_phonon_data()
            if not np.array_equal(f2, f) or not np.array_equal(es2, es):
                raise Bad("phonons of the file are replaced")
            obs.step(2)
        # another grid
        for bad in (ga + 1, ga[::-1], ga[:-1], np.zeros_like(ga)):
            b = obj()
            try:
                b.set_phonon_data(f[: len(bad)], e[: len(bad)], np.array(bad, dtype=ga.dtype, order="C"))
            except REFUSE:
                obs.step()
                continue
            raise Bad("phonons of another grid are accepted")
    obs.outcome(len(f))


# ------------------------------------------------------------------ crashes
class Stop(BaseException):
    pass


def child(fn, at, mode):
    """Run fn in a fork which is stopped at the at-th HDF5 operation; returns number of operations."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            import h5py

            n = [0]

            def tick():
                n[0] += 1
                if n[0] == at:
                    if mode == "kill":
                        os._exit(9)
                    raise Stop()

            def wrap(f):
                def g(*a, **k):
                    tick()
                    x = f(*a, **k)
                    tick()
                    return x
                return g

            h5py.Group.create_dataset = wrap(h5py.Group.create_dataset)
            old = h5py.File.close

            def close(self, *a, **k):
                if mode == "kill" and self:
                    tick()
                return old(self, *a, **k)

            h5py.File.close = close
            try:
                fn()
            except Stop:
                pass
            os.write(w, str(n[0]).encode())
            code = 0
        except BaseException as e:  # noqa: B902
            os.write(w, ("!%r" % e).encode())
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        out += x
    os.close(r)
    os.waitpid(pid, 0)
    return out.decode()


def run_crash(case, obs):
    s = case["s"]
    kind = case["kind"]
    lbte = s.get("lbte", False)
    with Cwd():
        k, ref = reference(s)
        ir = [int(x) for x in k.grid_points]
        gps = ir[: case.get("ngp", 2)]
        w, r = {"gamma": ({"write_gamma": True}, {"read_gamma": True}),
                "collision": ({"write_collision": True}, {"read_collision": "all"}),
                "whole": ({"write_kappa": True}, {"read_gamma": True}),
                "solution": ({"write_LBTE_solution": True, "write_kappa": True}, {"read_collision": "all"}),
                "pp": ({"write_pp": True}, {"read_pp": True})}[kind]
        use = dict(case.get("use", {}))
        if use:
            put({})
            calc(s, write_kappa=True)
            ref = reference(s, read_gamma=True, **use)[1]
        put({})
        if kind in ("whole", "solution"):
            rest, part = {}, None
        else:
            calc(s, gps=[g for g in ir if g not in gps] or None, **w)
            rest = {x: v for x, v in files().items() if gp_of(x) not in gps}
            part = gps

        def go():
            calc(s, gps=part, **w)

        put(rest)
        go()
        done = files()
        total = child_count(go, rest)
        accepted = 0
        mode = case["mode"]
        for at in range(1, total + 1 if mode != "cut" else 1):
            put(rest)
            out = child(go, at, mode)
            if out.startswith("!"):
                raise Bad("run stopped at %d: %s" % (at, out))
            left = {x: len(v) for x, v in files().items() if x not in rest}
            what = "%s at operation %d of %d, files %s" % (mode, at, total, left)
            if read_back(s, ref, what, obs, True, must=False, **r, **use):
                accepted += 1
            obs.state((mode, at))
            # the run is repeated
            if at % case.get("again", 3) == 1:
                go()
                read_back(s, ref, what + ", repeated", obs, True, **r, **use)
        # truncation
        for x in sorted(set(done) - set(rest))[: case.get("trunc", 2) if mode == "cut" else 0]:
            v = done[x]
            cuts = sorted(set(range(0, len(v), max(1, len(v) // case["cuts"]))) | {1, 8, 96, len(v) - 1, len(v) - 8})
            for c in cuts:
                put(dict(done, **{x: v[:c]}))
                read_back(s, ref, "%s cut to %d of %d bytes" % (x, c, len(v)), obs, True, must=False, **r, **use)
                obs.state((x, c))
            # a page of zeros (write which did not reach the disk) at the end
            put(dict(done, **{x: v[:-64] + bytes(64)}))
            try:
                read_back(s, ref, "%s with zeros at its end" % x, obs, True, must=False, **r, **use)
            except Bad:
                obs.note("torn data pages are not detected by HDF5")
        obs.note("accepted after crash", accepted)
    obs.outcome(total)


def child_count(fn, rest):
    put(rest)
    out = child(fn, -1, "kill")
    if not out.isdigit():
        raise Bad("run: " + out)
    put(rest)
    return int(out)


# ------------------------------------------------------------------ other settings
def run_mismatch(case, obs):
    """Files written with some settings, read with others: result of the reading run or refusal."""
    base = case["base"]
    lbte = base.get("lbte", False)
    w = {"write_collision": True} if lbte else {"write_gamma": True}
    r = {"read_collision": "all"} if lbte else {"read_gamma": True}
    with Cwd():
        written, refs = [], []
        for c in case["alphabet"]:
            s = dict(base, **c)
            put({})
            k, ref = reference(s)
            refs.append(ref)
            ir = [int(x) for x in k.grid_points]
            put({})
            calc(s, gps=ir, **w)
            a = files()
            put({})
            if lbte:
                calc(s, write_LBTE_solution=True, write_kappa=True)
                b = {x: v for x, v in files().items() if x.startswith("coll")}
            else:
                calc(s, write_kappa=True)
                b = files()
            written.append((a, b))
        for (i, c), (j, d) in itertools.product(enumerate(case["alphabet"]), repeat=2):
            s = dict(base, **d)
            for q in (0, 1):
                put(written[i][q])
                what = "%s written with %s, read with %s" % ("points" if q == 0 else "all", c, d)
                target = refs[j]
                if lbte and c.get("temps") != d.get("temps"):
                    # temperatures are those of the file
                    k = [x for x in range(len(case["alphabet"])) if case["alphabet"][x] == dict(
                        d, **({"temps": c["temps"]} if "temps" in c else {}))]
                    if not k:
                        continue
                    target = refs[k[0]]
                read_back(s, target, what, obs, True, must=c == d, **r)
                obs.state(what)
                # the same files with an order of grid points
        if not lbte:
            s = dict(base, **case["alphabet"][0])
            put({})
            k = calc(s)
            ir = [int(x) for x in k.grid_points]
            want = np.array(k.gamma)
            for q in (0, 1):
                for g in (ir[::-1], ir[1:] + ir[:1], ir[:1], ir[-1:]):
                    put(written[0][q])
                    try:
                        x = calc(s, gps=g, read_gamma=True)
                    except REFUSE:
                        obs.step()
                        continue
                    obs.step()
                    same({"gamma": x.gamma}, {"gamma": want[:, :, [ir.index(y) for y in g]]},
                         "linewidths at %s read from %s" % (g, "points" if q == 0 else "all"))
    obs.outcome(len(refs))


def spaces(tier):
    t = tier == "thorough"
    cs = dict(xtal="zb", smat=[2, 2, 2], mesh=[2, 2, 2])
    tr = dict(xtal="tric2", smat=[2, 1, 1], mesh=[3, 1, 1])
    t4 = dict(xtal="tric2", smat=[2, 2, 1], mesh=[2, 2, 1])
    oo = dict(xtal="ort1", smat=[3, 3, 3], mesh=[3, 2, 1])
    hc = dict(xtal="hcp", smat=[2, 2, 1], mesh=[3, 3, 1])
    W = dict(sigmas=[0.8])
    rta = [dict(cs, **W), dict(cs), dict(tr, sigmas=[0.8, None]), dict(oo, sigmas=[0.9], nu=True),
           dict(tr, full=True, sigmas=[0.8]), dict(cs, iso=True, sigmas=[0.8, 1.1], scut=3.0),
           dict(oo, type="wigner", sigmas=[None]), dict(tr, ms=False, temps=[300.0], sigmas=[0.8]),
           dict(hc, sigmas=[0.8, 1.2], full=True, nu=True, mfp=0.1)]
    if t:
        rta += [dict(x, **y) for x in (cs, t4, oo, hc, dict(xtal="te", smat=[2, 2, 1], mesh=[2, 2, 1]))
                for y in (dict(sigmas=[0.8, None], nu=True), dict(full=True, iso=True, sigmas=[None]),
                          dict(type="wigner", sigmas=[0.9, 1.2]), dict(star=False, sigmas=[0.8]))]
    cases = [dict(s=s, rev=4 if t else 2, lim=4 if t else 2, bands=True, missing=3 if t else 1) for s in rta]
    yield Space("parts", cases, run_parts, bound="runs on subsets of points, all states of the directory")
    lb = [dict(tr, lbte=True, sigmas=[0.8]), dict(tr, lbte=True, red=True, sigmas=[0.8]),
          dict(oo, lbte=True, sigmas=[0.9, 1.2], iso=True), dict(tr, lbte=True, sigmas=[None], temps=[300.0]),
          dict(cs, lbte=True, sigmas=[0.8], full=True), dict(oo, lbte=True, red=True, iso=True, sigmas=[0.9]),
          dict(tr, lbte=True, type="wigner", sigmas=[0.8]), dict(tr, lbte=True, sigmas=[None, 0.8])]
    if t:
        lb += [dict(x, lbte=True, red=y, sigmas=z, temps=u) for x in (cs, oo, hc) for y in (False, True)
               for z in ([0.8, 1.1], [None]) for u in ([300.0], [100.0, 300.0, 500.0])]
    yield Space("parts-lbte", [dict(s=s, rev=2, lim=4 if t else 1, bands=True, missing=2 if t else 1) for s in lb],
                run_parts, bound="runs on subsets of points, all states of the directory")
    ch = [dict(sigmas=[None]), dict(sigmas=[0.8]), dict(sigmas=[1.3]), dict(sigmas=[0.8], scut=2.0), dict(full=True),
          dict(temps=[50.0])]
    pp = [dict(cs, sigmas=[0.8]), dict(cs, sigmas=[None]), dict(tr, sigmas=[0.8], scut=2.0), dict(oo, full=True),
          dict(tr, lbte=True, sigmas=[None]), dict(tr, lbte=True, sigmas=[0.8], scut=2.0, full=True),
          dict(cs, lbte=True, red=True, sigmas=[0.8]), dict(tr, sigmas=[None, 0.8]),
          dict(tr, sigmas=[0.8, None, 1.1]), dict(oo, sigmas=[None, 0.8], scut=2.0, full=True)]
    yield Space("strength", [dict(s=s, changes=ch) for s in pp], run_pp, bound="all sets of files missing one at most")
    yield Space("phonons", [dict(s=dict(x, sigmas=y)) for x in (cs, tr, oo, hc) for y in ([0.8], [None])], run_phonon,
                bound="compressions, phases, wrong grids")
    cr = [(dict(tr, sigmas=[0.8], full=True, nu=True), "gamma", {}),
          (dict(tr, sigmas=[0.8], full=True, temps=[300.0]), "gamma", {"use_ave_pp": True}),
          (dict(oo, sigmas=[0.9], iso=True), "whole", {}),
          (dict(oo, sigmas=[None], full=True, temps=[300.0]), "whole", {"use_ave_pp": True}),
          (dict(tr, sigmas=[0.8], lbte=True, temps=[300.0]), "collision", {}),
          (dict(oo, sigmas=[0.9], lbte=True), "solution", {}),
          (dict(tr, sigmas=[None]), "pp", {}), (dict(tr, sigmas=[0.8], full=True), "pp", {})]
    yield Space("crash", [dict(s=s, kind=k, use=u, cuts=300 if t else 24, again=1 if t else 7, ngp=3 if t else 1, mode=m)
                          for s, k, u in cr for m in ("kill", "stop", "cut")], run_crash, bound="kill and exception at each HDF5 operation; truncations")
    al = [dict(temps=[300.0]), dict(temps=[100.0]), dict(temps=[100.0, 300.0]), dict(temps=[300.0, 100.0]),
          dict(temps=[300.0], mesh=[2, 1, 2]), dict(temps=[300.0], sigmas=[1.1]), dict(temps=[300.0], sigmas=[None]),
          dict(temps=[300.0], scut=2.0), dict(temps=[300.0], ms=False)]
    yield Space("settings", [dict(base=b, alphabet=al) for b in (
        dict(tr, sigmas=[0.8]), dict(oo, sigmas=[0.8]), dict(tr, sigmas=[0.8], lbte=True),
        dict(oo, sigmas=[0.8], lbte=True, red=True))], run_mismatch, bound="all pairs of settings")


if __name__ == "__main__":
    vc.main(globals())
