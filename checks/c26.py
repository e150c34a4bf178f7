"""C26: mode Grueneisen parameters are the strain derivative of the frequencies.

Crystals of a pair potential (bonds shorter than half of the supercell) have an
analytic derivative of the dynamical matrix with respect to each of the nine
components of a displacement gradient, with the internal displacements which the
strain causes.  It is written out over the list of bonds of the infinite crystal:
no supercell, no force constants and no shortest vectors are involved.

modes    all points of a grid of wave vectors for all crystals x ion clamped x
         NAC x direction of q->0 x compact force constants
mesh     meshes x use of symmetry x shift x centring: points, weights, orbits
paths    all sequences of three points as band paths
files    run_gruneisen_parameters and the command: files hold the same values
refused  force constants of supercells which differ
"""

import contextlib
import io
import itertools
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
from vcommon import Bad, Space, main

import xtal

PROPERTY = "C26"
TECHNIQUE = (
    "exhaustive enumeration of configurations on the real code: crystals, all wave vectors of a grid, all meshes and all "
    "paths of a set, with every combination of ion clamping, NAC, direction, symmetry and form of force constants, each "
    "compared with the analytic strain derivative of the pair model"
)
LEVEL = "model_checking"
LEVEL_NOTE = (
    "bounded: crystals of a pair model with stable phonons and bonds shorter than half of the supercell; commensurate and "
    "incommensurate wave vectors of a finite set; dynamical matrices with NAC are taken from phonopy"
)

#          supercell, cutoff radius of bonds
CRYST = {
    "sc1": ((3, 3, 3), 4.4), "tet1": ((3, 3, 3), 4.45), "tric1": ((3, 3, 3), 4.4), "hex1": ((3, 3, 2), 4.4),
    "cscl": ((3, 3, 3), 5.3), "zb": ((3, 3, 3), 5.4), "nacl": ((3, 3, 3), 5.2), "hcp": ((3, 3, 2), 4.7), "wz": ((3, 3, 2), 4.3),
    "tric2": ((3, 3, 3), 5.2), "p4": ((3, 3, 2), 4.3), "te": ((2, 2, 2), 4.3), "fcc1": ((4, 4, 4), 4.4),
    "rhom1": ((3, 3, 3), 4.3), "mono1": ((3, 3, 3), 4.4),
    "naclc": ((2, 2, 2), 5.1), "diac": ((2, 2, 2), 5.3),
}
NACS = ("cscl", "zb", "nacl", "wz", "tric2", "naclc")
_cache = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + a
        if k not in _cache:
            _cache[k] = f(*a)
        return _cache[k]
    return g


@memo
def crystal(name):
    sm, rc = CRYST[name]
    q = xtal.phono3py(name, sm, with_fc=False)
    fc2, fc3 = xtal.pair_fc(q.supercell, rc)
    return q, fc2, fc3


@memo
def factor():
    from phonopy.units import VaspToTHz

    return VaspToTHz


class Bonds:
    """Bonds of the infinite crystal (primitive cell) and their derivatives."""

    def __init__(self, prim, rcut):
        self.lat = np.array(prim.cell)
        self.inv = np.linalg.inv(self.lat)
        self.mass = np.array(prim.masses)
        pos = np.array(prim.positions)
        self.pos = pos
        num = prim.numbers
        kinds = sorted(set(num.tolist()))
        n = self.n = len(num)
        m = np.ceil(rcut * np.linalg.norm(self.inv, axis=0)).astype(int) + 1
        sh = np.array(list(itertools.product(*[range(-x, x + 1) for x in m]))) @ self.lat
        b = []
        eye = np.eye(3)
        for i, j in itertools.product(range(n), repeat=2):
            d = pos[j] - pos[i] + sh
            r = np.linalg.norm(d, axis=1)
            for v, x in zip(d, r):
                if x < 1e-6 or x >= rcut:
                    continue
                s = kinds.index(num[i]) + kinds.index(num[j])
                w = np.exp(-1.1 * (x - 2.0)) * (1 - x / rcut) ** 2 * 8
                k, g = w * (6.0 + 1.3 * s), -w * (20.0 + 7.0 * s)
                e = v / x
                nn = np.outer(e, e)
                dn = eye - nn
                h3 = g * np.einsum("a,bc->abc", e, nn) + k / x * (
                    np.einsum("a,bc->abc", e, dn) + np.einsum("b,ac->abc", e, dn) + np.einsum("c,ab->abc", e, dn))
                b.append((i, j, v, k * nn, h3))
        self.b = b
        # internal displacements: K X = F
        K = np.zeros((n, 3, n, 3))
        F = np.zeros((n, 3, 3, 3))
        for i, j, v, h2, _ in b:
            K[i, :, i, :] += h2
            K[i, :, j, :] -= h2
            F[i] += np.einsum("ak,l->akl", h2, v)
        self.X = np.einsum("iajb,jbkl->iakl", np.linalg.pinv(K.reshape(3 * n, 3 * n), rcond=1e-10).reshape(
            n, 3, n, 3), F)
        self.dv = {}
        self.scale = max(np.abs(np.linalg.eigvalsh(self.matrices(np.array([0.31, 0.23, 0.47]), True)[0])))

    def derivative(self, clamped):
        """dPhi of bonds: list of (i, j, v, h2, dh2[a, b, k, l])."""
        if clamped not in self.dv:
            out = []
            for i, j, v, h2, h3 in self.b:
                dv = np.einsum("ck,l->ckl", np.eye(3), v)
                if not clamped:
                    dv = dv + self.X[j] - self.X[i]
                out.append((i, j, v @ self.inv, h2, np.einsum("abc,ckl->abkl", h3, dv)))
            self.dv[clamped] = out
        return self.dv[clamped]

    def matrices(self, q, clamped):
        n = self.n
        D = np.zeros((n, 3, n, 3), dtype=complex)
        dD = np.zeros((n, 3, n, 3, 3, 3), dtype=complex)
        for i, j, v, h2, dh in self.derivative(clamped):
            p = np.exp(2j * np.pi * (v @ q))
            D[i, :, i, :] += h2
            D[i, :, j, :] -= h2 * p
            dD[i, :, i] += dh
            dD[i, :, j] -= dh * p
        m = 1 / np.sqrt(np.repeat(self.mass, 3))
        D = D.reshape(3 * n, 3 * n) * np.outer(m, m)
        dD = dD.reshape(3 * n, 3 * n, 3, 3) * np.outer(m, m)[:, :, None, None]
        return D, dD


@memo
def bonds(name):
    q, _, _ = crystal(name)
    return Bonds(q.primitive, CRYST[name][1])


@memo
def phonopy_dm(name, nac):
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix

    q, fc2, _ = crystal(name)
    return get_dynamical_matrix(fc2, q.supercell, q.primitive, nac_params=xtal.nac_params(name, nac))


def reference(name, q, clamped, nac, direction):
    """(eigenvalues, sets, sums over sets of gamma omega^2)."""
    b = bonds(name)
    D, dD = b.matrices(np.array(q, dtype=float), clamped)
    if nac:
        d = phonopy_dm(name, nac)
        d.run(q, direction) if direction is not None else d.run(q)
        D = d.dynamical_matrix
    w2, e = np.linalg.eigh(D)
    scale = bonds(name).scale
    sets, start = [], 0
    for i in range(1, len(w2) + 1):
        if i == len(w2) or w2[i] - w2[i - 1] > 1e-5 * scale:
            sets.append(range(start, i))
            start = i
    gam = []
    for s in sets:
        v = e[:, list(s)]
        gam.append(-0.5 * np.einsum("as,abkl,bs->kl", v.conj(), dD, v).real)
    return w2, sets, gam, scale


def judge(name, q, clamped, nac, direction, freqs, g, what, fac=None):
    w2, sets, gam, scale = reference(name, q, clamped, nac, direction)
    fac = factor() if fac is None else fac
    want = np.sqrt(abs(w2)) * np.sign(w2) * fac
    f = np.array(freqs)
    if f.shape != want.shape or np.abs(f * abs(f) - want * abs(want)).max() > 1e-6 * scale * fac ** 2:
        raise Bad("%s: frequencies %s are not %s" % (what, f, want))
    g = np.array(g)
    if g.shape != (len(w2), 3, 3):
        raise Bad("%s: shape %s of tensors" % (what, g.shape))
    gamma = np.abs(np.array(q)).max() < 1e-5
    top = max(np.abs(x).max() for x in gam)
    for s, x in zip(sets, gam):
        if gamma and s[0] < 3:  # acoustic modes have no parameter
            if np.abs(g[list(i for i in s if i < 3)]).max() > 0:
                raise Bad("%s: parameter of an acoustic mode at Gamma: %s" % (what, g[:3]))
            continue
        if abs(w2[s[0]]) < 1e-7 * scale:
            continue  # undefined
        got = sum(g[i] * w2[i] for i in s)
        if not np.abs(got - x).max() <= 2e-6 * top:
            raise Bad("%s: bands %s: tensor %s is not %s" % (
                what, [i + 1 for i in s], (got / w2[s[0]] / len(s)).round(6).tolist(),
                (x / w2[s[0]] / len(s)).round(6).tolist()))
    return [round(float(np.trace(x)), 4) for x in gam]


@memo
def obj(name, clamped, nac, form, direction):
    from phono3py.phonon3.gruneisen import Gruneisen

    q, fc2, fc3 = crystal(name)
    p = q.primitive.p2s_map
    a2 = fc2[p].copy() if form in ("compact", "compact2") else fc2.copy()
    a3 = fc3[p].copy() if form in ("compact", "compact3") else fc3.copy()
    kw = {}
    if nac:
        kw["nac_params"] = xtal.nac_params(name, nac)
    if direction is not None:
        kw["nac_q_direction"] = list(direction)
    kept = a2.copy(), a3.copy()
    g = Gruneisen(a2, a3, q.supercell, q.primitive, ion_clamped=clamped, factor=factor(), **kw)
    if np.any(a2 != kept[0]) or np.any(a3 != kept[1]):
        raise Bad("force constants of the user were changed")
    return g


def inside(g, mode, k):
    """Frequencies, points, weights or distances of the object, or of the file it writes."""
    x = getattr(g, ("_frequencies", "_qpoints", "_weights", "_band_distances")[k], None)
    if x is not None:
        return x
    with scratch():
        g.write(filename="g")
        rows, _ = read_files("g", mode)
    x = [r[(1, 0, 4, 4)[k]] for r in rows]
    if mode == "band":
        out = []
        for p in g.get_gruneisen_parameters():
            out.append(x[:len(p)])
            x = x[len(p):]
        return out
    return x


DIRS = (None, (1, 0, 0), (0, 0, 1), (0.2, 0.5, -0.3))


def run_modes(case, obs):
    name, n = case["name"], case["n"]
    for clamped, nac, form, direction in itertools.product(
            (False, True), case["nacs"], case["forms"], DIRS):
        if direction is not None and not nac:
            continue
        what = "%s, ion_clamped %s, NAC %s, %s, direction %s" % (name, clamped, nac, form, direction)
        qs = [[0, 0, 0]] if direction is not None else [
            [x / n for x in k] for k in itertools.product(range(n), repeat=3)] + [
            [0, 0, 0.004], [-1 / 3, 1 / 3, 0], [0.17, -0.29, 0.43], [0.5, -1, 2], [0.15, 1.25, 0]]
        g = obj(name, clamped, nac, form, direction)
        for kind in (list, np.array) if direction is None and form == "full" else (list,):
            g.set_qpoints(kind(qs))
            g.run()
            gs, fs = g.get_gruneisen_parameters(), inside(g, "qpoints", 0)
            if len(gs) != len(qs):
                raise Bad("%s: %d of %d points" % (what, len(gs), len(qs)))
            for i, q in enumerate(qs):
                away = np.abs(q).max() > 1e-5
                d = None if not nac else (q if away else direction)
                o = judge(name, q, clamped, nac, d, fs[i], gs[i], "%s, q %s" % (what, q))
                obs.step()
                obs.state((what, i))
                obs.outcome((name, clamped, nac, tuple(o)))


# ------------------------------------------------------------------ meshes
def full_mesh(mesh, shift, centre):
    """Points of a mesh: gamma-centred, or of Monkhorst-Pack."""
    s = np.zeros(3)
    if not centre:
        s = np.array([0.0 if m % 2 else 0.5 for m in mesh])
    if shift is not None:
        s = s + np.array(shift)
    return [(np.array(k) + s) / mesh for k in itertools.product(*[range(m) for m in mesh])]


def run_mesh(case, obs):
    name, clamped, nac = case["name"], case["clamped"], case["nac"]
    q, _, _ = crystal(name)
    ops = q.primitive_symmetry.pointgroup_operations
    for mesh, sym, shift, centre in itertools.product(case["meshes"], (False, True), (None, (0.5, 0.5, 0.5), (0.5, 0, 0)),
                                                  (True, False)):
        what = "%s, ion_clamped %s, NAC %s, mesh %s, rotations %s, shift %s, centre %s" % (
            name, clamped, nac, mesh, sym, shift, centre)
        g = obj(name, clamped, nac, "full", None)
        g.set_sampling_mesh(mesh, rotations=ops if sym else None, shift=shift, is_gamma_center=centre)
        g.run()
        points, weights = np.array(inside(g, "mesh", 1)), np.array(inside(g, "mesh", 2))
        gs, fs = g.get_gruneisen_parameters(), inside(g, "mesh", 0)
        if weights.sum() != np.prod(mesh):
            raise Bad("%s: sum of weights %d" % (what, weights.sum()))
        total = 0
        for i, p in enumerate(points):
            gamma = np.abs(p).max() < 1e-5
            judge(name, p, clamped, nac, None if not nac or gamma else p, fs[i], gs[i], "%s, q %s" % (what, p))
            total += weights[i] * sum(np.trace(x) * y * abs(y) for x, y in zip(gs[i], fs[i]))
            obs.step()
        want = 0
        for p in full_mesh(mesh, shift, centre):
            p = p - np.rint(p)
            gamma = np.abs(p).max() < 1e-5
            w2, sets, gam, _ = reference(name, p, clamped, nac, None if not nac or gamma else p)
            want += factor() ** 2 * sum(np.trace(x) for s, x in zip(sets, gam) if not (gamma and s[0] < 3))
        if abs(total - want) > 1e-5 * abs(want):
            raise Bad("%s: sum over the mesh %s is not %s" % (what, total, want))
        obs.state(what)
        obs.outcome((name, len(points), round(float(want), 3)))


# ------------------------------------------------------------------ paths
PTS = {"G": (0, 0, 0), "X": (0.5, 0, 0), "R": (0.5, 0.5, 0.5), "q": (0.1, 0.2, 0.35), "n": (-0.2, 0.1, 0)}


def run_paths(case, obs):
    name, clamped, nac = case["name"], case["clamped"], case["nac"]
    q, _, _ = crystal(name)
    rec = np.linalg.inv(np.array(q.primitive.cell))
    g = obj(name, clamped, nac, "full", None)
    words = [w for k in range(1, case["depth"] + 1) for w in itertools.product(PTS, repeat=k)]
    groups = [[w] for w in words] + [[w, v] for w in words[:30] for v in words[:30:4] if len(w) == len(v)]
    for paths in groups:
        what = "%s, ion_clamped %s, NAC %s, paths %s" % (name, clamped, nac, ["".join(w) for w in paths])
        g.set_band_structure([np.array([PTS[c] for c in w], dtype=float) for w in paths])
        with np.errstate(all="ignore"):
            try:
                g.run()
            except Exception as e:
                raise Bad("%s: %r" % (what, e)) from e
        gs, fs, ds = g.get_gruneisen_parameters(), inside(g, "band", 0), inside(g, "band", 3)
        if len(gs) != len(paths):
            raise Bad("%s: %d paths" % (what, len(gs)))
        for w, gp, fp, dp in zip(paths, gs, fs, ds):
            dist = 0.0
            for i, c in enumerate(w):
                p = np.array(PTS[c], dtype=float)
                if i:
                    dist += np.linalg.norm(rec @ (p - np.array(PTS[w[i - 1]])))
                if abs(dp[i] - dist) > 1e-7:
                    raise Bad("%s: distance %s is not %s" % (what, dp[i], dist))
                d = None
                if nac:
                    if c != "G":
                        d = p
                    elif i:
                        d = p - np.array(PTS[w[i - 1]])
                    elif len(w) > 1:
                        d = np.array(PTS[w[1]]) - p
                    if d is not None and np.abs(d).max() < 1e-9:
                        d = None  # neighbour is Gamma as well: no direction
                judge(name, p, clamped, nac, d, fp[i], gp[i], "%s, point %d" % (what, i + 1))
                obs.step()
        obs.state(what)
        obs.outcome((name, len(paths), tuple(len(w) for w in paths)))


# ------------------------------------------------------------------ files
def read_files(stem, mode):
    import h5py
    import yaml

    if mode == "mesh":
        with h5py.File(stem + ".hdf5") as h:
            d = {k: h[k][:] for k in h}
        return [(p, f, t, m, w) for p, f, t, m, w in zip(d["qpoint"], d["frequency"], d["gruneisen_tensor"], d["gruneisen"],
                                                    d["weight"])], d["mesh"].tolist()
    with open(stem + ".yaml") as f:
        d = yaml.safe_load(f)
    out = []
    for ph in [d] if mode == "qpoints" else d["path"]:
        if ph["nqpoint"] != len(ph["phonon"]):
            raise Bad("nqpoint %s in the file" % ph["nqpoint"])
        for p in ph["phonon"]:
            out.append((p["q-position"], [b["frequency"] for b in p["band"]], [b["gruneisen_tensor"] for b in p["band"]],
                        [b["gruneisen"] for b in p["band"]], p.get("distance")))
    return out, None


@contextlib.contextmanager
def scratch():
    import c19

    with c19.Cwd():
        yield


def run_files(case, obs):
    from phono3py.phonon3.gruneisen import run_gruneisen_parameters

    name, nac, form = case["name"], case["nac"], case["form"]
    q, fc2, fc3 = crystal(name)
    p2s = q.primitive.p2s_map
    a2, a3 = (fc2[p2s], fc3[p2s]) if form == "compact" else (fc2, fc3)
    nacp = xtal.nac_params(name, nac) if nac else None
    qs = [[0, 0, 0], [0.25, 0, 0.1], [0.5, 0.5, 0]]
    bands = [np.array([[0, 0, 0], [0.1, 0, 0], [0.2, 0, 0]]), np.array([[0.5, 0.5, 0.1], [0, 0, 0]])]
    mesh = case.get("mesh", [3, 3, 3])
    ops = q.primitive_symmetry.pointgroup_operations
    for mode, clamped, fac, direction, out, log in itertools.product(
            ("mesh", "band", "qpoints"), (False, True), (None, 0, 10.0), (None, [1, 0, 0]), (None, "x"), (0, 1)):
        if direction is not None and not nac:
            continue
        what = "%s, %s, ion_clamped %s, NAC %s (%s), %s, factor %s, output %s, log %s" % (
            name, mode, clamped, nac, direction, form, fac, out, log)
        kw = {"nac_params": nacp, "nac_q_direction": direction, "ion_clamped": clamped, "log_level": log,
              "output_filename": out}
        if fac != 0:
            kw["factor"] = fac  # 0: argument is not given
        f = fac or factor()
        with scratch():
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    run_gruneisen_parameters(
                        a2, a3, q.supercell, q.primitive, bands if mode == "band" else None,
                        mesh if mode == "mesh" else None, ops, qs if mode == "qpoints" else None, **kw)
            except Exception as e:
                raise Bad("%s: %r" % (what, e)) from e
            stem = "gruneisen" + ("" if out is None else "." + out)
            got = sorted(x.name for x in Path(".").iterdir())
            if got != [stem + (".hdf5" if mode == "mesh" else ".yaml")]:
                raise Bad("%s: files %s" % (what, got))
            compare_file(stem, mode, name, clamped, nac, direction, qs, bands, mesh, what, obs, f)


def compare_file(stem, mode, name, clamped, nac, direction, qs, bands, mesh, what, obs, fac=None):
    rows, m = read_files(stem, mode)
    if mode == "qpoints":
        pts = [(np.array(x, dtype=float), direction) for x in qs]
    elif mode == "band":
        pts = []
        for b in bands:
            for i, x in enumerate(b):
                pts.append((x, x - b[i - 1] if i else b[1] - x))
    else:
        if m != list(mesh):
            raise Bad("%s: mesh %s in the file" % (what, m))
        pts = [(np.array(r[0]), direction) for r in rows]
        if sum(r[4] for r in rows) != np.prod(mesh):
            raise Bad("%s: weights in the file" % what)
        # a mesh of the program holds the gamma point whatever its numbers of divisions
        seen = {}
        for r in rows:
            k = np.array(r[0]) * mesh
            if np.abs(k - np.rint(k)).max() > 1e-5:
                raise Bad("%s: point %s is not on the gamma-centred mesh" % (what, r[0]))
            k = tuple(int(x) for x in np.rint(k).astype(int) % np.array(mesh))
            if k in seen:
                raise Bad("%s: point %s is listed twice" % (what, r[0]))
            seen[k] = r[4]
    if len(rows) != len(pts):
        raise Bad("%s: %d points in the file" % (what, len(rows)))
    for (p, d), (p1, f, t, g, x) in zip(pts, rows):
        if np.abs(p - p1).max() > 1e-6:
            raise Bad("%s: point %s in the file is not %s" % (what, p1, p))
        if not nac:
            d = None
        elif np.abs(p).max() > 1e-5:
            d = p
        judge(name, p, clamped, nac, d, f, t, "%s, q %s" % (what, p), fac)
        if np.abs(np.trace(np.array(t), axis1=1, axis2=2) / 3 - g).max() > 3e-7 * max(1, np.abs(g).max()):
            raise Bad("%s: parameter is not the third of the trace" % what)
        obs.step()
    obs.state(what)
    obs.outcome((mode, name, len(rows)))


def run_command(case, obs):
    """The commands with force constants of the files."""
    import c24
    from phono3py.file_IO import write_fc2_to_hdf5, write_fc3_to_hdf5

    name, nac = case["name"], case["nac"]
    q, fc2, fc3 = crystal(name)
    p2s = q.primitive.p2s_map
    sm = CRYST[name][0]
    opts = {"mesh": ["--mesh", *map(str, case.get("mesh", [3, 3, 3]))], "qpoints": ["--qpoints", "0 0 0 1/4 0 0.1 1/2 1/2 0"],
            "band": ["--band", "0 0 0 0.2 0 0 0.5 0.5 0.1"]}
    qs = [[0, 0, 0], [0.25, 0, 0.1], [0.5, 0.5, 0]]
    for cmd, mode, clamped, direction, form, other in itertools.product(
            (case["cmd"],), case["modes"], (False, True), (None, "1 0 0"), ("full", "compact"),
            (None, "same", "size", "less")):
        if direction and not nac:
            continue
        what = "%s: %s, %s, ion clamped %s, NAC %s (%s), %s force constants, supercell of fc2: %s" % (
            cmd, name, mode, clamped, nac, direction, form, other)
        from phono3py import Phono3py

        psm = {None: None, "same": sm, "size": (sm[0] * sm[1], 1, sm[2]), "less": (2, 2, 2)}[other]
        p = Phono3py(q.unitcell, np.diag(sm), primitive_matrix=np.eye(3), phonon_supercell_matrix=None if psm is None else
                     np.diag(psm))
        if nac:
            p.nac_params = xtal.nac_params(name, "gonze")
        b2 = fc2 if other in (None, "same") else xtal.pair_fc(p.phonon_supercell, 2.9)[0]
        with scratch():
            p.save("p.yaml", settings={"force_sets": False, "displacements": False})
            write_fc3_to_hdf5(fc3[p2s] if form == "compact" else fc3, p2s_map=p2s)
            write_fc2_to_hdf5(b2[p.phonon_primitive.p2s_map] if form == "compact" else b2, p2s_map=p.phonon_primitive.p2s_map)
            argv = (["p.yaml", "--no-sym-fc"] if cmd == "phono3py-load" else ["-c", "p.yaml", "--fc2", "--fc3"]) + [
                "--gruneisen"] + opts[mode]
            if nac and cmd == "phono3py":
                argv.append("--nac")
            if clamped:
                argv.append("--ion-clamped")
            if direction:
                argv += ["--q-direction", direction]
            code, out = c24.command(cmd, argv)
            obs.step()
            if other in ("size", "less"):
                if code in (0, None) or not isinstance(code, int):
                    raise Bad("%s: not refused (%s)" % (what, code))
                obs.state(what)
                obs.outcome("refused")
                continue
            if code not in (0, None):
                raise Bad("%s: exit %s %s" % (what, code, out[-300:]))
            bands = [np.linspace([0, 0, 0], [0.2, 0, 0], 51), np.linspace([0.2, 0, 0], [0.5, 0.5, 0.1], 51)]
            compare_file("gruneisen", mode, name, clamped, "gonze" if nac else None,
                         [1, 0, 0] if direction else None, qs, bands, case.get("mesh", [3, 3, 3]), what, obs, case["factor"])


def spaces(tier):
    t = tier == "thorough"
    names = list(CRYST)
    cs = []
    for c in names:
        nacs = [None] + (["gonze", "wang"] if c in NACS else [])
        for k in nacs:
            for f in ("full", "compact") if not t else ("full", "compact", "compact2", "compact3"):
                big = c in ("naclc", "diac", "te", "p4", "wz")
                cs.append({"name": c, "n": 3 if t and not big else (2 if big or f != "full" else 3), "nacs": [k], "forms": [f]})
                if t:
                    cs[-1]["n"] = 5 if not big else 4
    yield Space("modes", cs, run_modes, "all points of a grid of wave vectors x ion clamped x NAC x direction x form")
    ms = [[2, 2, 2], [3, 3, 3], [4, 4, 4]] if not t else [[n, n, m] for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
    cs = []
    for c in ("sc1", "tet1", "tric2", "wz", "zb", "hcp", "te") if not t else names:
        for cl, k in itertools.product((False, True), [None] + (["gonze", "wang"] if c in NACS else [])):
            m = ms if not t else ms if c in ("tet1", "hcp", "wz", "p4", "te", "hex1", "tric2", "tric1", "mono1") else [
                x for x in ms if x[0] == x[2]]
            if cl and not t:
                m = ms[:1]
            for x in m:
                cs.append({"name": c, "clamped": cl, "nac": k, "meshes": [x]})
    yield Space("mesh", cs, run_mesh, "meshes x symmetry x shift x centring")
    yield Space("paths", [{"name": c, "clamped": cl, "nac": k, "depth": 4 if t else 3}
                          for c in (("zb", "tric2") if not t else ("zb", "tric2", "cscl", "nacl", "wz")) for cl in (
                              (False,) if not t else (False, True)) for k in (None, "gonze", "wang")], run_paths,
                "all sequences of up to %d of 5 points, pairs of paths" % (4 if t else 3))
    yield Space("files", [{"name": c, "nac": k, "form": f, "mesh": m} for c, m in (("zb", [2, 2, 2]), ("tric2", [3, 2, 2])) for k in (
        None, "gonze", "wang") for f in ("full", "compact")], run_files, "all modes x arguments")
    yield Space("command", [{"name": c, "nac": k, "factor": None, "cmd": x, "modes": [m], "mesh": [2, 2, 2] if k else [3, 3, 3]}
                            for x in ("phono3py", "phono3py-load") for m in ("mesh", "qpoints", "band") for c in (("cscl",) if not t else ("cscl", "tric2"))
                            for k in (False, True)], run_command, "both commands x modes x options x supercells of fc2")


if __name__ == "__main__":
    main(globals())
