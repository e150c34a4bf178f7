"""C27: the C library of grids: reduced cells, and results free of the choice of basis.

The library (the sources which CMakeLists.txt names for gridsys) is compiled and
called through its C interface.

niggli   all unimodular matrices with elements of a range, and all words of
         elementary changes of basis, applied to lattices of every kind: the result
         is an integer, orientation preserving change of the same lattice, fulfils
         the conditions of a Niggli cell and has one metric whatever basis is given
layer    the same with one axis aperiodic
zone     zone grids for all those bases x meshes x shifts x kinds of map: all
         shortest images and nothing else, the same points in space for all bases
maps     addresses, indices, rotations, point groups, Smith forms, irreducible
         points, rotated zone points, triplets: brute force over orbits
weights  weights of the tetrahedron method and smearing, all kinds of triplets
python   BZGrid for all bases of a lattice: the same points in space
"""

import ctypes
import fcntl
import hashlib
import itertools
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
sys.path.insert(0, str(Path(__file__).resolve().parent))
from vcommon import Bad, Space, main

import refgrid
import vbuild
import xtal

PROPERTY = "C27"
TECHNIQUE = (
    "exhaustive enumeration on the compiled C library: all unimodular changes of basis with small elements and all words of "
    "elementary changes up to a length, for lattices of all kinds, all small meshes, shifts and kinds of map, judged by brute "
    "force over lattice vectors and orbits"
)
LEVEL = "model_checking"
LEVEL_NOTE = "bounded: elements of changes of basis, length of words, mesh numbers; a list of lattices of all Bravais types"


# ------------------------------------------------------------------ library
def sources():
    try:
        t = (vbuild.REPO / "CMakeLists.txt").read_text()
        m = re.search(r"set\(SOURCES_GRIDSYS(.*?)\)", t, re.S)
        s = [Path(x.replace("${PROJECT_SOURCE_DIR}", str(vbuild.REPO))) for x in m.group(1).split()]
        if s and all(x.exists() for x in s):
            return s
    except (AttributeError, OSError):
        pass
    names = ("bzgrid grgrid gridsys lagrid niggli funcs snf3x3 tetrahedron_method triplet triplet_grid triplet_iw recgrid")
    return [x for x in (vbuild.REPO / "c" / (n + ".c") for n in names.split()) if x.exists()]


def build():
    c = vbuild.REPO / "c"
    src = sources()
    h = hashlib.sha256(str(vbuild.REPO).encode())
    for p in sorted(c.glob("*.[ch]")) + [Path(__file__)]:
        h.update(p.read_bytes())
    out = vbuild.BUILD / ("gridsys-" + h.hexdigest()[:20])
    vbuild.BUILD.mkdir(parents=True, exist_ok=True)
    with open(vbuild.BUILD / "gridsys.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not (out / "libgridsys.so").exists():
            for old in vbuild.BUILD.glob("gridsys-*"):
                shutil.rmtree(old, ignore_errors=True)
            out.mkdir()
            # recgrid.c is needed where the list of the build lacks it
            cmd = ["/usr/bin/gcc", "-O2", "-fopenmp", "-fPIC", "-shared", "-w", "-DTHM_EPSILON=1e-10", "-I" + str(c)]
            rec = c / "recgrid.c"
            for extra in ([], [rec] if rec not in src else []):
                r = subprocess.run(cmd + ["-Wl,-z,defs"] + [str(x) for x in src + extra] + ["-o", str(out / "tmp.so"), "-lm"],
                                   capture_output=True, text=True)
                if r.returncode == 0:
                    (out / "linked").write_text("complete" if not extra else "recgrid")
                    break
            else:
                raise RuntimeError("gridsys cannot be compiled\n" + r.stderr[-3000:])
            os.replace(out / "tmp.so", out / "libgridsys.so")
    return out


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(str(build() / "libgridsys.so"))
        _lib.niggli_reduce.argtypes = [ctypes.c_void_p, ctypes.c_double]
        _lib.niggli_reduce.restype = ctypes.c_int
        _lib.niggli_reduce_periodic.argtypes = [ctypes.c_void_p, ctypes.c_double, ctypes.c_int]
        _lib.niggli_reduce_periodic.restype = ctypes.c_int
        I, P, D = ctypes.c_int64, ctypes.c_void_p, ctypes.c_double
        sig = {
            "get_all_grid_addresses": (None, [P, P]),
            "get_double_grid_address": (None, [P, P, P]),
            "get_grid_address_from_index": (None, [P, I, P]),
            "get_double_grid_index": (I, [P, P, P]),
            "get_grid_index_from_address": (I, [P, P]),
            "rotate_grid_index": (I, [I, P, P, P]),
            "get_reciprocal_point_group": (I, [P, P, I, I]),
            "get_snf3x3": (I, [P, P, P, P]),
            "transform_rotations": (I, [P, P, I, P, P]),
            "get_ir_grid_map": (None, [P, P, I, P, P]),
            "get_bz_grid_addresses": (I, [P, P, P, P, P, P, P, I]),
            "rotate_bz_grid_index": (I, [I, P, P, P, P, P, I]),
            "get_triplets_at_q": (I, [P, P, I, P, I, I, P, I]),
            "get_bz_triplets_at_q": (I, [P, I, P, P, P, I, P, P, I]),
            "get_thm_integration_weight": (D, [D, P, ctypes.c_char]),
            "get_thm_all_relative_grid_address": (None, [P]),
            "get_thm_relative_grid_address": (I, [P, P]),
            "get_integration_weight": (I, [P, P, P, I, P, P, P, I, P, P, I, P, I, P, I, I, I]),
            "get_integration_weight_with_sigma": (None, [P, P, D, D, P, I, P, I, P, I, I]),
        }
        for k, (r, a) in sig.items():
            f = getattr(_lib, "gridsys_" + k)
            f.restype, f.argtypes = r, a
    return _lib


def call(name, *args):
    """Call with numpy arrays (int64 or double, kept alive here)."""
    keep, out = [], []
    for a in args:
        if isinstance(a, np.ndarray):
            assert a.flags.c_contiguous, name
            keep.append(a)
            out.append(a.ctypes.data)
        else:
            out.append(a)
    return getattr(lib(), "gridsys_" + name)(*out)


def L(x):
    return np.array(x, dtype=np.int64, order="C")


# ------------------------------------------------------------------ lattices
def lattices():
    """Column vectors; every Bravais type, degenerate metrics and general ones."""
    out = {k: np.array(v[0], dtype=float).T for k, v in xtal.CELLS.items()}
    for k in list(out):
        out["r-" + k] = np.linalg.inv(out[k].T)
    out["long"] = np.diag([2.9, 3.1, 47.0])
    out["flat"] = np.diag([31.0, 33.0, 2.8])
    out["r-long"] = np.linalg.inv(out["long"]).T
    # acute and obtuse cells in which conditions hold with equality
    for n, (A, B, C, x, y, z) in {
        "eq-B-xi": (4.0, 6.0, 9.0, 6.0, 2.5, 1.5), "eq-A-eta": (4.0, 6.0, 9.0, 2.5, 4.0, 1.5),
        "eq-A-zeta": (4.0, 6.0, 9.0, 2.5, 1.5, 4.0), "eq-sum": (4.0, 6.0, 9.0, -5.0, -3.0, -2.0),
        "A=B": (5.0, 5.0, 9.0, 2.5, 3.5, 1.5), "B=C": (4.0, 7.0, 7.0, 3.0, 2.5, 1.5), "A=B=C": (6.0, 6.0, 6.0, 1.0, 2.0, 3.0),
        "eq-B-xi2": (4.0, 6.0, 9.0, 6.0, 2.0, 3.0), "eq-A-eta2": (4.0, 6.0, 9.0, 2.0, 4.0, 3.0),
        "eq-A-zeta2": (4.0, 6.0, 9.0, 2.0, 3.0, 4.0), "eq-sum2": (4.0, 6.0, 9.0, -4.0, -3.5, -2.5),
        "neg": (4.0, 6.0, 9.0, -2.5, -1.5, -1.0), "negA=B": (5.0, 5.0, 9.0, -2.5, -3.5, -1.5),
        "-B": (4.0, 6.0, 9.0, -6.0, -2.0, 0.0), "-A": (4.0, 6.0, 9.0, 0.0, -4.0, -1.0), "zero": (4.0, 6.0, 9.0, 0.0, 0.0, -1.7),
    }.items():
        m = np.array([[A, z / 2, y / 2], [z / 2, B, x / 2], [y / 2, x / 2, C]])
        out["n-" + n] = np.linalg.cholesky(m).T
    return out


def unimodular(n):
    r = range(-n, n + 1)
    e = np.array(list(itertools.product(r, repeat=9)), dtype=int).reshape(-1, 3, 3)
    d = (e[:, 0, 0] * (e[:, 1, 1] * e[:, 2, 2] - e[:, 1, 2] * e[:, 2, 1])
         - e[:, 0, 1] * (e[:, 1, 0] * e[:, 2, 2] - e[:, 1, 2] * e[:, 2, 0])
         + e[:, 0, 2] * (e[:, 1, 0] * e[:, 2, 1] - e[:, 1, 1] * e[:, 2, 0]))
    return e[np.abs(d) == 1]


def words(depth):
    """Bases reached by at most ``depth`` elementary changes (states, not words)."""
    gens = []
    for i, j in itertools.permutations(range(3), 2):
        for s in (1, -1):
            g = np.eye(3, dtype=int)
            g[i, j] = s
            gens.append(g)
    seen = {tuple(np.eye(3, dtype=int).ravel().tolist())}
    front = list(seen)
    for _ in range(depth):
        nxt = []
        for t in front:
            m = np.reshape(t, (3, 3))
            for g in gens:
                k = tuple((m @ g).ravel().tolist())
                if k not in seen:
                    seen.add(k)
                    nxt.append(k)
        front = nxt
    return np.array(sorted(seen)).reshape(-1, 3, 3)


_sets = {}


def bases(kind, n):
    if (kind, n) not in _sets:
        _sets[kind, n] = unimodular(n) if kind == "entries" else words(n)
    return _sets[kind, n]


def six(m):
    g = m.T @ m
    return np.array([g[0, 0], g[1, 1], g[2, 2], 2 * g[1, 2], 2 * g[0, 2], 2 * g[0, 1]])


def niggli_conditions(p, e):
    A, B, C, x, y, z = p
    bad = []

    def need(c, t):
        if not c:
            bad.append(t)

    need(A <= B + e and B <= C + e, "A<=B<=C")
    need(abs(x) <= B + e and abs(y) <= A + e and abs(z) <= A + e, "|xi|<=B, |eta|,|zeta|<=A")
    pos = x > e and y > e and z > e
    neg = x <= e and y <= e and z <= e
    need(pos or neg, "all acute or all not acute")
    need(x + y + z + A + B >= -e, "sum")
    if pos:
        if abs(x - B) <= e:
            need(z <= 2 * y + e, "xi=B")
        if abs(y - A) <= e:
            need(z <= 2 * x + e, "eta=A")
        if abs(z - A) <= e:
            need(y <= 2 * x + e, "zeta=A")
    elif neg:
        if abs(x + B) <= e:
            need(abs(z) <= e, "xi=-B")
        if abs(y + A) <= e:
            need(abs(z) <= e, "eta=-A")
        if abs(z + A) <= e:
            need(abs(y) <= e, "zeta=-A")
        if abs(x + y + z + A + B) <= e:
            need(2 * (A + y) + z <= e, "sum=0")
    if abs(A - B) <= e:
        need(abs(x) <= abs(y) + e, "A=B")
    if abs(B - C) <= e:
        need(abs(y) <= abs(z) + e, "B=C")
    return bad


def minima(lat):
    """Squared lengths of the three shortest independent vectors."""
    b, _ = refgrid.reduce_basis(lat)
    g = np.array([x for x in itertools.product(range(-3, 4), repeat=3) if any(x)])
    v = g @ b.T
    d = (v * v).sum(axis=1)
    got = []
    for i in np.argsort(d, kind="stable"):
        if np.linalg.matrix_rank(np.array([v[j] for j in got] + [v[i]]), tol=1e-8) == len(got) + 1:
            got.append(i)
        if len(got) == 3:
            return d[got]


def run_niggli(case, obs):
    name = case["lattice"]
    base = lattices()[name]
    f = lib().niggli_reduce
    vol = abs(np.linalg.det(base))
    eps = 1e-7 * vol ** (2 / 3)
    want3 = minima(base)
    ref = None
    us = bases(*case["bases"])[case["part"]::case["of"]]
    for u in us:
        lat = np.ascontiguousarray(base @ u)
        m = lat.copy()
        ok = f(m.ctypes.data, eps)
        obs.step()
        what = "%s in the basis %s" % (name, u.tolist())
        if not ok:
            raise Bad("%s: reduction fails" % what)
        t = np.linalg.solve(lat, m)
        ti = np.rint(t)
        if not np.abs(t - ti).max() < 1e-6:
            raise Bad("%s: %s is not a basis of the lattice" % (what, m.tolist()))
        if round(np.linalg.det(ti)) != 1:
            raise Bad("%s: determinant %g of the change of basis" % (what, np.linalg.det(ti)))
        p = six(m)
        bad = niggli_conditions(p, 4 * eps)
        if bad:
            raise Bad("%s: %s does not fulfil %s" % (what, p.round(7).tolist(), bad))
        if np.abs(p[:3] - want3).max() > 20 * eps:
            raise Bad("%s: lengths %s are not the shortest, %s" % (what, p[:3], want3))
        if ref is None:
            ref = p
        if np.abs(p - ref).max() > 50 * eps:
            raise Bad("%s: %s, %s in another basis" % (what, p.round(7).tolist(), ref.round(7).tolist()))
        obs.state((name, tuple(ti.astype(int).ravel().tolist())))
    # a cell which is reduced stays
    obs.outcome((name, tuple((ref / vol ** (2 / 3)).round(5).tolist())))


def run_layer(case, obs):
    name, ax = case["lattice"], case["axis"]
    base = lattices()[name]
    vol = abs(np.linalg.det(base))
    eps = 1e-7 * vol ** (2 / 3)
    ref = None
    for u in bases("entries", 1)[case["part"]::case["of"]]:
        # the other two axes span the same plane
        if ax != -1 and any(u[ax, j] for j in range(3) if j != ax):
            continue
        lat = np.ascontiguousarray(base @ u)
        m = lat.copy()
        ok = lib().niggli_reduce_periodic(m.ctypes.data, eps, ax)
        obs.step()
        what = "%s, axis %d, in the basis %s" % (name, ax, u.tolist())
        if not ok:
            raise Bad("%s: reduction fails" % what)
        t = np.linalg.solve(lat, m)
        ti = np.rint(t).astype(int)
        if not np.abs(t - ti).max() < 1e-6 or round(np.linalg.det(ti)) != 1:
            raise Bad("%s: %s is not a basis of the lattice" % (what, m.tolist()))
        p = six(m)
        if ax != -1:
            if ti[ax, 0] or ti[ax, 1] or abs(ti[ax, 2]) != 1:
                raise Bad("%s: aperiodic axis is mixed into the others: %s" % (what, ti.tolist()))
            if p[0] > p[1] + 4 * eps or abs(p[5]) > p[0] + 4 * eps:
                raise Bad("%s: plane is not reduced: %s" % (what, p))
            q = p[[0, 1]].tolist() + [abs(p[5])]
        else:
            q = p.tolist()
        if ref is None:
            ref = q
        if np.abs(np.array(q) - ref).max() > 50 * eps:
            raise Bad("%s: %s, %s in another basis" % (what, q, ref))
        obs.state((name, ax, tuple(ti.ravel().tolist())))
    obs.outcome((name, ax))


# ------------------------------------------------------------------ grids
class CGrid:
    """Grid of the library with the names of BZGrid."""

    def __init__(self, D, rec, PS=(0, 0, 0), Q=None, P=None, type=2):
        self.D_diag, self.PS = L(D), L(PS)
        self.Q = L(np.eye(3) if Q is None else Q)
        self.P = L(np.eye(3) if P is None else P)
        self.type = type
        n = int(np.prod(self.D_diag))
        self.addresses = np.full((max(27 * n, int(np.prod(self.D_diag + 1)) + 64), 3), -10 ** 6, dtype=np.int64)
        self.gp_map = np.full(9 * n + 1 if type == 1 else n + 1, -7, dtype=np.int64)
        self.bzg2grg = np.full(len(self.addresses), -9, dtype=np.int64)
        rec = np.ascontiguousarray(rec, dtype=float)
        kept = rec.copy()
        size = call("get_bz_grid_addresses", self.addresses, self.gp_map, self.bzg2grg, self.D_diag, self.Q, self.PS, rec, type)
        if (rec != kept).any():
            raise Bad("lattice given is changed")
        if size < n:
            raise Bad("%d zone points of %d" % (size, n))
        if (self.addresses[size:] != -10 ** 6).any() or (self.bzg2grg[size:] != -9).any():
            raise Bad("written beyond the size %d which is returned" % size)
        self.addresses = self.addresses[:size].copy()
        self.bzg2grg = self.bzg2grg[:size].copy()
        self.grg2bzg = np.array([int(np.where(self.bzg2grg == k)[0][0]) for k in range(n)])
        self.QDinv = self.Q / self.D_diag.astype(float)
        self.gp_Gamma = self.grg2bzg[0]
        self.microzone_lattice = rec @ self.QDinv @ self.P


def space_points(g, rec):
    v = (rec @ (g.QDinv @ (g.addresses + g.PS / 2.0).T)).T
    return v


def same_points(a, b, scale):
    if len(a) != len(b):
        return False
    d = np.abs(a[:, None] - b[None]).max(axis=2)
    return bool((d.min(axis=1) < 1e-6 * scale).all() and (d.min(axis=0) < 1e-6 * scale).all())


def run_zone(case, obs):
    import c01

    name, D = case["lattice"], case["mesh"]
    rec = lattices()[name]
    us = bases(*case["bases"])[case["part"]::case["of"]]
    shifts = list(itertools.product((0, 1), repeat=3))
    uniform = len(set(D)) == 1
    ref = {}
    scale = np.abs(rec).max()
    for u in us:
        b = rec @ u
        full = case["bases"][1] == 0 or case.get("full")
        for sh, t in itertools.product(shifts if full else shifts[:1] + shifts[-1:], (1, 2)):
            what = "%s in the basis %s, mesh %s, shift %s, type %d" % (name, u.tolist(), D, sh, t)
            try:
                g = CGrid(D, b, sh, type=t)
                c01.check_grid(g, b, np.array(sh), t == 2, obs)
            except Bad as e:
                raise Bad("%s: %s" % (what, e)) from e
            if uniform and not any(sh):
                v = space_points(g, b)
                if ref.setdefault(t, v) is not v and not same_points(v, ref[t], scale):
                    raise Bad("%s: points differ from those of another basis" % what)
            obs.step()
    obs.outcome((name, tuple(D), sorted((t, len(v)) for t, v in ref.items())))


def run_grg(case, obs):
    """Generalized grids: matrix M of one lattice written in all bases."""
    import c01
    import c03

    name = case["lattice"]
    rec = lattices()[name]
    ref = {}
    scale = np.abs(rec).max()
    for M0 in case["mats"]:
        for u in bases(*case["bases"]):
            # q = rec . x with M x integer; rec = b u^-1
            M = np.array(M0) @ u
            Dd, P, Q = L([0, 0, 0]), L(np.zeros((3, 3))), L(np.zeros((3, 3)))
            if not call("get_snf3x3", Dd, P, Q, L(M)):
                raise Bad("Smith form of %s fails" % M.tolist())
            x = c03.mul(c03.mul(P.tolist(), M.tolist()), Q.tolist())
            if x != np.diag(Dd).tolist() or Dd.min() < 1 or abs(c03.det3(P.tolist())) != 1 or abs(c03.det3(Q.tolist())) != 1:
                raise Bad("Smith form of %s: %s" % (M.tolist(), (Dd, P.tolist(), Q.tolist())))
            b = rec @ u
            for t in (1, 2):
                what = "%s in the basis %s, matrix %s, type %d" % (name, u.tolist(), M.tolist(), t)
                try:
                    g = CGrid(Dd, b, (0, 0, 0), Q, P, type=t)
                    c01.check_grid(g, b, np.zeros(3, dtype=int), t == 2, obs)
                except Bad as e:
                    raise Bad("%s: %s" % (what, e)) from e
                v = space_points(g, b)
                k = (str(M0), t)
                if ref.setdefault(k, v) is not v and not same_points(v, ref[k], scale):
                    raise Bad("%s: points differ from those of another basis" % what)
                obs.step()
    obs.outcome((name, sorted((k, len(v)) for k, v in ref.items())))


def run_maps(case, obs):
    import c02
    import c04

    name = case["xtal"]
    lat, sym, pos = xtal.CELLS[name]
    rec = np.linalg.inv(np.array(lat))
    rots = L(refgrid.crystal_rotations(lat, sym, pos))
    for tr in (0, 1):
        out = L(np.zeros((48, 3, 3)))
        k = call("get_reciprocal_point_group", out, rots, len(rots), tr)
        have = [tuple(r.ravel().tolist()) for r in out[:k]]
        if len(set(have)) != k or set(have) != c02.group(name, bool(tr)):
            raise Bad("%s: reciprocal point group (%d) of %d operations" % (name, k, len(rots)))
        obs.step()
    mats = out[:k].copy()
    for M, PS in itertools.product(case["mats"], itertools.product((0, 1), repeat=3)):
        M = np.array(M)
        D, P, Q = L([0, 0, 0]), L(np.zeros((3, 3))), L(np.zeros((3, 3)))
        if M.ndim == 1:
            D, P, Q = L(M), L(np.eye(3)), L(np.eye(3))
            M = np.diag(M)
        elif not call("get_snf3x3", D, P, Q, L(M)):
            raise Bad("Smith form of %s fails" % M.tolist())
        n = int(np.prod(D))
        what = "%s, matrix %s, shift %s" % (name, M.tolist(), PS)
        PS = L(PS)
        # addresses and indices
        adr = L(np.zeros((n, 3)))
        call("get_all_grid_addresses", adr, D)
        a = np.array([(i, j, k) for k in range(D[2]) for j in range(D[1]) for i in range(D[0])])
        if (adr != a).any():
            raise Bad("%s: addresses" % what)
        for i in range(n):
            x, y = L([0, 0, 0]), L([0, 0, 0])
            call("get_grid_address_from_index", x, i, D)
            call("get_double_grid_address", y, x, PS)
            if (x != a[i]).any() or (y != 2 * a[i] + PS).any():
                raise Bad("%s: address of point %d: %s %s" % (what, i, x, y))
            for z in ((0, 0, 0), (1, -2, 3), (-1, 0, -4)):
                w = L(x + np.array(z) * D)
                if call("get_grid_index_from_address", w, D) != i or call("get_double_grid_index", L(2 * w + PS), D, PS) != i:
                    raise Bad("%s: index of address %s" % (what, w))
                obs.step()
        # operations in the basis of the grid
        tr = L(np.zeros((len(mats), 3, 3)))
        ok = call("transform_rotations", tr, mats, len(mats), D, Q)
        y = np.einsum("i,nij,j->nij", D.astype(float), np.rint(np.linalg.inv(Q)).astype(int) @ mats @ Q, 1.0 / D)
        yi = np.rint(y).astype(int)
        inv = np.abs(y - yi).max() < 1e-6
        if bool(ok) != bool(inv):
            raise Bad("%s: transformation of operations returns %d, grid is %sinvariant" % (what, ok, "" if inv else "not "))
        if not inv:
            obs.outcome("not invariant")
            continue
        if (tr != yi).any():
            raise Bad("%s: transformed operations" % what)
        if any(((r @ PS - PS) % 2).any() for r in yi):
            continue
        im = np.empty((len(yi), n), dtype=int)
        for i, r in enumerate(yi):
            b = np.mod(((a * 2 + PS) @ r.T - PS) // 2, D)
            im[i] = b @ [1, D[0], D[0] * D[1]]
            for j in range(n):
                x = call("rotate_grid_index", j, L(r), D, PS)
                if x != im[i, j]:
                    raise Bad("%s: point %d rotated is %d, expected %d" % (what, j, x, im[i, j]))
                obs.step()
        irm = L(np.full(n, -1))
        call("get_ir_grid_map", irm, tr, len(tr), D, PS)
        if not c04.same_partition(irm, im.min(axis=0)) or (irm[irm] != irm).any() or any(irm[j] not in im[:, j] for j in range(n)):
            raise Bad("%s: map of irreducible points" % what)
        for t in (1, 2):
            g = CGrid(D, rec, PS, Q, P, type=t)
            key = {tuple(x): i for i, x in enumerate(g.addresses.tolist())}
            for r, bz in itertools.product(yi, range(len(g.addresses))):
                x = call("rotate_bz_grid_index", bz, L(r), g.addresses, g.gp_map, D, PS, t)
                w = r @ (2 * g.addresses[bz] + PS) - PS
                if x != key.get(tuple((w // 2).tolist())):
                    raise Bad("%s, type %d: zone point %d %s rotated is %d, expected %s" % (
                        what, t, bz, g.addresses[bz], x, key.get(tuple((w // 2).tolist()))))
                obs.step()
            if PS.any():
                continue
            m = c04.Model(g, rec)
            for gp in range(len(g.addresses)):
                for trv, swap in itertools.product((0, 1), repeat=2):
                    # rotations given are those without time reversal here
                    give = tr[:len(tr) if trv else len(tr)]
                    orb, cls, third, ns = m.classes(m.b2g[gp], give, bool(trv), bool(swap))
                    mt, mq = L(np.full(n, -1)), L(np.full(n, -1))
                    k = call("get_triplets_at_q", mt, mq, int(m.b2g[gp]), D, trv, len(give), L(give), swap)
                    if k != len(np.unique(mt)):
                        raise Bad("%s: %d triplets, returned %d" % (what, len(np.unique(mt)), k))
                    tp = L(np.full((k, 3), -1))
                    k2 = call("get_bz_triplets_at_q", tp, gp, g.addresses, g.gp_map, mt, n, D, Q, t)
                    if k2 != k:
                        raise Bad("%s: %d triplets, returned %d" % (what, k, k2))
                    w = np.bincount(mt, minlength=n)[np.unique(mt)]
                    try:
                        c04.check(m, gp, tp, w, mt, mq, orb, cls, third, obs)
                    except Bad as e:
                        raise Bad("%s, type %d: %s" % (what, t, e)) from e
        obs.state((name, str(M.tolist()), tuple(PS.tolist())))
        obs.outcome((name, n, len(np.unique(irm))))


# ------------------------------------------------------------------ weights
def volume(om, v):
    """Fraction of a tetrahedron with linear values below om (exact, by divided differences)."""
    v = np.sort(v)
    s = 0.0
    for i in range(4):
        if v[i] >= om:
            continue
        s += (om - v[i]) ** 3 / np.prod([v[j] - v[i] for j in range(4) if j != i])
    return s


def run_thm(case, obs):
    """delta and step functions at all orders of vertex values."""
    import c15  # noqa: F401

    base = [0.9, 1.7, 2.3, 3.6]
    rng = np.arange(0.13, 4.2, 0.37)
    for perm in itertools.permutations(range(4)):
        tet = np.array([[base[p] + 0.011 * ((5 * i + 3 * p) % 7) for p in perm] for i in range(24)])
        tet[:, 0] = base[perm[0]]  # the first vertex is common
        for om in rng:
            j = call("get_thm_integration_weight", float(om), np.ascontiguousarray(tet), b"J")
            i = call("get_thm_integration_weight", float(om), np.ascontiguousarray(tet), b"I")
            h = 1e-4
            # weight of the common vertex: from the barycentric integral
            wj, wi = reference_weights(om, tet), (reference_weights(om + h, tet) - reference_weights(om - h, tet)) / (2 * h)
            if abs(j - wj) > 1e-8:
                raise Bad("step weight of %s at %s is %s, not %s" % (perm, om, j, wj))
            if abs(i - wi) > 3e-6:
                raise Bad("delta weight of %s at %s is %s, not %s" % (perm, om, i, wi))
            obs.step(2)
            obs.outcome((perm, round(j, 5)))
        obs.state(perm)


def reference_weights(om, tets):
    """Integral of the linear function which is 1 at the first vertex over {f < om}, mean of tetrahedra (sum of 24 is / 6)."""
    tot = 0.0
    for t in tets:
        # cut by subdivision: {f<om} as a union of simplices, each exactly integrated
        idx = np.argsort(t, kind="stable")
        f = t[idx]
        lam = np.eye(4)[idx][:, 0]  # value of the weight function at the sorted vertices
        P = np.eye(4)

        def cut(i, j):
            s = (om - f[i]) / (f[j] - f[i])
            return P[i] * (1 - s) + P[j] * s

        def integ(s):
            s = np.array(s)
            return abs(np.linalg.det(s)) * (s @ lam).mean()

        k = int((f < om).sum())
        if k == 0:
            continue
        if k == 4:
            tot += lam.mean()
        elif k == 1:
            tot += integ([P[0], cut(0, 1), cut(0, 2), cut(0, 3)])
        elif k == 3:
            tot += lam.mean() - integ([P[3], cut(3, 0), cut(3, 1), cut(3, 2)])
        else:
            a, b, c, d = cut(0, 2), cut(0, 3), cut(1, 2), cut(1, 3)
            tot += integ([P[0], a, b, P[1]]) + integ([P[1], a, b, c]) + integ([P[1], b, c, d])
    return tot / 6


def run_weights(case, obs):
    name, D, t = case["xtal"], L(case["mesh"]), case["type"]
    rec = np.ascontiguousarray(np.linalg.inv(np.array(xtal.CELLS[name][0])))
    n = int(np.prod(D))
    g = CGrid(D, rec, type=t)
    rel = L(np.zeros((24, 4, 3)))
    diag = call("get_thm_relative_grid_address", rel, np.ascontiguousarray(rec / D))
    allrel = L(np.zeros((4, 24, 4, 3)))
    call("get_thm_all_relative_grid_address", allrel)
    dv = np.array([[1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1]]) @ (rec / D).T
    ln = (dv * dv).sum(axis=1)
    if not 0 <= diag < 4 or (rel != allrel[diag]).any() or ln[diag] > ln.min() + 1e-9:
        raise Bad("%s: main diagonal %d of lengths %s" % (name, diag, ln))
    vols = []
    for x in rel:
        if x[0].any():
            raise Bad("first vertex is not the point itself")
        vols.append(abs(round(np.linalg.det(x[1:] - x[0]))))
    if set(vols) != {1}:
        raise Bad("volumes of tetrahedra %s" % vols)
    nb1, nb2, nb0 = 2, 3, 3
    k = np.arange(n)
    f1 = np.array([2 + np.sin(1.3 * k + b) + 0.4 * np.cos(2.1 * k * (b + 1)) for b in range(nb1)]).T
    f2 = np.array([1.5 + np.cos(0.7 * k + 2 * b) + 0.3 * np.sin(1.9 * k + b) for b in range(nb2)]).T
    f1[0, 0] = -0.4  # imaginary
    F1, F2 = (np.ascontiguousarray(f[g.bzg2grg]) for f in (f1, f2))
    fp = np.array([0.37, 2.11, 3.83])
    mt, mq = L(np.full(n, -1)), L(np.full(n, -1))

    def idx(x):
        return np.mod(x, D) @ [1, D[0], D[0] * D[1]]

    for gp in range(len(g.addresses)):
        rots = L(np.eye(3)[None])
        call("get_triplets_at_q", mt, mq, int(g.bzg2grg[gp]), D, 0, 1, rots, 0)
        tp = L(np.full((n, 3), -1))
        call("get_bz_triplets_at_q", tp, gp, g.addresses, g.gp_map, mt, n, D, g.Q, t)
        for tp_type, per in itertools.product((2, 3, 4), (0, 1)):
            what = "%s, mesh %s, type %d, point %d, tp_type %d, per triplet %d" % (name, D, t, gp, tp_type, per)
            ni = {2: 2, 3: 3, 4: 1}[tp_type]
            tr = tp.copy()
            if tp_type == 4:  # q + k_i - k_f = G
                tr[:, 2] = [g.grg2bzg[idx(g.addresses[a] + g.addresses[b])] for a, b in tr[:, :2]]
            iw = np.full((ni, n, nb0, nb1, nb2), np.nan)
            zero = np.full((n, nb0, nb1, nb2), 7, dtype="b")
            call("get_integration_weight", iw, zero, fp, nb0, rel, D, tr, n, g.addresses, g.gp_map, t, F1, nb1, F2, nb2,
                 tp_type, per)
            for i in range(n):
                a1 = idx(g.addresses[tr[i, 1]] + rel)
                a2 = idx(g.addresses[tr[i, 2]] + rel * (1 if tp_type == 4 else -1))
                for b1, b2 in itertools.product(range(nb1), range(nb2)):
                    v1, v2 = f1[a1, b1], f2[a2, b2]
                    if tp_type != 4:
                        v1, v2 = np.maximum(v1, 0), np.maximum(v2, 0)
                    for j in range(nb0):
                        gs, inside = [], False
                        for v in ((-v1 + v2,) if tp_type == 4 else (-v1 + v2, v1 - v2, v1 + v2)):
                            v = np.ascontiguousarray(v)
                            out = not v.min() <= fp[j] <= v.max()
                            inside |= not out
                            gs.append(0.0 if out else call("get_thm_integration_weight", float(fp[j]), v, b"I"))
                        want = [gs[0]] if tp_type == 4 else [gs[2], gs[0] - gs[1]] + (
                            [sum(gs)] if tp_type == 3 else [])
                        got = iw[:, i, j, b1, b2]
                        if not np.abs(got - want).max() < 1e-10:
                            raise Bad("%s: triplet %d, bands %s: %s is not %s" % (what, i, (j, b1, b2), got, want))
                        if zero[i, j, b1, b2] not in (0, 1) or bool(zero[i, j, b1, b2]) and inside:
                            raise Bad("%s: triplet %d, bands %s: marked as zero" % (what, i, (j, b1, b2)))
                        obs.step()
            # smearing
            nb = nb1
            for sig, cut in itertools.product((0.1, 0.7), (0.0, 2.0)):
                iw = np.full((ni, n, nb0, nb, nb), np.nan)
                zero = np.full((n, nb0, nb, nb), 7, dtype="b")
                call("get_integration_weight_with_sigma", iw, zero, sig, cut, fp, nb0, tr, n, F1, nb, tp_type)
                x1 = F1[tr[:, 1]][:, None, :, None]
                x2 = F1[tr[:, 2]][:, None, None, :]
                x0 = fp[None, :, None, None]
                ds = [x0 + x1 - x2, x0 - x1 + x2, x0 - x1 - x2]
                if tp_type == 4:
                    ds = ds[:1]
                gs = [np.exp(-d ** 2 / 2 / sig ** 2) / np.sqrt(2 * np.pi) / sig for d in ds]
                off = np.all([np.abs(d) > cut * sig for d in ds], axis=0) if cut else np.zeros(gs[0].shape, bool)
                gs = [np.where(off, 0, x) for x in gs]
                want = gs[:1] if tp_type == 4 else [gs[2], gs[0] - gs[1]] + ([sum(gs)] if tp_type == 3 else [])
                if not np.abs(iw - np.array(want)).max() < 1e-9 or (zero.astype(bool) != off).any():
                    raise Bad("%s, sigma %s, cutoff %s: weights" % (what, sig, cut))
                obs.step()
        obs.state((name, tuple(D.tolist()), t, gp))
    obs.outcome((name, tuple(D.tolist()), len(g.addresses)))


# ------------------------------------------------------------------ python
def run_python(case, obs):
    import c01
    from phono3py.phonon.grid import BZGrid

    name, n = case["lattice"], case["n"]
    lat = np.array(xtal.CELLS[name][0], dtype=float)
    ref = {}
    for u in bases(*case["bases"])[case["part"]::case["of"]]:
        b = u.T @ lat
        rec = np.linalg.inv(b)
        for dense in (True, False):
            what = "%s in the basis %s, mesh %d, dense %s" % (name, u.tolist(), n, dense)
            g = BZGrid([n, n, n], lattice=b, store_dense_gp_map=dense)
            obs.step()
            v = space_points(g, rec)
            if ref.setdefault(dense, v) is not v and not same_points(v, ref[dense], np.abs(rec).max()):
                raise Bad("%s: points differ from those of another basis" % what)
            if case["part"] == 0 and u is bases(*case["bases"])[0]:
                c01.check_grid(g, rec, np.zeros(3, dtype=int), dense, obs)
            obs.state((what,))
    obs.outcome((name, n, sorted((k, len(v)) for k, v in ref.items())))


def spaces(tier):
    t = tier == "thorough"
    names = list(lattices())
    yield Space("niggli", [{"lattice": x, "bases": ["entries", 1], "part": 0, "of": 1} for x in names] + [
        {"lattice": x, "bases": ["words", 4 if not t else 5], "part": p, "of": 1 if not t else 4}
        for x in names for p in range(1 if not t else 4)] + (
        [{"lattice": x, "bases": ["entries", 2], "part": p, "of": 16} for x in names for p in range(16)] if t else []),
        run_niggli, "lattices x all unimodular matrices with elements up to %d and all words of %d elementary changes" % (
            2 if t else 1, 5 if t else 4))
    yield Space("layer", [{"lattice": x, "axis": a, "part": 0, "of": 1} for x in (
        names if t else ["tric1", "hex1", "ort1", "n-A=B", "r-zb", "te"]) for a in (-1, 0, 1, 2)], run_layer,
        "lattices x aperiodic axis x all unimodular matrices with elements up to 1 which keep the plane")
    ls = names if t else ["r-fcc1", "r-bcc1", "r-sc1", "r-hex1", "r-tric1", "r-bcts", "r-mono1", "r-rhom1", "long", "r-long", "n-eq-sum",
                          "n-A=B=C"]
    cs = []
    for x in ls:
        for m in ([1, 1, 1], [2, 2, 2], [3, 3, 3]) if not t else ([1, 1, 1], [2, 2, 2], [3, 3, 3], [4, 4, 4]):
            cs += [{"lattice": x, "mesh": m, "bases": ["entries", 1], "part": p, "of": 60 if not t else 24}
                   for p in range(0, 60 if not t else 24, 20 if not t else 8)]
            cs.append({"lattice": x, "mesh": m, "bases": ["words", 2 if t and m[0] == 2 else 1], "part": 0, "of": 1})
        for m in itertools.product((1, 2, 3), repeat=3) if not t else itertools.chain(
                itertools.product((1, 2, 3), repeat=3), itertools.permutations((1, 2, 4)), [(4, 4, 4), (1, 1, 4), (4, 4, 1)]):
            cs.append({"lattice": x, "mesh": list(m), "bases": ["words", 0], "part": 0, "of": 1})
    yield Space("zone", cs, run_zone, "lattices x meshes x shifts x kinds of map x bases")
    mats = [[[2, 0, 0], [0, 2, 0], [0, 0, 3]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
            [[2, 1, 0], [0, 2, 1], [1, 0, 2]], [[0, 2, 2], [2, 0, 2], [2, 2, 0]]]
    yield Space("grg", [{"lattice": x, "mats": [m], "bases": ["words", 2 if not t else 3]} for x in (
        ["r-fcc1", "r-hex1", "r-tric1", "r-mono1"] if not t else names) for m in mats], run_grg,
        "generalized grids x words of elementary changes of basis")
    mm = {"sc1": [[2, 2, 2], [3, 3, 3]], "hcp": [[2, 2, 1], [3, 3, 2], [[3, 3, 0], [0, 3, 0], [0, 0, 1]]],
          "fcc1": [[2, 2, 2], [[-2, 2, 2], [2, -2, 2], [2, 2, -2]], [2, 1, 1]],
          "bct1": [[[0, 2, 2], [2, 0, 2], [1, 1, 0]], [2, 2, 2]], "tric2": [[2, 3, 1], [[2, 1, 0], [0, 2, 1], [1, 0, 2]]],
          "wz": [[2, 2, 2], [1, 1, 3]], "zb": [[3, 3, 3], [[-2, 2, 2], [2, -2, 2], [2, 2, -2]]], "p4": [[2, 2, 3], [3, 2, 1]],
          "te": [[3, 3, 1]], "mono1": [[2, 2, 3], [[2, 0, 1], [0, 2, 0], [-1, 0, 2]]]}
    if t:
        mm = {k: v + [[4, 4, 4], [4, 4, 2], [1, 2, 2]] for k, v in mm.items()}
        mm["dia"] = [[3, 3, 3], [[0, 2, 2], [2, 0, 2], [2, 2, 0]]]
        mm["ort1"] = [list(x) for x in itertools.product((1, 2, 3), repeat=3)]
    yield Space("maps", [{"xtal": k, "mats": [m]} for k, v in mm.items() for m in v], run_maps,
                "crystals x grids x all shifts x kinds of map: every function on every point and operation")
    yield Space("thm", [{}], run_thm, "all orders of vertex values x frequencies")
    ws = [("sc1", [2, 2, 2]), ("tric2", [2, 1, 2]), ("hcp", [2, 2, 1])]
    if t:
        ws += [("zb", [3, 3, 3]), ("bcc1", [2, 2, 2]), ("mono1", [3, 2, 2]), ("rhom1", [2, 2, 2])]
    yield Space("weights", [{"xtal": x, "mesh": m, "type": k} for x, m in ws for k in (1, 2)], run_weights,
                "all zone points x all triplets x bands x kinds of weights")
    yield Space("python", [{"lattice": x, "n": n, "bases": ["entries", 1], "part": p, "of": 6}
                           for x in ("fcc1", "hex1", "tric1", "bcts") for n in ((1, 2) if not t else (1, 2, 3))
                           for p in range(0, 6, 3 if not t else 1)], run_python, "BZGrid in all bases of a lattice")


if __name__ == "__main__":
    main(globals())
