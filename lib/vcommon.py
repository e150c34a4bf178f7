"""Shared driver of the checks: exhaustive exploration, replay and evidence.

A check is a python file in /verif/checks which defines

    PROPERTY = "Cnn"
    def spaces(tier) -> iterable of Space
    (optional) variant = "main"

A Space is a finite set of cases (JSON-able dicts), enumerated completely, and
a function ``run(case, obs)`` that drives the real code along that case and
raises ``Bad`` when the property does not hold.  ``obs`` collects what was
reached: ``obs.state(x)`` for a state of the system under test, ``obs.step(n)``
for transitions (operations executed on the implementation), ``obs.outcome(x)``
for the observation made at the end.

The exploration runs in worker processes: a worker which dies (a crash of the
C code) or does not come back is a violation too, with the case it was running.
"""

import argparse
import hashlib
import importlib.util
import json
import os
import multiprocessing as mp
import shutil
import sys
import tempfile
import time
import traceback
from pathlib import Path

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True

LIB = Path(__file__).resolve().parent
VERIF = LIB.parent
sys.path.insert(0, str(LIB))

import vbuild  # noqa: E402

REPO = vbuild.REPO
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HARD_LIMIT = float(os.environ.get("VERIF_HARD_LIMIT", "840"))


class Bad(Exception):
    """The property does not hold on the case.

    ``key`` identifies the failing input/call site for the known findings.
    """

    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.key = key
        self.detail = detail


class Obs:
    """What one case has reached."""

    def __init__(self):
        self.states = set()
        self.steps = 0
        self.traces = 1
        self.outcomes = set()
        self.notes = {}
        self.findings = []

    @staticmethod
    def digest(x):
        return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()

    def state(self, x):
        self.states.add(self.digest(x))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, x):
        self.outcomes.add(self.digest(x))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def bad(self, msg, key=None, **detail):
        """Record a violation and go on with the case (non-fatal)."""
        self.findings.append({"msg": str(msg), "key": key, "detail": detail})


class Space:
    def __init__(self, name, cases, run, bound="", setup=None, chunk=1):
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound
        self.setup = setup
        self.chunk = chunk


def known_findings(prop):
    """Open findings of the property: {key: text}."""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line.startswith("open: property=%s " % prop):
                continue
            rest = line.split(" ", 2)[2]
            assert rest.startswith("key="), line
            key, _, text = rest[4:].partition(" ")
            out[key] = text
    return out


# ---------------------------------------------------------------- worker side
_SP = None
_CUR = None


def _err_text():
    return traceback.format_exc(limit=-8)


def run_case(space, case):
    obs = Obs()
    t = time.time()
    try:
        space.run(case, obs)
    except Bad as e:
        obs.findings.append({"msg": str(e), "key": e.key, "detail": e.detail})
    except (KeyboardInterrupt, SystemExit) as e:
        obs.findings.append(
            {"msg": "unexpected %r" % e, "key": None, "detail": {"tb": _err_text()}}
        )
    except MemoryError:
        raise
    except Exception:
        obs.findings.append(
            {"msg": "unexpected exception " + _err_text().strip().splitlines()[-1],
             "key": None, "detail": {"tb": _err_text()}}
        )
    return obs, time.time() - t


def _worker(conn, spaces):
    # own directory, so that files of the code under test stay there
    d = tempfile.mkdtemp(prefix="verif-w-")
    os.chdir(d)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    ready = set()
    try:
        while True:
            m = conn.recv()
            if m is None:
                break
            si, batch = m
            sp = spaces[si]
            if sp.setup is not None and si not in ready:
                sp.setup()
            ready.add(si)
            res = []
            for ci, case in batch:
                conn.send(("start", ci))
                obs, dt = run_case(sp, case)
                res.append((ci, obs, dt))
            conn.send(("done", res))
    except EOFError:
        pass
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    conn.close()
    os._exit(0)


class Pool:
    """Fork pool which survives and reports crashes of a worker."""

    def __init__(self, spaces, n):
        self.spaces = spaces
        self.ctx = mp.get_context("fork")
        self.n = n
        self.w = []

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.spaces), daemon=False)
        p.start()
        b.close()
        return {"p": p, "c": a, "cur": None, "batch": None, "si": None}

    def map(self, si, cases, on_result, deadline):
        sp = self.spaces[si]
        it = enumerate(cases)
        total = 0

        def nextbatch():
            b = []
            for x in it:
                b.append(x)
                if len(b) >= sp.chunk:
                    break
            return b

        while len(self.w) < self.n:
            self.w.append(self._spawn())
        active = set()
        store = {}
        exhausted = False
        stop = False
        while True:
            for k, w in enumerate(self.w):
                if k in active or exhausted or stop:
                    continue
                b = nextbatch()
                if not b:
                    exhausted = True
                    break
                total += len(b)
                w["batch"], w["si"], w["cur"] = b, si, None
                for ci, c in b:
                    store[ci] = c
                w["c"].send((si, b))
                active.add(k)
            if not active:
                break
            conns = [self.w[k]["c"] for k in active]
            r = mp.connection.wait(conns, timeout=5)
            if time.time() > deadline:
                for k in list(active):
                    w = self.w[k]
                    w["p"].kill()
                ci = self.w[sorted(active)[0]]["cur"]
                return total, ("hang", store.get(ci))
            for k in list(active):
                w = self.w[k]
                if w["c"] not in r:
                    continue
                try:
                    kind, val = w["c"].recv()
                except (EOFError, ConnectionResetError):
                    w["p"].join(10)
                    ci = w["cur"]
                    obs = Obs()
                    obs.findings.append({
                        "msg": "process died with exit code %s" % w["p"].exitcode,
                        "key": "crash", "detail": {}})
                    if on_result(store.get(ci), obs, 0.0):
                        stop = True
                    done_upto = ci if ci is not None else -1
                    rest = [x for x in w["batch"] if x[0] > done_upto]
                    self.w[k] = self._spawn()
                    active.discard(k)
                    if rest and not stop:
                        w2 = self.w[k]
                        w2["batch"], w2["si"], w2["cur"] = rest, si, None
                        w2["c"].send((si, rest))
                        active.add(k)
                    continue
                if kind == "start":
                    w["cur"] = val
                else:
                    for ci, obs, dt in val:
                        if on_result(store.pop(ci), obs, dt):
                            stop = True
                    active.discard(k)
        return total, None

    def close(self):
        for w in self.w:
            try:
                w["c"].send(None)
            except Exception:
                pass
        for w in self.w:
            w["p"].join(5)
            if w["p"].is_alive():
                w["p"].kill()


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist()) if x.size <= 200 else "array%s" % (x.shape,)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def main(mod_globals):
    prop = mod_globals["PROPERTY"]
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=TIER)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--space")
    ap.add_argument("--max-violations", type=int, default=5)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    try:
        vbuild.activate(mod_globals.get("VARIANT", "main"))
    except Exception:
        traceback.print_exc()
        print("ERROR: cannot build or import the code of /repo")
        sys.exit(2)
    spaces = list(mod_globals["spaces"](args.tier))
    if args.replay:
        rec = json.loads(Path(args.replay).read_text())
        sp = [s for s in spaces if s.name == rec["space"]][0]
        d = tempfile.mkdtemp(prefix="verif-r-")
        os.chdir(d)
        try:
            if sp.setup is not None:
                sp.setup()
            obs, _ = run_case(sp, rec["case"])
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        for f in obs.findings:
            print(f["msg"])
            for k, v in f["detail"].items():
                print("  %s: %s" % (k, v))
        print("%d violation(s) on replay" % len(obs.findings))
        sys.exit(1 if obs.findings else 0)
    if args.space:
        spaces = [s for s in spaces if s.name == args.space]
    known = known_findings(prop)
    hit = {}
    viol = []
    states, outcomes, notes = set(), set(), {}
    steps = traces = 0
    samples = []
    per_space = {}
    slowest = []
    pool = Pool(spaces, args.jobs)
    exhaustive = True
    deadline = t0 + HARD_LIMIT
    for si, sp in enumerate(spaces):
        ts = time.time()
        st = {"cases": 0, "states": 0, "steps": 0}
        sp_states = set()

        def on_result(case, obs, dt, sp=sp, st=st, sp_states=sp_states):
            nonlocal steps, traces
            st["cases"] += 1
            steps += obs.steps
            st["steps"] += obs.steps
            traces += obs.traces
            for s in obs.states:
                sp_states.add(s)
                states.add(sp.name + s)
            for o in obs.outcomes:
                outcomes.add(sp.name + o)
            for k, n in obs.notes.items():
                notes[k] = notes.get(k, 0) + n
            if st["cases"] <= 2 and len(samples) < 24:
                samples.append({"space": sp.name, "case": _jsonable(case)})
            slowest.append((dt, sp.name, case))
            slowest.sort(key=lambda x: -x[0])
            del slowest[5:]
            for f in obs.findings:
                if f["key"] is not None and f["key"] in known:
                    hit.setdefault(f["key"], 0)
                    hit[f["key"]] += 1
                else:
                    viol.append((sp.name, case, f))
            return len(viol) >= args.max_violations

        total, hang = pool.map(si, sp.cases, on_result, deadline)
        if hang is not None:
            viol.append((sp.name, hang[1], {
                "msg": "no end of this case within the time of the check",
                "key": "hang", "detail": {}}))
        st["states"] = len(sp_states)
        st["bound"] = sp.bound
        st["wall_s"] = round(time.time() - ts, 2)
        per_space[sp.name] = st
        if args.v:
            print(sp.name, st, flush=True)
        if viol:
            exhaustive = False
            break
    pool.close()
    if args.v:
        for s in slowest:
            print("slow", s)
    ev = {
        "property": prop,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": SEED,
        "level": mod_globals.get("LEVEL", "model_checking"),
        "coverage": {
            "states": len(states),
            "transitions": steps,
            "traces_validated_against_impl": traces,
            "evaluations": sum(s["cases"] for s in per_space.values()),
            "distinct_nontrivial": len(outcomes),
            "rule": mod_globals.get(
                "RULE", "cases enumerated completely within the bounds of each space; "
                "distinct observations (results of the real code) are counted"),
            "samples": samples,
            "exhaustive": exhaustive,
            "spaces": per_space,
            "notes": notes,
        },
        "assumptions": mod_globals.get("ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    evd = VERIF / "evidence"
    evd.mkdir(exist_ok=True)
    if not args.space:
        (evd / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s [%d case(s)]" % (prop, known[k], hit[k]))
    if viol:
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        for sname, case, f in viol[: args.max_violations]:
            rec = {"property": prop, "space": sname, "case": _jsonable(case),
                   "msg": f["msg"], "key": f["key"], "detail": _jsonable(f["detail"]),
                   "how": "%s %s --replay <this file>"
                   % (sys.executable, os.path.abspath(mod_globals["__file__"]))}
            text = json.dumps(rec, indent=1)
            p = rd / ("%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
            p.write_text(text)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  [%s] %s (key=%s)" % (sname, f["msg"][:600], f["key"]))
        sys.exit(1)
    print("OK property=%s cases=%d states=%d transitions=%d outcomes=%d wall=%.1fs" % (
        prop, ev["coverage"]["evaluations"], len(states), steps, len(outcomes),
        ev["wall_s"]))
    sys.exit(0)


# ------------------------------------------------------------------ utilities
def close(a, b, tol, what, key=None, scale=None, **detail):
    """Compare arrays with tolerance ``tol`` relative to ``scale``."""
    import numpy as np

    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Bad("%s: shapes %s and %s differ" % (what, a.shape, b.shape), key, **detail)
    if a.size == 0:
        return
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all() or not fa.all():
        if not fa.all() or not fb.all():
            raise Bad("%s: values not finite" % what, key, **detail)
    if scale is None:
        scale = max(np.abs(b).max(), 1e-300)
    d = np.abs(a - b)
    if d.max() > tol * scale:
        i = np.unravel_index(np.argmax(d), d.shape)
        raise Bad("%s: %s != %s at %s (difference %.3e, scale %.3e, tolerance %.1e)"
                  % (what, a[i], b[i], tuple(int(x) for x in i), d.max(), scale, tol),
                  key, **detail)


def rd(x, n=6):
    """Rounded, hashable digest of an array for state counting."""
    import numpy as np

    x = np.asarray(x)
    if x.dtype.kind in "fc":
        m = np.abs(x).max() if x.size else 0
        if m > 0:
            x = np.rint(x / m * 10**n)
        x = x + 0.0
    return (x.shape, hashlib.blake2b(np.ascontiguousarray(x).tobytes(),
                                     digest_size=8).hexdigest())
