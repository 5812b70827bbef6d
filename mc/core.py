"""Exploration bookkeeping shared by all checks: states, transitions, oracles, evidence."""
import json
import math
import os
import signal
import sys
import time
import traceback
from multiprocessing import get_context

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


def known_keys(prop):
    """Keys of the findings listed for `prop`: lines 'known: property=<id> key=<key> <text>'."""
    out = {}
    with open(KNOWN_FILE) as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            parts = line.split(None, 3)
            if parts[1] == "property=" + prop and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3]
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return "array%s" % (x.shape,)
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Tally:
    """What one exploration (or one part of it) saw."""

    MAXV = 5

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.violations = []
        self.known = {}
        self.outcomes = set()
        self.samples = []
        self.notes = {}
        self.maxerr = {}
        self._known_keys = None
        self.case = None
        self.stop = False

    # -- bookkeeping -----------------------------------------------------------------
    def state(self, *key):
        self.states.add(hash(_freeze(key)))

    def step(self, n=1):
        self.transitions += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def outcome(self, *key):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hash(_freeze(key)))

    # -- oracles ---------------------------------------------------------------------
    def fail(self, what, **detail):
        if len(self.violations) < self.MAXV:
            self.violations.append({"what": what, "detail": jsonable(detail)})
        return False

    def known_finding(self, key, **detail):
        """A violation that is listed as a known finding; anything unlisted is a violation."""
        if self._known_keys is None:
            self._known_keys = known_keys(self.prop)
        if key in self._known_keys:
            self.known[key] = self._known_keys[key]
            return True
        return self.fail("unlisted finding " + key, **detail)

    def check(self, ok, what, **detail):
        self.validated += 1
        if not bool(ok):
            return self.fail(what, **detail)
        return True

    def close(self, what, got, want, tol=1e-9, scale=None, vec=None, atol=0.0, **detail):
        """Compare an observed value with the reference model's.

        The error is relative to `scale`; by default to the norm of the expected vector at
        every point (`vec=True`: the last axis of size 3 holds vector components; `vec=2`:
        the last two hold a tensor), or to the expected value itself.
        """
        self.validated += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or g.dtype.kind in "USO":
                return self.fail(what + ": not numeric", got=got, **detail)
        except Exception as e:
            return self.fail(what + ": not an array (%s)" % e, **detail)
        if g.shape != w.shape:
            return self.fail(what + ": shape", got=g.shape, want=w.shape, **detail)
        if g.size == 0:
            return True
        if scale is None:
            if vec is None:
                vec = w.ndim >= 1 and w.shape[-1] == 3
            a = np.abs(w)
            if vec == 2:
                s = np.sqrt(np.sum(a ** 2, axis=(-2, -1), keepdims=True))
            elif vec:
                s = np.sqrt(np.sum(a ** 2, axis=-1, keepdims=True))
            else:
                s = a
        else:
            s = np.abs(np.asarray(scale, dtype=float))
        lim = tol * s + atol
        err = np.abs(g - w)
        bad = ~(err <= lim)  # also catches NaN
        wn = ~np.isfinite(w)
        if wn.any():
            raise AssertionError("reference value not finite: %s" % what)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.where(np.isfinite(err), err, np.inf), -1)), bad.shape)
            return self.fail(what, index=list(map(int, i)), got=g[i], want=w[i],
                             err=float(err[i]) if np.isfinite(err[i]) else repr(err[i]),
                             limit=float(np.broadcast_to(lim, g.shape)[i]), nbad=int(bad.sum()), **detail)
        with np.errstate(all="ignore"):
            m = float(np.nanmax(np.where(lim > 0, err / np.where(lim > 0, lim, 1), 0)))
        k = what.split(":")[0]
        if m > self.maxerr.get(k, 0.0):
            self.maxerr[k] = m
        return True

    def same(self, what, got, want, **detail):
        """Exact equality (values, shape, NaN positions)."""
        self.validated += 1
        if not same(got, want):
            return self.fail(what, got=got, want=want, **detail)
        return True

    def raises(self, what, fn, *args, **kw):
        """The call has to be rejected with an exception."""
        self.validated += 1
        self.transitions += 1
        try:
            r = fn(*args, **kw)
        except Exception:
            return True
        return self.fail(what + ": accepted", returned=r)

    # -- merging ---------------------------------------------------------------------
    def pack(self):
        return dict(states=self.states, transitions=self.transitions, validated=self.validated,
                    violations=self.violations, known=self.known, outcomes=self.outcomes,
                    samples=self.samples, notes=self.notes, maxerr=self.maxerr)

    def merge(self, d, case):
        self.states |= d["states"]
        self.transitions += d["transitions"]
        self.validated += d["validated"]
        self.known.update(d["known"])
        self.outcomes |= d["outcomes"]
        for k, v in d["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in d["maxerr"].items():
            self.maxerr[k] = max(v, self.maxerr.get(k, 0.0))
        for s in d["samples"]:
            if len(self.samples) < 6:
                self.samples.append({"case": jsonable(case), "sample": s})
        for v in d["violations"]:
            self.violations.append(dict(v, case=case))


def _freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(_freeze(v) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((k, _freeze(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes())
    return x


def same(a, b):
    if type(a) is np.ndarray and type(b) is np.ndarray and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes():
        return True
    if type(a) is type(b) and type(a) in (float, int, bool, str) and a == b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype == object or x.dtype.kind in "US" or y.dtype.kind in "USO":
            return bool(np.all(x == y))
        return bool(np.array_equal(x, y, equal_nan=True))
    except Exception:
        return a == b


def gray(sizes):
    """Reflected mixed-radix Gray code: every tuple once, neighbours differ in one digit."""
    if not sizes:
        yield ()
        return
    head, tail = sizes[0], sizes[1:]
    rest = list(gray(tail))
    for i in range(head):
        for t in (rest if i % 2 == 0 else reversed(rest)):
            yield (i,) + t


class Hang(Exception):
    pass


_MOD = None
_CTX = None


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_one(mod, case, prop, tier):
    t = Tally(prop, tier)
    t.case = case
    harness_error = None
    try:
        with np.errstate(all="ignore"):
            mod.run_case(case, t)
    except (MemoryError, KeyboardInterrupt, OSError) as e:
        harness_error = traceback.format_exc()
    except Exception as e:
        # The harness is deterministic and runs through on the unchanged tree: an exception
        # is something the code under test did (raised, or returned what cannot be used).
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith("/repo/")]
        ours = [f for f in tb if f.filename.startswith(VERIF)]
        t.fail("exception: %s: %s" % (type(e).__name__, str(e)[:300]),
               at=["%s:%s %s" % (f.filename, f.lineno, f.name) for f in (where[-2:] + ours[-2:])])
    return t.pack(), harness_error


def _work(i):
    mod, cases, prop, tier = _CTX
    return (i,) + run_one(mod, cases[i], prop, tier)


def run_check(mod, prop, tier, seed, procs=8, only=None):
    """Explore every case of a check; write evidence; return the exit status."""
    global _CTX
    t0 = time.time()
    total = Tally(prop, tier)
    cases = mod.cases(tier) if only is None else [only]
    _CTX = (mod, cases, prop, tier)
    errors = []
    results = {}
    if only is not None or procs == 1 or getattr(mod, "SERIAL", False):
        for i in range(len(cases)):
            _, d, e = _work(i)
            results[i] = d
            if e:
                errors.append(e)
    else:
        ctx = get_context("fork")
        with ctx.Pool(min(procs, max(1, len(cases))), initializer=_init) as pool:
            for i, d, e in pool.imap_unordered(_work, range(len(cases)), chunksize=1):
                results[i] = d
                if e:
                    errors.append(e)
    for i in sorted(results):
        total.merge(results[i], cases[i])
    if hasattr(mod, "finish"):
        with np.errstate(all="ignore"):
            mod.finish(total, cases)
    wall = time.time() - t0
    for key, text in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    status = 0
    if total.violations:
        status = 1
        rdir = os.path.join(EVID, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        if only is None:
            first = total.violations[0]
            with open(path, "w") as fh:
                json.dump({"property": prop, "tier": tier, "case": jsonable_case(first["case"]),
                           "what": first["what"], "detail": first["detail"],
                           "rerun": "bin/check %s --tier %s --replay %s" % (prop, tier, path)}, fh, indent=1)
        for v in total.violations[:10]:
            print("  %s %s" % (v["what"], json.dumps(v["detail"])[:600]))
            print("     case %s" % json.dumps(jsonable(v["case"]))[:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    elif errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        status = 2
    if only is None:
        write_evidence(mod, prop, tier, seed, total, cases, wall)
    print("%s %s: cases=%d states=%d transitions=%d validated=%d outcomes=%d violations=%d wall=%.1fs" % (
        prop, tier, len(cases), len(total.states), total.transitions, total.validated,
        len(total.outcomes), len(total.violations), wall))
    if os.environ.get("VERIF_DEBUG"):
        print(json.dumps({k: round(v, 4) for k, v in sorted(total.maxerr.items(), key=lambda kv: -kv[1])}, indent=0))
        print(json.dumps(total.notes))
    return status


def jsonable_case(case):
    return json.loads(json.dumps(case))


def write_evidence(mod, prop, tier, seed, total, cases, wall):
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": len(cases),
        "comparisons_with_reference": total.validated,
        "distinct_observed_outcomes": len(total.outcomes),
        "samples": total.samples or [jsonable(cases[0])],
        "exhaustive": bool(getattr(mod, "EXHAUSTIVE", True)),
        "bounds": jsonable(mod.bounds(tier) if hasattr(mod, "bounds") else mod.__doc__),
        "counters": total.notes,
        "largest_error_as_fraction_of_tolerance": {k: v for k, v in total.maxerr.items()},
        "known_findings_seen": sorted(total.known),
    }
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": "model_checking",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 3), "violations": len(total.violations)}
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVID, "%s.json" % prop))


def ladder(lo, hi, per_decade=6):
    """A dense geometric ladder of values: no threshold between lo and hi is stepped over by more than one rung."""
    import numpy as np
    n = int(round(np.log10(hi / lo) * per_decade)) + 1
    return (lo * (hi / lo) ** (np.arange(n) / (n - 1) if n > 1 else np.zeros(1))).tolist()
