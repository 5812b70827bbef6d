"""C20: concurrent evaluations do not disturb each other."""
import itertools
import os
import pickle
import sys
import threading

import numpy as np

from ..core import same
from ..spec import BY_NAME, QUAKE, SPECS

TECHNIQUE = ("stateless model checking of the real code under a controlled scheduler: two threads, all interleavings with one preemption (and, per method, all with two) at every line "
             "(thorough: every bytecode) executed inside the library, and at every memory access of the compiled kernels made without the interpreter lock")
LEVEL_NOTE = ("Exhaustive over the stated pairs, granularity and preemption bounds. The compiled kernels are recompiled with a scheduling point at every load and store; "
              "they are additionally run in eight free threads.")
ALL = SPECS + QUAKE


def bounds(tier):
    return {"threads": 2, "preemptions": "1 for every ordered pair of evaluations of a class (same source; two sources), 2 for every method against itself%s" % (" and every other method" if tier == "thorough" else ""),
            "granularity": "bytecode (one preemption), line (two)" if tier == "thorough" else "line", "compiled kernels": "every memory access without the interpreter lock (prism kernels, quick: the first 48 and last 12), one preemption; two for %s" % ("all reflection kernels" if tier == "thorough" else "rTE_forward"), "fresh sources": "per schedule, so that nothing is computed beforehand",
            "cold start": "every evaluation against itself and a neighbour%s, one preemption, in a process where nothing was evaluated before" % (" (thorough: every other one)" if tier == "thorough" else "")}


def cases(tier):
    out = []
    for s in ALL:
        n = len(evals(s))
        out += [{"c": s.name, "k": "one", "a": i} for i in range(n)]
        out += [{"c": s.name, "k": "two", "a": i} for i in range(n)]
    out += [{"c": "cross", "k": "cross", "a": i} for i in range(len(ALL))]
    out += [{"c": "rTE", "k": "native", "f": f, "g": g, "shared": x} for f in NATIVE_TE for g in NATIVE_TE for x in (0, 1)]
    out += [{"c": "rTE", "k": "native2", "f": f, "g": g, "shared": x} for f in NATIVE_TE for g in NATIVE_TE for x in (0, 1) if tier == "thorough" or f == g == "rTE_forward"]
    out += [{"c": "prism", "k": "native", "f": f, "g": g, "shared": x} for f in NATIVE_P for g in (NATIVE_P if tier == "thorough" else [f, NATIVE_P[NATIVE_P.index(f) - 1]]) for x in (0, 1)]
    out += [{"c": s.name, "k": "cold", "a": i} for s in ALL for i in range(len(evals(s)))]
    return out + [{"c": "fn", "k": "cold", "a": i} for i in range(8)] + [{"c": "fn", "k": "functions"}, {"c": "kernels", "k": "free"}]


NATIVE_TE = ["rTE_forward", "rTE_gradient"]
NATIVE_P = ["prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"]
_loaded = []


def native_args(case, k):
    """Arguments of the k-th thread (numpy gives up its lock for more than 500 elements)."""
    from scipy.constants import mu_0
    if case["c"] == "prism":
        x = np.cos(np.arange(512) * (0.3 + 0.1 * k) + k) * 3
        return x, np.roll(x, 1 + k) + 0.5, np.roll(x, 5 + k) - 0.25
    nl, nf = (2, 1) if case["k"] == "native2" else (3, 2)
    f = np.geomspace(10.0, 1e3, nf) * (1 + k)
    sg = np.full((nl, nf), 0.1 * (k + 1) + 0j) * np.arange(1, nl + 1)[:, None]
    return f, np.r_[0.01, 0.5][:nf] * (1 + k), sg, np.full((nl, nf), mu_0 * (1 + 0.1 * k) + 0j), np.arange(1.0, nl) * (k + 1)


def run_native(case, t):
    """Two threads in the compiled kernels, preempted at every memory access they make without the interpreter lock."""
    from .. import native, repo
    if not _loaded:
        try:
            _loaded.append(native.load())
        except (repo.BuildError, OSError, ImportError) as e:
            _loaded.append(None)
            print("note: no instrumented build (%s)" % str(e)[:300], file=sys.stderr)
    if _loaded[0] is None:
        t.note("instrumented build unavailable")
        return
    lib, mods = _loaded[0]
    m = mods["rTE" if case["c"] == "rTE" else "potential_field_prism"]
    N = native.Native(lib)
    f, g = getattr(m, case["f"]), getattr(m, case["g"])
    A, B = native_args(case, 0), native_args(case, 0 if case["shared"] else 1)
    wf, wg = f(*A), g(*B)
    n, q = N.count(lambda: f(*A)), N.count(lambda: g(*B))
    cap = n if t.thorough or case["c"] == "rTE" else 48
    ii = sorted(set(range(min(n, cap))) | set(range(max(0, n - cap // 4), n)))
    jj = [-1]
    if case["k"] == "native2":
        lim = 400 if t.thorough else 100
        ii, jj = ii[:lim], list(range(min(q, lim)))
    for i, j in itertools.product(ii, jj):
        res = N.run(lambda: f(*A), lambda: g(*B), i, j)
        t.step(2 if j < 0 else 4)
        t.state("native", case["f"], case["g"], case["shared"], case["k"], i, j)
        if not judge(t, None, res, wf, wg, "compiled %s | %s" % (case["f"], case["g"]), preempted_at=[i, j], same_arguments=bool(case["shared"])):
            return
    t.note("native schedules", len(ii) * len(jj))
    t.note("native schedules blocked", lib.mc_timeouts())
    t.outcome(case["f"], case["g"])


def evals(s):
    """Evaluations of a class: (label, function of the object)."""
    out = [("%s%r" % (m, kw), (lambda o, P, m=m, kw=kw: getattr(o, m)(P, **kw))) for m, kw, _ in s.calls()]
    out += [(d, (lambda o, P, d=d: getattr(o, d))) for d in s.derived]
    if not out:
        out = [(p, (lambda o, P, p=p: getattr(o, p))) for p in list(s.params)[:4]]
    return out


def second_state(s):
    st = {p: d["values"][-1] for p, d in s.params.items()}
    for z in ("current", "moment", "amplitude", "primary_field", "magnetization", "mass", "rho"):
        if z in st and not np.any(st[z]):
            st[z] = s.params[z]["values"][1]
    return st


class Scheduler:
    """Runs f and g as two threads; f yields at its i-th event, g at its j-th."""

    TIMEOUT = 2.0

    def __init__(self, opcodes=False):
        self.opcodes = opcodes
        self.blocked = 0

    def _tracer(self, hook):
        ops = self.opcodes

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                hook()
            return local

        def tracer(frame, event, arg):
            if event == "call" and "/repo/geoana/" in frame.f_code.co_filename:
                if ops:
                    frame.f_trace_opcodes = True
                return local
            return None
        return tracer

    def count(self, f):
        n = [0]

        def hook():
            n[0] += 1
        old = sys.gettrace()
        sys.settrace(self._tracer(hook))
        try:
            f()
        except Exception:
            pass
        finally:
            sys.settrace(old)
        return n[0]

    def run(self, f, g, i, j=None):
        """f to its event i; g to its event j (None: to its end); f to its end; g to its end."""
        go_g, go_f = threading.Event(), threading.Event()
        res = {}
        g_done = threading.Event()

        def body_g():
            if not go_g.wait(60):
                return
            c = [0]

            def hook():
                if c[0] == j:
                    c[0] += 1
                    go_f.set()              # preempt g, resume f until it ends
                    f_done.wait(self.TIMEOUT)
                else:
                    c[0] += 1
            if j is not None:
                sys.settrace(self._tracer(hook))
            try:
                res["g"] = ("ok", g())
            except Exception as e:
                res["g"] = ("raised", "%s: %s" % (type(e).__name__, e))
            finally:
                sys.settrace(None)
                g_done.set()
                go_f.set()

        f_done = threading.Event()
        th = threading.Thread(target=body_g, daemon=True)
        th.start()
        c = [0]

        def hook_f():
            if c[0] == i:
                c[0] += 1
                go_g.set()
                if not go_f.wait(self.TIMEOUT if self.blocked < 3 else 0.05):
                    self.blocked += 1       # g waits for something f holds: let f go on
            else:
                c[0] += 1

        old = sys.gettrace()
        sys.settrace(self._tracer(hook_f))
        try:
            res["f"] = ("ok", f())
        except Exception as e:
            res["f"] = ("raised", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(old)
            f_done.set()
        go_g.set()
        th.join(60)
        if th.is_alive():
            res["g"] = ("raised", "never finished")
        return res


def judge(t, s, res, wf, wg, what, **d):
    ok = True
    for x, w in (("f", wf), ("g", wg)):
        r = res.get(x, ("raised", "no result"))
        if r[0] != "ok":
            ok = t.fail("%s: raised in one interleaving" % what, error=r[1], thread=x, **d)
            continue
        ok = t.same("%s: result in one interleaving" % what, r[1], w, thread=x, **d) and ok
    return ok


class Zygote:
    """A process in which the library is imported and nothing was ever evaluated; it forks one process per schedule."""

    def __init__(self):
        self.owner = os.getpid()
        from .c19 import calls_table
        calls_table()
        [s.cls for s in ALL]                # imports, so that none is part of a schedule
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            try:
                with os.fdopen(a, "rb") as rd, os.fdopen(d, "wb") as wr:
                    while True:
                        try:
                            job = pickle.load(rd)
                        except EOFError:
                            break
                        pickle.dump(self.serve(*job), wr)
                        wr.flush()
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.wr, self.rd = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    def ask(self, *job):
        pickle.dump(job, self.wr)
        self.wr.flush()
        return pickle.load(self.rd)

    @staticmethod
    def child(f):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(f(), fh)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else None

    def serve(self, key, opcodes):
        """(results alone, in processes of their own; results of every schedule)."""
        f, g = jobs(key)
        sch = Scheduler(opcodes)

        def alone(h):
            try:
                return ("ok", h())
            except Exception as e:
                return ("raised", "%s: %s" % (type(e).__name__, e))
        wf, wg = self.child(lambda: alone(f)), self.child(lambda: alone(g))
        n = self.child(lambda: sch.count(f))
        bad = []
        for i in range(n):
            res, sch.blocked = self.child(lambda: (sch.run(f, g, i), sch.blocked)) or ({}, sch.blocked)
            if any(x not in res or res[x][0] != w[0] or not same(res[x][1], w[1]) for x, w in (("f", wf), ("g", wg))):
                bad.append((i, {k: repr(v)[:300] for k, v in res.items()}))
                break
        return n, bad, [w[1] for w in (wf, wg) if w[0] != "ok"]


def jobs(key):
    """The two evaluations of a pair, each making its own source."""
    if key[0] == "fn":
        from .c19 import calls_table
        C = calls_table()
        return tuple((lambda c=C[n]: c[2](*c[4])) for n in key[1:])
    s = BY_NAME[key[0]]
    E = evals(s)
    P, Q = s.points[:3].copy(), s.points[2:5].copy()
    st2 = second_state(s)
    return (lambda: E[key[1]][1](s.make(), P)), (lambda: E[key[2]][1](s.make(st2) if key[3] else s.make(), Q))


_zygotes = []


def zygote():
    if not _zygotes or _zygotes[0].owner != os.getpid():
        _zygotes[:] = [Zygote()]
    return _zygotes[0]


def cold(case, t):
    """Two threads whose evaluations are the first ones ever made: every preemption of the one by the other."""
    z = zygote()
    if case["c"] == "fn":
        from .c19 import calls_table
        names = [n for n, v in calls_table().items() if v[0] is None][case["a"]::8]
        keys = [("fn", x, x) for x in names]
    else:
        n = len(evals(BY_NAME[case["c"]]))
        keys = [(case["c"], case["a"], b, other) for b, other in {(case["a"], True), ((case["a"] + 1) % n, False)} | ({(b, True) for b in range(n)} if t.thorough else set())]
    for key in keys:
        n, bad, err = z.ask(key, t.thorough)
        for i in range(n):
            t.state("cold", *key, i)
        t.step(2 * n)
        t.note("schedules from a cold start", n)
        t.check(not bad, "%s: first evaluations ever, in one interleaving" % "|".join(map(str, key)), schedule=bad[:1])
        t.check(not err, "%s: raised alone" % "|".join(map(str, key)), error=err)
        t.outcome("cold", *key)
    t.sample(case)


def run_case(case, t):
    zygote()
    if case["k"] == "cold":
        return cold(case, t)
    if case["k"] == "functions":
        return functions(t)
    if case["k"] == "free":
        return free(t)
    if case["k"].startswith("native"):
        return run_native(case, t)
    if case["k"] == "cross":
        return cross(case, t)
    s = BY_NAME[case["c"]]
    E = evals(s)
    name, fa = E[case["a"]]
    P, Q = s.points[:3].copy(), s.points[2:5].copy()
    R = s.points[3:7].copy()
    st2 = second_state(s)
    if case["k"] == "one":
        sch = Scheduler(opcodes=t.thorough)
        for gname, fb in E:
            for shared in (True, False):
                wf = fa(s.make(), P.copy())
                wg = fb(s.make() if shared else s.make(st2), Q.copy())
                o = s.make()
                n = sch.count(lambda: fa(o, P.copy()))
                for i in range(n):
                    o = s.make()
                    o2 = o if shared else s.make(st2)
                    res = sch.run(lambda: fa(o, P.copy()), lambda: fb(o2, Q.copy()), i)
                    t.step(2)
                    t.state(s.name, name, gname, shared, i)
                    if not judge(t, s, res, wf, wg, "%s.%s | %s" % (s.name, name, gname), preempted_at=i, same_source=shared):
                        return
                t.note("schedules", n)
                if gname != name:
                    continue
                # another number of points
                wg = fb(s.make() if shared else s.make(st2), R.copy())
                for i in range(n):
                    o = s.make()
                    o2 = o if shared else s.make(st2)
                    res = sch.run(lambda: fa(o, P.copy()), lambda: fb(o2, R.copy()), i)
                    t.step(2)
                    t.state(s.name, name, "four", shared, i)
                    if not judge(t, s, res, wf, wg, "%s.%s | %s" % (s.name, name, gname), preempted_at=i, same_source=shared, points=4):
                        return
                t.note("schedules", n)
        t.note("blocked", sch.blocked)
    else:
        sch = Scheduler()
        others = E if t.thorough else [E[case["a"]]]
        for gname, fb in others:
            for shared in (True, False):
                wf = fa(s.make(), P.copy())
                wg = fb(s.make() if shared else s.make(st2), Q.copy())
                n = sch.count(lambda: fa(s.make(), P.copy()))
                o = s.make()
                n = sch.count(lambda: fa(o, P.copy()))
                o2 = s.make() if shared else s.make(st2)
                m = sch.count(lambda: fb(o2, Q.copy()))
                cap = 400 if t.thorough else 30
                # long evaluations repeat their inner loop: every event of the first `cap`
                ii, jj = range(min(n, cap)), range(min(m, cap))
                if n > cap or m > cap:
                    t.note("evaluations longer than the cap")
                for i, j in itertools.product(ii, jj):
                    o = s.make()
                    o2 = o if shared else s.make(st2)
                    res = sch.run(lambda: fa(o, P.copy()), lambda: fb(o2, Q.copy()), i, j)
                    t.step(4)
                    t.state(s.name, name, gname, shared, i, j)
                    if not judge(t, s, res, wf, wg, "%s.%s || %s" % (s.name, name, gname), preempted_at=[i, j], same_source=shared):
                        return
                t.note("schedules", len(ii) * len(jj))
    t.outcome(s.name, name)
    t.sample({"class": s.name, "evaluation": name, "events": n})


def cross(case, t):
    """An evaluation of one class interrupted by one of another class."""
    sch = Scheduler()
    a = ALL[case["a"]]
    for b in ALL:
        if b is a:
            continue
        fname, fa = evals(a)[0]
        gname, fb = evals(b)[-1]
        P, Q = a.points[:3].copy(), b.points[2:5].copy()
        wf, wg = fa(a.make(), P.copy()), fb(b.make(), Q.copy())
        o, o2 = a.make(), b.make()
        n = sch.count(lambda: fa(o, P.copy()))
        for i in range(n):
            res = sch.run(lambda: fa(o, P.copy()), lambda: fb(o2, Q.copy()), i)
            t.step(2)
            t.state("cross", a.name, b.name, i)
            if not judge(t, a, res, wf, wg, "%s.%s | %s.%s" % (a.name, fname, b.name, gname), preempted_at=i):
                return
        t.note("schedules", n)


def functions(t):
    """Module-level functions against each other."""
    from .c19 import calls_table
    C = {k: v for k, v in calls_table().items() if v[0] is None}
    sch = Scheduler(opcodes=t.thorough)
    names = list(C)
    base = {n: C[n][2](*C[n][4]) for n in names}
    for x in names:
        n = sch.count(lambda: C[x][2](*C[x][4]))
        for y in names:
            for i in range(n):
                res = sch.run(lambda: C[x][2](*C[x][4]), lambda: C[y][2](*C[y][4]), i)
                t.step(2)
                t.state("fn", x, y, i)
                if not judge(t, None, res, base[x], base[y], "%s | %s" % (x, y), preempted_at=i):
                    return
            t.note("schedules", n)


def free(t):
    """Eight free threads on the compiled kernels (large arrays, so that they overlap)."""
    from geoana.kernels import potential_field_prism as K
    from geoana.kernels import tranverse_electric_reflections as R
    from scipy.constants import mu_0
    jobs = []
    for k in range(8):
        x, y, z = (np.cos(np.arange(60000) * (0.1 + 0.01 * k) + p) * 3 for p in (0, 1, 2))
        for n in ("prism_f", "prism_fzz", "prism_fzx", "prism_fxxy"):
            jobs.append((getattr(K, n), (x, y, z)))
        nl, nf = 2 + k % 3, 1 + k
        f = np.geomspace(1, 1e4, nf) * (1 + k)
        sg = np.full((nl, nf), 0.1 * (k + 1) + 0j) * np.arange(1, nl + 1)[:, None]
        mu = np.full((nl, nf), mu_0 * (1 + 0.1 * k) + 0j)
        th = np.arange(1.0, nl) * (k + 1)
        lam = np.geomspace(1e-4, 1e2, 4000)
        jobs += [(R.rTE_forward, (f, lam, sg, mu, th)), (R.rTE_gradient, (f, lam, sg, mu, th))]
    want = [f(*a) for f, a in jobs]
    rounds = 6 if t.thorough else 2
    got = [[None] * len(jobs) for _ in range(8)]

    def body(w):
        for r in range(rounds):
            for i in range(len(jobs)):
                k = (i * (2 * w + 1) + 5 * w) % len(jobs)
                f, a = jobs[k]
                got[w][k] = f(*a)
                if not same(got[w][k], want[k]):
                    bad.append((w, k))
                    return
    bad = []
    ths = [threading.Thread(target=body, args=(w,)) for w in range(8)]
    [x.start() for x in ths]
    [x.join() for x in ths]
    t.step(8 * rounds * len(jobs))
    t.state("free")
    for w, k in bad:
        t.fail("kernel %s in free threads" % jobs[k][0].__name__, thread=w)
    t.check(not bad, "kernels in free threads")
