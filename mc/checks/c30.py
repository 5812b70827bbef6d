"""C30: copied and pickled sources are equal to the original and independent of it."""
import copy
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import repo
from ..core import same
from ..spec import BY_NAME, QUAKE, SPECS

TECHNIQUE = ("explicit-state exploration of a heap model (original and copies, each a dictionary of assigned values): every way of copying x every position in every assignment/evaluation sequence up to a depth, "
             "replayed on the real classes and compared bit for bit with newly constructed sources")
ALL = SPECS + QUAKE
HOW = ["deepcopy", "pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "state"]


def bounds(tier):
    return {"ways of copying": HOW + ["copy of a copy", "two references in one container", "pickle read by a new process"], "numbers": "every parameter times %d factors" % len(FACTOR), "assignments before": "none, every single one%s" % (", every pair" if tier == "thorough" else ""),
            "assignments after": "every single one, on the original and on the copy", "classes": [s.name for s in ALL]}


def cases(tier):
    out = [{"c": s.name, "k": "graph", "how": h} for s in ALL for h in HOW]
    out += [{"c": s.name, "k": k} for s in ALL for k in ("chain", "container", "numbers")]
    return out + [{"c": s.name, "k": "process"} for s in ALL]


def duplicate(o, how):
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "state":
        # what pickle does by hand: a new object given a deep copy of the state
        f, args, *rest = o.__reduce_ex__(2)
        n = f(*args)
        st = copy.deepcopy(rest[0]) if rest else None
        if hasattr(n, "__setstate__"):
            n.__setstate__(st)
        elif st:
            n.__dict__.update(st)
        return n
    return pickle.loads(pickle.dumps(o, int(how[6:])))


def observe(s, o):
    out = dict(s.report(o))
    if s not in QUAKE:
        out.update(s.evaluate(o, s.points[:2].copy()))
    return out


def moves(s):
    """Every admissible assignment of another value."""
    out = []
    for p, d in s.params.items():
        out += [(p, v) for v in d["values"][1:]]
    return out


class Model:
    """Observations of newly built sources, by the values assigned."""

    def __init__(self, s):
        self.s, self.memo = s, {}

    def __call__(self, st):
        k = repr(sorted((a, repr(b)) for a, b in st.items()))
        if k not in self.memo:
            try:
                self.memo[k] = observe(self.s, self.s.make(copy.deepcopy(st)))
            except Exception:
                self.memo[k] = None
        return self.memo[k]


def put(o, st, move):
    """Assign; None when the combination is rejected."""
    try:
        setattr(o, move[0], copy.deepcopy(move[1]))
    except Exception:
        return None
    return dict(st, **{move[0]: move[1]})


def agree(t, s, what, o, want, **d):
    got = observe(s, o)
    t.validated += len(want)
    for k in want:
        if not same(got[k], want[k]):
            return t.fail("%s: %s.%s" % (what, s.name, k), got=got[k], want=want[k], **d)
    return True


def run_case(case, t):
    s = BY_NAME[case["c"]]
    return globals()[case["k"]](s, case, t)


def starts(s, t):
    st = s.start()
    seqs = [()] + [(m,) for m in moves(s)]
    if t.thorough and len(s.params) < 12:
        seqs += [q for q in itertools.permutations(moves(s), 2) if q[0][0] != q[1][0]]
    for seq in seqs:
        yield st, seq


def build(s, st, seq):
    o = s.make(copy.deepcopy(st))
    cur = dict(st)
    for m in seq:
        nxt = put(o, cur, m)
        if nxt is None:
            return None, None
        cur = nxt
    return o, cur


FACTOR = [float(i) for i in range(2, 60)] + [1.0 / i for i in range(2, 60)] + [z * 10.0 ** k for k in range(-12, 13) for z in (1, -1, 0.7)] + [1 + 2.0 ** -k for k in range(4, 53, 4)]


def numbers(s, case, t):
    """Numbers of every order of magnitude and with every kind of last digit survive unchanged."""
    for p, dom in s.params.items():
        v0 = dom["values"][0]
        try:
            a = np.asarray(v0, float)
        except (TypeError, ValueError):
            continue
        if isinstance(v0, (bool, np.bool_)) or not a.size:
            continue
        o = s.make(copy.deepcopy(s.start()))
        # the images of a fault grow with its size
        for f in [f for f in FACTOR if s not in QUAKE or 0.6 < abs(f) < 1.1]:
            try:
                setattr(o, p, a * f if a.ndim else float(a * f))
            except Exception:
                continue
            want = s.report(o)
            t.state(s.name, "number", p, f)
            for how in ("deepcopy", "pickle5") if not t.thorough else HOW:
                t.step()
                got = s.report(duplicate(o, how))
                t.validated += len(want)
                for k in want:
                    if not same(got[k], want[k]):
                        return t.fail("value of %s in the copy: %s" % (s.name, k), got=got[k], want=want[k], parameter=p, factor=f, how=how)
    t.sample({"class": s.name, "factors": len(FACTOR)})


def graph(s, case, t):
    """assign* - copy - assign on one of the two: the other must not notice, both must be right."""
    how, model = case["how"], Model(s)
    for st0, seq in starts(s, t):
        o, cur = build(s, st0, seq)
        if o is None:
            continue
        want = model(cur)
        if want is None:
            continue
        d = dict(how=how, before=repr(seq))
        t.state(s.name, how, repr(seq))
        t.step()
        used = len(seq) % 2 == 0
        if used:
            # an evaluated source may hold intermediate results
            observe(s, o)
        c = duplicate(o, how)
        t.check(type(c) is type(o) and c is not o, "type of the copy", **d)
        if not agree(t, s, "copy", c, want, **d) or not agree(t, s, "original after copying", o, want, **d):
            return
        after = moves(s) if len(seq) == 0 else moves(s)[::5]
        for m in after:
            for who in (0, 1):
                t.step(2)
                o, cur = build(s, st0, seq)
                c = duplicate(o, how)
                a, b = (o, c) if who == 0 else (c, o)
                nxt = put(a, cur, m)
                if nxt is None:
                    if not agree(t, s, "bystander of a rejected assignment", b, want, **d):
                        return
                    continue
                w = model(nxt)
                t.state(s.name, how, repr(seq), repr(m), who)
                if w is None:
                    continue
                if not agree(t, s, "assigned " + ("original", "copy")[who], a, w, move=m, **d) or not agree(t, s, "other than assigned", b, want, move=m, **d):
                    return
        # arrays are not shared either
        o, cur = build(s, st0, seq)
        c = duplicate(o, how)
        for p in s.params:
            v = getattr(o, p, None)
            u = getattr(c, p, None)
            if isinstance(v, np.ndarray) and isinstance(u, np.ndarray) and v.size:
                t.check(not np.shares_memory(v, u), "copy shares memory with the original", parameter=p, **d)
    t.sample({"class": s.name, "how": how})


def chain(s, case, t):
    """Copies of copies, by every pair of ways, changed in every order."""
    model = Model(s)
    mv = moves(s)
    st = s.start()
    for h1, h2 in itertools.product(HOW, repeat=2):
        o = s.make(copy.deepcopy(st))
        a = duplicate(o, h1)
        m1 = mv[len(h1) % len(mv)]
        s1 = put(a, st, m1) or st
        b = duplicate(a, h2)
        m2 = mv[(3 * len(h2) + 1) % len(mv)]
        s2 = put(b, s1, m2) or s1
        t.state(s.name, "chain", h1, h2)
        t.step(4)
        for x, cur, n in ((o, st, "original"), (a, s1, "first copy"), (b, s2, "second copy")):
            w = model(cur)
            if w is not None and not agree(t, s, n, x, w, ways=(h1, h2)):
                return


def container(s, case, t):
    """One source held twice stays one source; two equal sources stay two."""
    model = Model(s)
    st = s.start()
    want = model(st)
    for how in HOW[:-1]:
        o, p = s.make(copy.deepcopy(st)), s.make(copy.deepcopy(st))
        c = duplicate({"a": [o, o, p], "b": (o,)}, how)
        t.state(s.name, "container", how)
        t.step()
        t.check(c["a"][0] is c["a"][1] is c["b"][0] and c["a"][2] is not c["a"][0], "identity within a container", cls=s.name, how=how)
        m = moves(s)[0]
        nxt = put(c["a"][0], st, m)
        for x, cur, n in ((c["b"][0], nxt or st, "same source"), (c["a"][2], st, "equal source"), (o, st, "original"), (p, st, "second original")):
            w = model(cur)
            if w is not None and not agree(t, s, n, x, w, how=how):
                return
    t.check(want is not None, "start state", cls=s.name)


SCRIPT = """
import sys, pickle
sys.path.insert(0, %r)
from mc import repo
repo.use(True, %r)
from mc.spec import BY_NAME
from mc.checks import c30
s = BY_NAME[sys.argv[1]]
out = []
for blob in pickle.load(sys.stdin.buffer):
    out.append(c30.observe(s, pickle.loads(blob)))
sys.stdout.buffer.write(pickle.dumps(out))
"""


def process(s, case, t):
    """Pickles written here and read by a new process."""
    model = Model(s)
    blobs, wants, seqs = [], [], []
    for st0, seq in starts(s, t):
        o, cur = build(s, st0, seq)
        if o is None or model(cur) is None:
            continue
        for pr in (0, 2, 5):
            blobs.append(pickle.dumps(o, pr))
            wants.append(model(cur))
            seqs.append((repr(seq), pr))
            t.state(s.name, "process", repr(seq), pr)
        if len(blobs) > 400:
            break
    t.step(len(blobs))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", SCRIPT % (repo.VERIF, repo.build()), s.name], input=pickle.dumps(blobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=repo.VERIF)
    if not t.check(r.returncode == 0, "reading pickles in a new process", error=r.stderr.decode()[-800:], cls=s.name):
        return
    for got, want, q in zip(pickle.loads(r.stdout), wants, seqs):
        t.validated += len(want)
        for k in want:
            if not same(got[k], want[k]):
                return t.fail("unpickled in a new process: %s.%s" % (s.name, k), got=got[k], want=want[k], state=q)
