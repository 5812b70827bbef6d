"""Walk a live object through the complete state graph of its parameter domains."""
import numpy as np

from .core import gray


def walk(t, name, make, domains, oracle, fresh=True, order=None):
    """Visit every combination of `domains` (dict name -> list of values).

    One object is constructed in the first state and then driven through all others by
    its setters, one parameter at a time (reflected Gray code), evaluating `oracle(obj,
    state)` in every state; with `fresh`, a newly built object is put through the same
    oracle in every state too.
    """
    names = list(domains)
    sizes = [len(domains[n]) for n in names]
    obj = None
    prev = None
    for idx in gray(sizes):
        st = {n: domains[n][i] for n, i in zip(names, idx)}
        t.state(name, repr(st))
        if obj is None:
            obj = make(**st)
            t.step()
        else:
            for n, i, j in zip(names, idx, prev):
                if i != j:
                    setattr(obj, n, st[n])
                    t.step()
        prev = idx
        if oracle(obj, st) is False or t.violations:
            return False
        if fresh:
            t.step()
            if oracle(make(**st), st) is False or t.violations:
                return False
        t.sample({"class": name, "state": st})
    return True


SMALL = [10.0 ** -k for k in range(1, 10)]


def axis_points(centre, domain, reach=1.0):
    """Points on the axes through a centre, on its planes, and one beside them, within the domain."""
    d = np.array([[2, 0, 0], [-3, 0, 0], [0, 2.5, 0], [0, -2, 0], [0, 0, 3], [0, 0, -2], [2, 1.5, 0], [0, 2, -1], [-1.5, 0, 2], [1, 2, 3]]) * reach
    p = np.asarray(centre, float) + d
    if domain == "surf":
        p[:, 2] = 0.0
    elif domain == "above":
        p[:, 2] = np.abs(p[:, 2])
    elif domain == "below":
        p[:, 2] = -np.abs(p[:, 2])
    if domain in ("surf", "above"):
        p = p[np.hypot(*(p - centre)[:, :2].T) > 0]
    return p


def small_components(t, what, fields, normalised, axes=(0, 1, 2), eps=SMALL, tol=1e-6, noise=4e-16, floor=0.0, **d):
    """A small component of a vector parameter contributes its share, also where the large one contributes nothing.

    fields(v): list of arrays (values at the points), linear in v or in v/|v|; noise: rounding relative to the
    largest value of the field, floor: absolute rounding.
    """
    unit = {i: fields(np.eye(3)[i]) for i in axes}
    for i in axes:
        for j in axes:
            if i == j:
                continue
            for e in eps:
                for sgn in (1, -1):
                    v = np.eye(3)[i] + sgn * e * np.eye(3)[j]
                    n = np.linalg.norm(v) if normalised else 1.0
                    t.state(what, "small", repr(sorted(d.items())), i, j, e, sgn)
                    t.step()
                    for k, (got, a, b) in enumerate(zip(fields(v), unit[i], unit[j])):
                        top = np.nanmax(np.abs(a)) if a.size else 0.0
                        lim = tol * e * np.nanmax(np.abs(b)) + 1e-12 * np.abs(a) + noise * top + floor + 1e-300
                        if not t.close("small component of %s" % what, got * n, a + sgn * e * b, tol=1, scale=lim, vec=False, large=i, small=j, ratio=sgn * e, field=k, **d):
                            return False
    return True
