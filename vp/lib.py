"""Helpers shared by the harnesses (used identically in symbolic and concrete runs)."""
import contextlib

import numpy as np
import pyqubo
import sawatabi
from sawatabi.model import LogicalModel, PhysicalModel
from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

from .engine import SymCtx  # noqa: F401


def lab(v):
    return v.label


def attempt(fn, *a, **k):
    """Run code that may legitimately reject its input: (exception or None, result)."""
    try:
        return None, fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return e, None


def pairkey(a, b):
    return (a, b) if a <= b else (b, a)


def raw(p):
    """physical model -> (linear, quadratic with ordered label pairs, offset); checks keys are well formed"""
    lin = dict(p._raw_interactions[1])
    quad = {}
    for k, v in p._raw_interactions[2].items():
        kk = pairkey(*k)
        quad[kk] = quad[kk] + v if kk in quad else v
    return lin, quad, p.get_offset()


def poly_diff_checks(sx, label, got, want):
    """got, want: dict monomial -> number.  Coefficient-wise equality (missing = 0)."""
    items = []
    for k in sorted(set(got) | set(want), key=repr):
        items.append((label, sx.eq(got.get(k, 0.0), want.get(k, 0.0)), f"{k}: got {got.get(k, 0.0)!r} want {want.get(k, 0.0)!r}"))
    return items


def live_poly(m):
    """Independent reading of a logical model's stored interactions as a polynomial (sawatabi sign:
    H = -sum c*s*monomial + offset): returns dict monomial -> sum(c*s) over not-removed, plus '' -> offset."""
    a = m._interactions_array
    out = {}
    for i in range(len(a["name"])):
        if a["removed"][i]:
            continue
        k = a["key"][i]
        if isinstance(k, tuple):
            k = pairkey(*k)
        v = a["coefficient"][i] * a["scale"][i]
        out[k] = out[k] + v if k in out else v
    return out


def phys_poly(p):
    lin, quad, off = raw(p)
    return {**lin, **quad}


def snapshot(m):
    """Everything observable about a logical model's contents, as plain data."""
    a = m._interactions_array
    cols = [k for k in a if k not in ("dirty", "interacts")]
    rows = []
    for i in range(m._interactions_length):
        rows.append({c: a[c][i] for c in cols})
    return {
        "mtype": m.get_mtype(),
        "rows": rows,
        "vars": {k: tuple(v.shape) for k, v in m.get_variables().items()},
        "offset": m.get_offset(),
        "deleted": list(m.get_deleted_array()),
        "fixed": list(m.get_fixed_array()),
        "constraints": {k: con_state(c) for k, c in m.get_constraints().items()},
        "attrs": sorted(m._interactions_attrs),
        "lens": sorted({len(v) for v in a.values()}),
    }


def con_state(c):
    d = {"class": c.get_constraint_class(), "label": c.get_label(), "strength": c.get_strength()}
    for k in ("_variables", "_variables_1", "_variables_2"):
        if hasattr(c, k):
            d[k] = sorted(v.label for v in getattr(c, k))
    if hasattr(c, "_n"):
        d["n"] = c._n
    return d


def same(sx, a, b):
    """Deep equality of plain data; numbers compared through sx.eq; returns a condition."""
    from .sym import is_sym

    if is_sym(a) or is_sym(b):
        if isinstance(a, (str, list, dict, tuple)) or isinstance(b, (str, list, dict, tuple)) or a is None or b is None:
            return False
        return sx.eq(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if list(sorted(map(repr, a))) != list(sorted(map(repr, b))):
            return False
        return sx.And(*[same(sx, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return sx.And(*[same(sx, x, y) for x, y in zip(a, b)])
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return sx.eq(a, b)
    r = a == b
    return r if isinstance(r, bool) else bool(r)


def same_pair(a, b):
    return [a, b]


def spin_values(mtype):
    return (1, -1) if mtype == "ising" else (1, 0)


def poly_energy(poly, offset, assign):
    """sawatabi convention: H = -sum J x x - sum h x + offset"""
    e = offset
    for k, v in poly.items():
        if isinstance(k, tuple):
            e = e - v * (assign[k[0]] * assign[k[1]])
        else:
            e = e - v * assign[k]
    return e


class Clock:
    """Deterministic stand-in for the wall clock: strictly increasing, patched into `time`."""

    def __init__(self, start=1000.0, step=1.0):
        self.t = start
        self.step = step

    def time(self):
        self.t += self.step
        return self.t


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(obj, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def clocked(fn):
    """decorator: run the harness under a deterministic clock"""
    import functools
    import time

    @functools.wraps(fn)
    def g(sx, *a, **k):
        c = Clock()
        sx.clock = c
        with patched(time, time=c.time):
            return fn(sx, *a, **k)

    return g
