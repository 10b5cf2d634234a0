"""C30: helper functions: element-wise arithmetic, clock units, profiling."""
import time

from sawatabi import utils
from sawatabi.utils import Functions, profile

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import attempt, patched

ASSUMPTIONS = ["the clock is a symbolic real number of seconds between 0 and 10^6", "element-wise functions are given sequences of equal length"]


def elementwise(sx):
    """all four operations on tuples and lists of equal length"""
    op = sx.choice("op", ["add", "sub", "max", "min"])
    n = sx.choice("n", [1, 2, 3, 4, 17])
    kind = sx.choice("kind", [tuple, list])
    num = sx.choice("numbers", [sx.int, sx.real])
    free = range(n) if n < 5 else (2, 9, 16)  # the others are fixed numbers, in both orders and equal
    a, b = kind(num(f"a{i}") if i in free else i % 5 for i in range(n)), kind(num(f"b{i}") if i in free else i % 3 for i in range(n))
    ka, kb = list(a), list(b)
    if num == sx.int and sx.choice("huge", [False, True]):  # numbers a float cannot tell apart
        a, b = kind([2**53 + 1, *list(a)[1:]]), kind([sx.choice("b0", [2**53, 2**53 + 2, 0, -1]), *list(b)[1:]])
    ka, kb = list(a), list(b)
    got = getattr(Functions, "elementwise_" + op)(a, b)
    sx.check("kind", type(got) is kind and len(got) == n, f"{type(got)}")
    ref = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "max": lambda p, q: sx.If(p >= q, p, q), "min": lambda p, q: sx.If(p <= q, p, q)}[op]
    sx.check_all([("element", sx.eq(got[i], ref(ka[i], kb[i])), f"{op} {i}: {got[i]}") for i in range(n)])
    if ka[0] == 2**53 + 1 if type(ka[0]) is int else False:
        sx.check("exact", int(got[0]) == {"add": ka[0] + kb[0], "sub": ka[0] - kb[0], "max": max(ka[0], kb[0]), "min": min(ka[0], kb[0])}[op], f"{op}: {got[0]!r} of {ka[0]} and {kb[0]}")
    sx.check("arguments-kept", all(p is q for p, q in zip(a, ka)) and all(p is q for p, q in zip(b, kb)) and len(a) == len(b) == n)


def mixed_kinds(sx):
    op = sx.choice("op", ["add", "sub", "max", "min"])
    v = sx.int("v")
    a, b = sx.choice("args", [((v,), [v]), ([v], (v,)), (v, v), ("ab", "ab"), ({v: 1}, {v: 1}) if not sx.symbolic else ({1: v}, {1: v}), ((v,), None), (None, [v]), ((v,), v)])
    e, got = attempt(getattr(Functions, "elementwise_" + op), a, b)
    sx.check("rejected", isinstance(e, TypeError), f"{e!r} {got!r}")


UNITSOF = {"": 1, "_ms": 10**3, "_us": 10**6, "_ns": 10**9}


def clock(sx):
    """every unit, fractional and whole"""
    u = sx.choice("unit", list(UNITSOF))
    t = sx.real("t", lo=0, hi=10**6)
    k = UNITSOF[u]
    kw = {"time": lambda: t}
    if sx.symbolic:
        from vp.sym import sym_int

        kw["time_ns"] = lambda: sym_int(t * 10**9)
    else:
        kw["time_ns"] = lambda: int(t * 10**9)
    with patched(time, **kw):
        frac = getattr(utils, "current_time" + u)()
        whole = getattr(utils, f"current_time{u}_as_int")()
    tol = 1e-9 * k + 1e-6
    sx.check("fractional", sx.And(frac - t * k <= tol, t * k - frac <= tol), f"{frac} {t}")
    if not sx.symbolic:
        sx.check("whole-type", type(whole) is int)
    sx.check("whole-near", sx.And(whole - t * k <= 2, t * k - whole <= 3), f"{whole} {t}")
    noise = 1.0 if u == "_ns" else 1e-6
    sx.check("whole", sx.And(whole <= t * k + noise, t * k - whole <= 1 + noise, sx.Or(t * k - whole < 1, noise == 1.0, not sx.symbolic)), f"{whole} {t}")


def profiled(sx):
    """the wrapped function gets its arguments, its result and exceptions come back, the elapsed time is the clock's difference"""
    calls = []
    t0, dt = sx.real("t0"), sx.real("dt", lo=0)
    result = sx.choice("result", ["number", "none", "dict", "raise", "odd"])
    odd = sx.choice("odd", [NotImplemented, ..., False, 0, "", (), ValueError("a value"), ValueError]) if result == "odd" else None
    v, w = sx.real("v"), sx.real("w")
    kind = sx.choice("exception", ["own", StopIteration, KeyError, TypeError, AssertionError, TimeoutError, AttributeError, ZeroDivisionError]) if result == "raise" else None
    now = [t0]

    class Boom(Exception):
        pass

    if kind == "own":
        kind = Boom

    def subject(*a, **k):
        """doc of subject"""
        calls.append((a, k))
        now[0] = t0 + dt
        if result == "raise":
            raise kind("x")
        return {"number": v, "none": None, "dict": {"return": v, "profile": w}, "odd": odd}[result]

    extra = sx.choice("extra", [{}, {"none": None}, {"zero": 0, "func": 1, "name": ""}])
    wrapped = profile(subject)
    sx.check("wraps", wrapped.__name__ == "subject" and wrapped.__doc__ == "doc of subject")
    with patched(time, perf_counter=lambda: now[0], time=lambda: now[0], monotonic=lambda: now[0], perf_counter_ns=lambda: now[0] * 10**9, time_ns=lambda: now[0] * 10**9, monotonic_ns=lambda: now[0] * 10**9):
        e, got = attempt(wrapped, v, 2, None, key=w, **extra)
    sx.check("called-once", len(calls) == 1)
    a, k = calls[0]
    sx.check("forwarded", len(a) == 3 and a[0] is v and a[1] == 2 and a[2] is None and list(k) == ["key"] + list(extra) and k["key"] is w and all(k[x] == y for x, y in extra.items()))
    if result == "raise":
        sx.check("raises", type(e) is kind and e.args == ("x",), f"{e!r}")
        return
    sx.check("returns", e is None and set(got) == {"return", "profile"} and got["profile"]["function_name"] == "subject")
    sx.check("elapsed", sx.eq(got["profile"]["execution_sec"], dt))
    r = got["return"]
    sx.check("result", {"number": lambda: r is v, "none": lambda: r is None, "dict": lambda: r["return"] is v and r["profile"] is w and len(r) == 2, "odd": lambda: r is odd}[result]())


UNITS = [
    Unit("elementwise", elementwise, "4 operations, tuples and lists of 1-4 or 17 integers or reals", ["element", "kind"]),
    Unit("mixed-kinds", mixed_kinds, "8 kinds of wrong arguments", ["rejected"]),
    Unit("clock", clock, "4 units, any time up to 10^6 s", ["fractional", "whole"]),
    Unit("profiled", profiled, "4 results, 8 odd ones and 8 exceptions, any clock", ["forwarded", "elapsed", "result", "raises"]),
]
