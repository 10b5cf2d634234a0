"""C13: placeholders resolve to the values given at conversion."""
import collections

import pyqubo

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, NHotConstraint, attempt, clocked, poly_diff_checks, raw, same

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in", "pyqubo's expression compiler runs for real on the symbolic values"]
PH = pyqubo.Placeholder


class Num:
    """the same arithmetic on numbers"""


FORMS = {
    "p": lambda p, q, r: p,
    "r*p": lambda p, q, r: r * p,
    "p+r": lambda p, q, r: p + r,
    "p*q": lambda p, q, r: p * q,
    "r*p+q": lambda p, q, r: r * p + q + 1,
    "p*p-r": lambda p, q, r: p * p - r,
    "(p+r)*(q-1)": lambda p, q, r: (p + r) * (q - 1),
    "-p/2": lambda p, q, r: -p / 2,
    "r-p": lambda p, q, r: r - p,
}


def run(sx, m, feed, want, off, label):
    f0 = dict(feed)
    lin, quad, o = raw(m.to_physical(placeholder=feed))
    sx.check("feed-unchanged", list(feed) == list(f0) and all(feed[k] is f0[k] for k in f0))
    items = poly_diff_checks(sx, label, {**lin, **quad}, want) + [(label + "-offset", sx.eq(o, off))]
    items += [("plain-numbers", not isinstance(v, (pyqubo.core.Express, pyqubo.core.Coefficient))) for v in [*lin.values(), *quad.values(), o]]
    sx.check_all(items)
    sx.observe("p", sorted([str(k), v] for k, v in {**lin, **quad}.items()) + [o])


@clocked
def resolve(sx):
    """each place a placeholder may stand in, each form; two different value sets one after another"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    where = sx.choice("where", ["coefficient", "scale", "offset", "coefficient and scale"])
    f = FORMS[sx.choice("form", list(FORMS))]
    r, c = sx.real("r"), sx.real("c")
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    e = f(PH("a"), PH("b"), r)
    m.add_interaction((x[0], x[1]), coefficient=e if where.startswith("coefficient") else c,
                      scale=e if where == "scale" else (PH("b") if "and" in where else c))
    m.add_interaction(x[0], coefficient=c)
    m.offset(e if where == "offset" else c)
    for k in (1, 2, 1):
        a, b = (sx.real("a1"), sx.real("b1")) if k == 1 else (sx.choice("a2", [0.0, -3.0]), 2.0)
        v = f(a, b, r)
        q = {"coefficient": v * c, "scale": c * v, "offset": c * c, "coefficient and scale": v * b}[where]
        run(sx, m, {"a": a, "b": b, "other": 1.0}, {"x[0]": c, ("x[0]", "x[1]"): q}, v if where == "offset" else c, "resolved" if k == 1 else "second-values")


STEPS = ["none", "update", "update scale", "fix", "fix -1/0", "merge", "convert type", "remove", "delete", "constraint"]


@clocked
def histories(sx):
    """a model with placeholders and a twin with the numbers written in go through the same edits"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    a, b = sx.real("a", nonzero=True), sx.real("b", nonzero=True)
    c, d, off = sx.real("c", positive=True), sx.real("d"), sx.real("off")

    def build(A, B):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(3,))
        m.add_interaction((x[0], x[1]), coefficient=A * 2.0 + 1.0, timestamp=1)
        m.add_interaction((x[2], x[1]), coefficient=c, scale=B, timestamp=2)
        m.add_interaction(x[1], coefficient=A, scale=3.0, timestamp=3)
        m.offset(A + off)
        return m, x

    def step(m, x, s, A, B):
        if s == "update":
            m.update_interaction((x[0], x[1]), coefficient=B)
            m.update_interaction(x[2], coefficient=A * 0.5)
        elif s == "update scale":
            m.update_interaction(x[1], scale=B, coefficient=d)
        elif s == "fix":
            m.fix_variable(x[1], 1)
        elif s == "fix -1/0":
            m.fix_variable(x[1], -1 if m.get_mtype() == "ising" else 0)
        elif s == "merge":
            o = LogicalModel(mtype=m.get_mtype())
            y = o.variables("x", shape=(3,))
            o.add_interaction((y[0], y[2]), coefficient=A * B)
            o.add_interaction(y[1], coefficient=d)
            o.offset(B)
            m.merge(o)
        elif s == "convert type":
            m.to_qubo() if m.get_mtype() == "ising" else m.to_ising()
        elif s == "remove":
            m.remove_interaction(target=(x[1], x[2]))
        elif s == "delete":
            m.delete_variable(x[0])
        elif s == "constraint":
            m.add_constraint(NHotConstraint([x[0], x[2]], strength=c))

    m, x = build(PH("a"), PH("b"))
    t, y = build(a, b)
    s1 = sx.choice("s1", STEPS)
    s2 = sx.choice("s2", ["none", "fix", "convert type", "merge"])
    for s in (s1, s2):
        ea, _ = attempt(step, m, x, s, PH("a"), PH("b"))
        eb, _ = attempt(step, t, y, s, a, b)
        sx.check("same-outcome", type(ea) is type(eb), f"{ea!r} {eb!r}")
    lin, quad, o = raw(t.to_physical())
    run(sx, m, {"a": a, "b": b}, {**lin, **quad}, o, "as-if-written")
    run(sx, m, {"a": a, "b": b}, {**lin, **quad}, o, "as-if-written")


@clocked
def integers(sx):
    """integer values, names shared by several interactions"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    n = sx.int("n")
    r = sx.real("r")
    for i in range(3):
        m.add_interaction(x[i], coefficient=PH("n") * (i + 1), scale=r if i else 1)
    m.add_interaction(x[0], name="again", coefficient=-PH("n"))
    m.offset(PH("n"))
    want = {"x[0]": 0.0, "x[1]": n * 2 * r, "x[2]": n * 3 * r}
    run(sx, m, {"n": n}, want, n, "integers")


@clocked
def big(sx):
    """many placeholders shared by many interactions, constraints and the offset, through a history of edits"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    n = 14
    names = [f"p{i}" for i in range(12)] + ["A B", "é"]
    val = {k: sx.real(f"v{i}", lo=1, hi=2) for i, k in enumerate(names)}
    cs = [sx.real(f"c{i}", lo=3, hi=4) for i in range(n)]

    def build(P):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(n,))
        for i in range(n):
            m.add_interaction(x[i], coefficient=P(names[i]) * cs[i], scale=P(names[(i * 3) % n]) if i % 4 == 1 else 1.0, timestamp=i)
            m.add_interaction((x[(i * 5 + 2) % n], x[(i * 5 + 1) % n]), coefficient=cs[i] - P(names[(i + 3) % n]) * 0.5, timestamp=i)
        for i in range(3):
            m.add_interaction(x[i], name=f"again {i}", coefficient=P(names[13 - i]) + P(names[i]) + cs[i])
        m.offset(P("p0") * 2.0 + P("é"))
        for i in range(0, n, 3):
            m.update_interaction(x[i], coefficient=P(names[i]) * P(names[i - 1]), scale=3.0)
        m.remove_interaction(x[4])
        if sx.choices.get("convert"):
            m.to_qubo() if mtype == "ising" else m.to_ising()
        m.fix_variable(x[9], 1)
        o = LogicalModel(mtype=m.get_mtype())
        y = o.variables("x", shape=(n,))
        o.add_interaction((y[0], y[7]), coefficient=P("A B"), scale=P("p3"))
        o.offset(P("p1"))
        m.merge(o)
        return m

    sx.choice("convert", [False, True])
    lin, quad, off = raw(build(lambda k: val[k]).to_physical())
    m = build(PH)
    for label in ("as-if-written", "again"):
        run(sx, m, {**val, "unused": 5.0}, {**lin, **quad}, off, label)


def polynomial(d):
    """pyqubo's polynomial of placeholders, as imported models contain"""
    return pyqubo.Coefficient(collections.defaultdict(float, {pyqubo.core.PlaceholderProd(k): v for k, v in d}))


@clocked
def polynomials(sx):
    """a model imported with pyqubo's placeholder polynomials as coefficients and constant, edited or not, against a twin; two value sets, three conversions"""
    r, s, c = sx.real("r"), sx.real("s", nonzero=True), sx.real("c", positive=True)
    P = polynomial([({"a": 1}, r), ({"a": 1, "b": 1}, 2.0), ({}, c)])
    Q = polynomial([({"b": 2}, 1.0), ({}, r)])
    q = {("x[0]", "x[0]"): P, ("x[0]", "x[1]"): Q, ("x[1]", "x[2]"): 2.0, ("x[2]", "x[2]"): c}
    cm = pyqubo.Model(pyqubo.core.CompiledQubo(q, P if sx.choice("offset", ["polynomial", "number"]) == "polynomial" else c), {f"x[{i}]": ("x", i) for i in range(3)}, {})
    edit = sx.choice("edit", ["none", "constraint", "fix", "convert type", "merge", "update", "other interactions"])

    def edited(m):
        x = m.get_variables_by_name("x")
        if edit == "constraint":
            m.add_constraint(NHotConstraint([x[1], x[2]], n=1, strength=c))
        elif edit == "fix":
            m.fix_variable(x[0], 1)
        elif edit == "convert type":
            m.to_ising()
        elif edit == "merge":
            o = LogicalModel(mtype="qubo")
            y = o.variables("x", shape=(3,))
            o.add_interaction(y[0], coefficient=c)
            o.offset(s)
            m.merge(o)
        elif edit == "update":
            m.update_interaction((x[1], x[0]), scale=s)
        elif edit == "other interactions":
            m.add_interaction(x[0], name="more", coefficient=s)
        return m

    m = LogicalModel(mtype="qubo")
    m.variables("x", shape=(3,))
    m.from_pyqubo(cm)
    edited(m)
    if sx.choice("rejected first", [False, True]):
        e, _ = attempt(m.to_physical, {"a": 1.0})
        sx.check("missing-value-rejected", e is not None)
    for k in (1, 2, 1):
        a, b = (sx.real("a1"), sx.real("b1")) if k == 1 else (sx.choice("a2", [0.0, -3.0]), 2.0)
        p, w = a * r + 2.0 * a * b + c, b * b + r
        t = LogicalModel(mtype="qubo")
        x = t.variables("x", shape=(3,))
        t.add_interaction(x[0], coefficient=-p)
        t.add_interaction((x[0], x[1]), coefficient=-w)
        t.add_interaction((x[1], x[2]), coefficient=-2.0)
        t.add_interaction(x[2], coefficient=-c)
        t.offset(p if sx.choices["offset"] == 0 else c)
        lin, quad, off = raw(edited(t).to_physical())
        run(sx, m, {"a": a, "b": b}, {**lin, **quad}, off, "polynomial" if k == 1 else "second-values")


@clocked
def powers(sx):
    """placeholder polynomials of high degree and many placeholders, symbolic coefficients, particular values"""
    mon = [{"b": 2}, {"b": 5}, {"a": 3, "b": 1}, {"a": 1, "b": 1, "c": 1, "d": 4}, {}, {"d": 1}, {"c": 7}]
    r = [sx.real(f"r{i}") for i in range(len(mon))]
    lead = sx.choice("at", ["linear", "quadratic", "offset"])
    P = polynomial(list(zip(mon, r)))
    q = {("x[0]", "x[0]"): P if lead == "linear" else 1.0, ("x[0]", "x[1]"): P if lead == "quadratic" else 1.0}
    cm = pyqubo.Model(pyqubo.core.CompiledQubo(q, P if lead == "offset" else 0.0), {f"x[{i}]": ("x", i) for i in range(2)}, {})
    m = LogicalModel(mtype="qubo")
    m.variables("x", shape=(2,))
    m.from_pyqubo(cm)
    for feed in ({"a": 2, "b": 3, "c": -1, "d": 0.5}, {"a": -1.5, "b": -2.0, "c": 0, "d": 3}):
        v = 0.0
        for k, c in zip(mon, r):
            t = 1.0
            for n, e in k.items():
                t *= feed[n] ** e
            v = v + c * t
        want = {"x[0]": -v if lead == "linear" else -1.0, ("x[0]", "x[1]"): -v if lead == "quadratic" else -1.0}
        run(sx, m, feed, want, v if lead == "offset" else 0.0, "powers")


ODD = ["", "_", " p", "p ", "p", "P", "0", "p q", "\u03b1", "x[0]", "x", "p*q", "__p__", "None"]


@clocked
def odd_names(sx):
    """placeholders whose names are blank, alike, or look like something else"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    k = sx.choice("first", range(len(ODD)))
    n = [ODD[k], ODD[(k + 1) % len(ODD)], ODD[(k + 4) % len(ODD)]]
    v = [sx.real(f"v{i}") for i in range(3)]
    c = sx.real("c", nonzero=True)
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=PH(n[0]) * c, scale=PH(n[1]))
    m.add_interaction((x[0], x[1]), coefficient=PH(n[2]) + c)
    m.offset(PH(n[0]) * PH(n[2]) + PH(n[1]))
    feed = dict(zip(n, v)) if sx.choice("order", [0, 1]) else dict(zip(n[::-1], v[::-1]))
    run(sx, m, feed, {"x[0]": v[0] * c * v[1], ("x[0]", "x[1]"): v[2] + c}, v[0] * v[2] + v[1], "odd-names")


UNITS = [
    Unit("resolve", resolve, "9 expression forms in coefficient, scale, offset or both; two value sets (one of them all reals), three conversions", ["resolved", "second-values", "resolved-offset", "feed-unchanged"]),
    Unit("histories", histories, "one of 10 edits then one of 4, against a twin built with the numbers; all reals", ["as-if-written", "same-outcome"]),
    Unit("integers", integers, "every integer value", ["integers"]),
    Unit("big", big, "14 variables, 14 placeholders, 31 interactions, a history of edits, against a twin built with the numbers; values within ranges", ["as-if-written", "again", "feed-unchanged"]),
    Unit("polynomials", polynomials, "an imported model with placeholder polynomials as coefficients and constant, 7 edits, against a twin; two value sets (one of them all reals), three conversions, a rejected one before", ["polynomial", "second-values", "polynomial-offset", "missing-value-rejected"]),
    Unit("powers", powers, "a polynomial of 7 monomials up to degree 7 in 4 placeholders as coefficient or constant, two value sets; all real coefficients", ["powers", "powers-offset"]),
    Unit("odd-names", odd_names, "14 odd placeholder names in threes; all reals", ["odd-names", "odd-names-offset", "feed-unchanged"]),
]
