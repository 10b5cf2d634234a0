"""C07: constraint penalties match their definition."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, ZeroOrOneHotConstraint, clocked, pairkey, poly_diff_checks, raw

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in", "a constant in the energy is not compared (as the statement says)"]


def square(coefs, const):
    """(sum coefs[v]*x_v + const)^2 over 0/1 variables, as polynomial without its constant"""
    out = {}
    vs = sorted(coefs)
    for i, v in enumerate(vs):
        out[v] = coefs[v] * coefs[v] + 2 * coefs[v] * const
        for w in vs[i + 1:]:
            out[pairkey(v, w)] = 2 * coefs[v] * coefs[w]
    return out


def penalty(c):
    """independent reading of the definition from the public getters"""
    k = c.get_constraint_class()
    if k == "NHotConstraint":
        return square({v.label: 1 for v in c.get_variables()}, -c.get_n())
    if k == "EqualityConstraint":
        co = {v.label: 1 for v in c.get_variables_1()}
        co.update({v.label: -1 for v in c.get_variables_2()})
        return square(co, 0)
    vs = sorted(v.label for v in c.get_variables())
    return {pairkey(a, b): 2 for i, a in enumerate(vs) for b in vs[i + 1:]}


def to_spin(p):
    """0/1 polynomial -> spin polynomial under spin = 2*bit-1, constant dropped"""
    out = {}

    def ad(k, v):
        out[k] = out[k] + v if k in out else v

    for k, v in p.items():
        if isinstance(k, tuple):
            ad(k, v * 0.25)
            ad(k[0], v * 0.25)
            ad(k[1], v * 0.25)
        else:
            ad(k, v * 0.5)
    return out


def expected(mtype, cons, inter):
    """sawatabi coefficients (negated energy)"""
    out = dict(inter)
    for st, p in cons:
        q = p if mtype == "qubo" else to_spin(p)
        for k, v in q.items():
            out[k] = out[k] - st * v if k in out else 0.0 - st * v
    return out


def verify(sx, label, m, cons, inter):
    lin, quad, _ = raw(m.to_physical())
    sx.check_all(poly_diff_checks(sx, label, {**lin, **quad}, expected(m.get_mtype(), cons, inter)))
    sx.observe("p", sorted([str(k), v] for k, v in {**lin, **quad}.items()))


def pool(m):
    """variables over several arrays, with labels whose string order differs from index order"""
    x, y, z = m.variables("x", shape=(12,)), m.variables("y", shape=(2, 2)), m.variables("Z", shape=(2,))
    return [x[2], x[10], y[1, 0], x[11], Z0(z), y[0, 1]]


def Z0(z):
    return z[0]


def nhot(sx, sym_n):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    v = pool(m)[: sx.choice("size", range(0, 7))]
    if sym_n:
        n = sx.int("n", lo=1)
        s = sx.choice("strength", [1.0, 2.5, -3, 0.5])
    else:
        n = sx.choice("n", [1, 2, 3, 4, 7])
        s = sx.real("s")
    c = NHotConstraint(v or None, n=n, strength=s)
    m.add_constraint(c)
    sx.check("getters", sx.And(sx.eq(c.get_n(), n), sx.eq(c.get_strength(), s)) and sorted(a.label for a in c.get_variables()) == sorted(a.label for a in v))
    verify(sx, "n-hot", m, [(s, square({a.label: 1 for a in v}, -n))], {})


@clocked
def nhot_s(sx):
    """all strengths, n from a list"""
    nhot(sx, False)


@clocked
def nhot_n(sx):
    """all n, strengths from a list"""
    nhot(sx, True)


@clocked
def zeroone(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    v = pool(m)[: sx.choice("size", range(0, 7))]
    s = sx.real("s")
    m.add_constraint(ZeroOrOneHotConstraint(v or None, strength=s))
    vs = sorted(a.label for a in v)
    verify(sx, "zero-or-one", m, [(s, {(a, b): 2 for i, a in enumerate(vs) for b in vs[i + 1:]})], {})


@clocked
def equality(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    p = pool(m)
    n1, n2 = sx.choice("n1", range(0, 4)), sx.choice("n2", range(0, 4))
    if sx.choice("order", [0, 1]):
        p = p[::-1]
    v1, v2 = p[:n1], p[3:3 + n2]
    s = sx.real("s")
    m.add_constraint(EqualityConstraint(v1 or None, v2 or None, strength=s))
    co = {a.label: 1 for a in v1}
    co.update({a.label: -1 for a in v2})
    verify(sx, "equality", m, [(s, square(co, 0))], {})


@clocked
def together(sx):
    """two constraints and interactions over the same variables"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(4,))
    h, J = sx.real("h"), sx.real("J", nonzero=True)
    scale = sx.choice("scale", [1.0, 2.0])
    m.add_interaction(x[0], coefficient=h, scale=scale)
    nm = sx.choice("name", ["", "x[0]*x[1] (A)"])
    m.add_interaction((x[1], x[0]), name=nm, coefficient=J)
    m.add_interaction(x[3], coefficient=4.0)
    m.remove_interaction(target=x[3])

    def mk(kind, label, s):
        if kind == "n1":
            return NHotConstraint(x, n=2, label=label, strength=s)
        if kind == "n2":
            return NHotConstraint([x[0], x[1]], n=1, label=label, strength=s)
        if kind == "z":
            return ZeroOrOneHotConstraint({x[0], x[1], x[2]}, label=label, strength=s)
        return EqualityConstraint([x[0]], [x[1], x[3]], label=label, strength=s)

    def pen(kind):
        L = [f"x[{i}]" for i in range(4)]
        if kind == "n1":
            return square({a: 1 for a in L}, -2)
        if kind == "n2":
            return square({a: 1 for a in L[:2]}, -1)
        if kind == "z":
            return {(a, b): 2 for i, a in enumerate(L[:3]) for b in L[i + 1:3]}
        return square({L[0]: 1, L[1]: -1, L[3]: -1}, 0)

    kinds = ["n1", "n2", "z", "e"]
    ka = sx.choice("ka", kinds)
    kb = sx.choice("kb", kinds)
    sa, sb = sx.real("sa", nonzero=True), sx.real("sb", nonzero=True)
    m.add_constraint(mk(ka, "A", sa))
    m.add_constraint(mk(kb, "B", sb))
    verify(sx, "together", m, [(sa, pen(ka)), (sb, pen(kb))], {"x[0]": h * scale, ("x[0]", "x[1]"): J})
    m.remove_constraint("A")
    verify(sx, "one removed", m, [(sb, pen(kb))], {"x[0]": h * scale, ("x[0]", "x[1]"): J})


@clocked
def built_up(sx):
    """constraints built by later calls: duplicates, removed members, arrays that grew after the constraint was made"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    s = sx.real("s", nonzero=True)
    k = sx.choice("kind", ["n", "z", "e"])
    if k == "n":
        c = NHotConstraint(x, n=1, strength=s)
        add, rem = c.add_variable, c.remove_variable
    elif k == "z":
        c = ZeroOrOneHotConstraint([x[0], x[0], x[1]], strength=s)
        add, rem = c.add_variable, c.remove_variable
    else:
        c = EqualityConstraint(x[0], [x[1], x[1]], strength=s)
        add, rem = c.add_variable_to_2, c.remove_variable_from_2
    m.add_constraint(c)
    x = m.append("x", shape=(2,))
    mem = {"x[0]", "x[1]"}
    if sx.choice("add", [0, 1]):
        add([x[1], x[2]] if k == "e" else x)
        mem |= {"x[1]", "x[2]"} if k == "e" else {"x[0]", "x[2]", "x[3]"}
    if sx.choice("rem", [0, 1]):
        rem(x[1])
        mem -= {"x[1]"}
    L = sorted(mem)
    if k == "n":
        p = square({a: 1 for a in L}, -1)
    elif k == "z":
        p = {(a, b): 2 for i, a in enumerate(L) for b in L[i + 1:]}
    else:
        p = square({a: (1 if a == "x[0]" else -1) for a in L}, 0)
    verify(sx, "built-up", m, [(s, p)], {})


@clocked
def to_model(sx):
    """the penalty model itself, and two constraints of equal content"""
    s = sx.real("s", nonzero=True)
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(3,))
    k = sx.choice("kind", ["n", "z", "e"])
    n = sx.choice("n", [1, 2, 5])
    c = {"n": lambda: NHotConstraint(x, n=n, strength=s), "z": lambda: ZeroOrOneHotConstraint(x, strength=s),
         "e": lambda: EqualityConstraint([x[0], x[2]], [x[1]], strength=s)}[k]()
    for _ in range(2):
        lin, quad, _o = raw(c.to_model().to_physical())
        sx.check_all(poly_diff_checks(sx, "to-model", {**lin, **quad}, expected("qubo", [(s, penalty(c))], {})))
    sx.check("strength-kept", sx.eq(c.get_strength(), s))


@clocked
def big(sx):
    """many members"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x, y = m.variables("x", shape=(13,)), m.variables("y", shape=(2, 12))
    vs = [x[i] for i in range(13)] + [y[i, j] for i in range(2) for j in range(12)]
    s = sx.real("s", nonzero=True)
    k = sx.choice("kind", ["n", "z", "e", "all"])
    size = sx.choice("size", [9, 21, 37])
    cons = []
    if k in ("n", "all"):
        n = sx.choice("n", [1, 2, 8, 20])
        m.add_constraint(NHotConstraint(vs[:size], n=n, label="N", strength=s))
        cons.append((s, square({a.label: 1 for a in vs[:size]}, -n)))
    if k in ("z", "all"):
        m.add_constraint(ZeroOrOneHotConstraint(vs[-size:], label="Z", strength=s + s))
        L = sorted(a.label for a in vs[-size:])
        cons.append((2 * s, {(a, b): 2 for i, a in enumerate(L) for b in L[i + 1:]}))
    if k in ("e", "all"):
        h = size // 2
        m.add_constraint(EqualityConstraint(vs[:h], vs[h:size], label="E", strength=s * 0.5))
        co = {a.label: 1 for a in vs[:h]}
        co.update({a.label: -1 for a in vs[h:size]})
        cons.append((0.5 * s, square(co, 0)))
    verify(sx, "big", m, cons, {})


UNITS = [
    Unit("n-hot", nhot_s, "0-6 variables of three arrays, n in {1,2,3,4,7}, every real strength, both types", ["n-hot", "getters"]),
    Unit("n-hot-n", nhot_n, "0-6 variables, every positive integer n, 4 strengths", ["n-hot"]),
    Unit("zero-or-one", zeroone, "0-6 variables, every real strength", ["zero-or-one"]),
    Unit("equality", equality, "0-3 + 0-3 variables, every real strength", ["equality"]),
    Unit("together", together, "all pairs of 4 constraints over 4 variables with interactions; every real strength and coefficient", ["together", "one removed"], budget=200),
    Unit("built-up", built_up, "constraints changed after creation, arrays that grow", ["built-up"]),
    Unit("to-model", to_model, "each constraint's own model, every non-zero strength", ["to-model"]),
    Unit("big", big, "9, 21 and 37 members, each kind alone and all three together; every non-zero strength", ["big"]),
]
