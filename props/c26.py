"""C26: models and constraints compare equal exactly when their contents agree."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, PhysicalModel, ZeroOrOneHotConstraint, clocked, same, snapshot

ASSUMPTIONS = ["both models list their interactions and attributes in the same order and have the same conversion history (order and the modification flag are not part of the statement)",
               "wall clock replaced by a strictly increasing stand-in"]


def verdict(sx, a, b, want, label):
    """want: condition under which a and b agree"""
    r = bool(a == b)
    w = want if isinstance(want, bool) else bool(want)
    sx.check(label, r == w, f"== gave {r}, contents agree: {w}")
    sx.check(label + "-symmetric", bool(b == a) == w)
    sx.check(label + "-ne", bool(a != b) == (not w) and bool(b != a) == (not w))
    sx.check("reflexive", bool(a == a) and not bool(a != a))
    sx.observe("eq", r)


VALUES = ["c0", "c1", "s0", "ts", "at", "off", "st"]
STRUCT = ["none", "mtype", "array", "shape", "array name", "removed", "deleted", "fixed", "attribute key", "attribute missing", "constraint missing", "constraint label",
          "constraint kind", "constraint members", "constraint n", "interaction missing", "interaction name", "interaction target", "unused array"]


def logical(mtype, v, d):
    m = LogicalModel(mtype=("qubo" if mtype == "ising" else "ising") if d == "mtype" else mtype)
    an = "z" if d == "array name" else "x"
    x = m.variables(an, shape=(2, 2) if d == "array" else ((4,) if d == "shape" else (3,)))
    if d == "unused array":
        m.variables("u", shape=(1,))
    g = (lambda i: x[i // 2, i % 2]) if d == "array" else (lambda i: x[i])
    at = {} if d == "attribute missing" else {("kk" if d == "attribute key" else "k"): v["at"]}
    m.add_interaction(g(0), coefficient=v["c0"], scale=v["s0"], timestamp=v["ts"], attributes=at)
    m.add_interaction((g(0), g(2)) if d == "interaction target" else (g(0), g(1)), name="other" if d == "interaction name" else "pair", coefficient=v["c1"], timestamp=2)
    if d != "interaction missing":
        m.add_interaction(g(2), coefficient=1.0, timestamp=3)
    if d == "removed":
        m.remove_interaction(name="pair")
    if d == "deleted":
        m.delete_variable(m.variables("w", shape=(1,))[0])
        del m._variables["w"]
    if d == "fixed":
        m.fix_variable(m.variables("w", shape=(1,))[0], 1)
        del m._variables["w"]
    m.offset(v["off"])
    if d != "constraint missing":
        mem = [g(0), g(1), g(2)] if d == "constraint members" else [g(0), g(1)]
        lb = "M" if d == "constraint label" else "L"
        if d == "constraint kind":
            m.add_constraint(ZeroOrOneHotConstraint(mem, label=lb, strength=v["st"]))
        else:
            m.add_constraint(NHotConstraint(mem, n=2 if d == "constraint n" else 1, label=lb, strength=v["st"]))
    return m


def pairs(sx, names, differ):
    """values of both sides: equal except those in `differ`, which are independent symbols"""
    a = {k: sx.real(k) for k in names}
    b = {k: (sx.real(k + "'") if k in differ else a[k]) for k in names}
    return a, b


@clocked
def logical_models(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    d = sx.choice("difference", STRUCT)
    differ = sx.choice("values", [()] + [(v,) for v in VALUES] + [("c0", "c1"), ("off", "st"), tuple(VALUES)]) if d == "none" else sx.choice("values", [(), ("c0",)])
    a, b = pairs(sx, VALUES, differ)
    A = logical(mtype, a, "none")
    B = logical(mtype, b, d)
    if d == "none":
        verdict(sx, A, B, sx.And(*[sx.eq(a[k], b[k]) for k in VALUES]), "logical")
    else:
        verdict(sx, A, B, False, "logical-structure")


@clocked
def logical_pairs(sx):
    """two different structural changes on the two sides"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    i, j = sx.choice("differences", [(i, j) for i in range(1, len(STRUCT)) for j in range(i)])
    a, b = pairs(sx, VALUES, sx.choice("values", [(), ("c0",)]))
    verdict(sx, logical(mtype, a, STRUCT[i]), logical(mtype, b, STRUCT[j]), False, "logical-structure")


@clocked
def constraints(sx):
    m = LogicalModel(mtype=sx.choice("mtype", ["ising", "qubo"]))
    x = m.variables("x", shape=(4,))
    s1, s2 = sx.real("s1"), sx.real("s2")
    n1, n2 = sx.int("n1", lo=1), sx.int("n2", lo=1)
    sets = [None, [x[0]], [x[1], x[0]], {x[0], x[1]}, x, [x[1]], [x[2], x[1]]]
    lab = [[], ["x[0]"], ["x[0]", "x[1]"], ["x[0]", "x[1]"], ["x[0]", "x[1]", "x[2]", "x[3]"], ["x[1]"], ["x[1]", "x[2]"]]
    two = {1: [x[3], x[2]], 2: [x[2]], 3: [x[3]], 4: [x[2], x[0]]}
    ka, kb = sx.choice("ka", "nze"), sx.choice("kb", "nze")
    ia, ib = sx.choice("va", range(7)), sx.choice("vb", range(7))
    la, lb = "L", sx.choice("label", ["L", "M"])
    ea, eb = (sx.choice("ea", [1, 2, 3, 4]), sx.choice("eb", [1, 2, 3, 4])) if ka == kb == "e" else (1, 1)

    def mk(k, i, label, s, n, e):
        if k == "n":
            return NHotConstraint(sets[i], n=n, label=label, strength=s)
        if k == "z":
            return ZeroOrOneHotConstraint(sets[i], label=label, strength=s)
        return EqualityConstraint(sets[i], two[e], label=label, strength=s)

    A, B = mk(ka, ia, la, s1, n1, ea), mk(kb, ib, lb, s2, n2, eb)
    agree = ka == kb and lab[ia] == lab[ib] and la == lb and ea == eb
    if not agree:
        verdict(sx, A, B, False, "constraint-structure")
        return
    verdict(sx, A, B, sx.And(sx.eq(s1, s2), sx.eq(n1, n2) if ka == "n" else True), "constraint")


@clocked
def constraint_histories(sx):
    """equal members reached by different calls are equal"""
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(3,))
    s = sx.real("s")
    k = sx.choice("k", ["n", "z", "e1", "e2"])

    def mk(v):
        if k == "n":
            c = NHotConstraint(v, n=2, strength=s)
            return c, c.add_variable, c.remove_variable
        if k == "z":
            c = ZeroOrOneHotConstraint(v, strength=s)
            return c, c.add_variable, c.remove_variable
        if k == "e1":
            c = EqualityConstraint(v, x[2], strength=s)
            return c, c.add_variable_to_1, c.remove_variable_from_1
        c = EqualityConstraint(x[2], v, strength=s)
        return c, c.add_variable_to_2, c.remove_variable_from_2

    A, _, _ = mk([x[0], x[1]])
    B, add, rem = mk(None)
    add(x[1])
    mem = {"x[1]"}
    if sx.flag("f0"):
        add({x[0]})
        mem.add("x[0]")
    if sx.flag("f1"):
        add(x)
        mem |= {"x[0]", "x[1]", "x[2]"}
    if sx.flag("f2") and "x[2]" in mem:
        rem([x[2]])
        mem.discard("x[2]")
    verdict(sx, A, B, mem == {"x[0]", "x[1]"}, "constraint-history")


@clocked
def physical_models(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    names = ["h", "J", "K", "off"]
    d = sx.choice("difference", ["none", "mtype", "key", "missing", "index", "body", "extra"])
    a, b = pairs(sx, names, sx.choice("values", [(), ("h",), ("J",), ("off",), tuple(names)]) if d == "none" else ())

    def mk(v, d):
        p = PhysicalModel(mtype=("qubo" if mtype == "ising" else "ising") if d == "mtype" else mtype)
        p.add_interaction("x[0]", body=1, coefficient=v["h"])
        p.add_interaction(("x[0]", "x[2]") if d == "key" else ("x[0]", "x[1]"), body=2, coefficient=v["J"])
        if d == "body":
            p.add_interaction("x[1]", body=2, coefficient=v["K"])
        elif d != "missing":
            p.add_interaction("x[1]", body=1, coefficient=v["K"])
        if d == "extra":
            p.add_interaction("x[9]", body=1, coefficient=1.0)
        p._offset = v["off"]
        L = ["x[1]", "x[0]"] if d == "index" else ["x[0]", "x[1]"]
        p._label_to_index = {k: i for i, k in enumerate(L)}
        p._index_to_label = dict(enumerate(L))
        return p

    A, B = mk(a, "none"), mk(b, d)
    verdict(sx, A, B, sx.And(*[sx.eq(a[k], b[k]) for k in names]) if d == "none" else False, "physical")


@clocked
def converted(sx):
    """physical models obtained by conversion"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    names = ["h", "J", "off"]
    a = {k: sx.real(k, nonzero=True) for k in names}
    b = {k: sx.real(k + "'", nonzero=True) for k in names}

    def mk(v, extra):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(3,))
        m.add_interaction(x[0], coefficient=v["h"])
        m.add_interaction((x[1], x[2]), coefficient=v["J"])
        if extra:
            m.add_interaction(x[0], name="gone", coefficient=5.0)
            m.remove_interaction(name="gone")
        m.offset(v["off"])
        return m.to_physical()

    verdict(sx, mk(a, False), mk(b, sx.choice("extra", [False, True])), sx.And(*[sx.eq(a[k], b[k]) for k in names]), "converted")


class Lookalike:
    def __init__(self, o):
        self.__dict__.update(o.__dict__)


@clocked
def strangers(sx):
    """anything else is unequal"""
    m = LogicalModel(mtype="ising")
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=sx.real("c", nonzero=True))
    objs = [m, m.to_physical(), NHotConstraint(x), ZeroOrOneHotConstraint(x), EqualityConstraint(x, x[0])]
    i = sx.choice("i", range(5))
    o = objs[i]
    others = [None, 3, "model", [], {}, sx.choice, Lookalike(o)] + [p for j, p in enumerate(objs) if j != i]
    p = sx.choice("other", others)
    sx.check("stranger", bool(o == p) is False and bool(o != p) is True)


PLACES = ["coefficient", "scale", "timestamp", "attribute", "removed", "name", "target", "missing", "constraint", "members", "label", "deleted", "fixed", "array", "offset", "none"]


def large(mtype, d, k, v, w):
    """a model of 40 interactions, 12 constraints; the place k of kind d holds w instead of v"""
    m = LogicalModel(mtype=mtype)
    arrs = {}
    for a in range(6):
        arrs[a] = m.variables(f"x{a}", shape=(13 if (d == "array" and a == k % 6) else 12,))
    for i in range(40):
        here = i == k
        if here and d == "missing":
            continue
        val = {q: (w if here and d == q else v) for q in ("coefficient", "scale", "timestamp", "attribute")}
        t = arrs[(i + (2 if here and d == "target" else 0)) % 6][i // 6] if i % 2 else (arrs[i % 6][i // 6], arrs[(i + (2 if here and d == "target" else 1)) % 6][11])
        m.add_interaction(t, name=f"n{i}" + ("'" if here and d == "name" else ""), coefficient=val["coefficient"], scale=val["scale"], timestamp=val["timestamp"],
                          attributes={"p": val["attribute"]} if i % 3 == 0 or (here and d == "attribute") else {"q": 1.0})
        if here and d == "removed":
            m.remove_interaction(name=f"n{i}")
    for i in range(12):
        here = i == k % 12
        mem = [arrs[i % 6][j] for j in range(3)] + ([arrs[i % 6][5]] if here and d == "members" else [])
        lb = f"c{i}" + ("'" if here and d == "label" else "")
        m.add_constraint(NHotConstraint(mem, n=1, label=lb, strength=w if here and d == "constraint" else v) if i % 2 else ZeroOrOneHotConstraint(mem, label=lb, strength=w if here and d == "constraint" else v))
    for i in range(12):
        if not (d == "deleted" and i == k % 12):
            m.delete_variable(arrs[i % 6][8 + i // 6])
    for i in range(5):
        if not (d == "fixed" and i == k % 5):
            m.fix_variable(arrs[i][10], 1)
    m.offset(w if d == "offset" else v)
    return m


@clocked
def large_models(sx):
    """one difference, anywhere in a large model"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    d = sx.choice("difference", PLACES)
    k = sx.choice("place", [0, 11, 24, 39])
    v, w = sx.real("v", nonzero=True), sx.real("w", nonzero=True)
    A, B = large(mtype, "", -1, v, w), large(mtype, d, k, v, w)
    by_value = d in ("coefficient", "scale", "timestamp", "constraint", "offset") or (d == "attribute" and k % 3 == 0)
    if by_value:
        verdict(sx, A, B, sx.eq(v, w), "logical")
    else:
        verdict(sx, A, B, d == "none", "logical-structure")


@clocked
def number_kinds(sx):
    """the same numbers written as integers and as floats"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    k = sx.choice("value", VALUES)
    n = sx.choice("number", [0, 1, -3, 10**6])
    a, _ = pairs(sx, VALUES, ())
    b = dict(a)
    a[k], b[k] = n, float(n) + sx.choice("more", [0.0, 0.5])
    verdict(sx, logical(mtype, a, "none"), logical(mtype, b, "none"), bool(a[k] == b[k]), "number-kind")
    P, Q = PhysicalModel(mtype=mtype), PhysicalModel(mtype=mtype)
    for p, v in ((P, a[k]), (Q, b[k])):
        p.add_interaction("x", body=1, coefficient=v if k != "off" else 2.0)
        p._offset = v if k == "off" else 1.0
    verdict(sx, P, Q, bool(a[k] == b[k]), "number-kind-physical")


@clocked
def fixed_and_deleted(sx):
    """the same variable fixed, deleted or both"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    c, o = sx.real("c", nonzero=True), sx.real("o")

    def mk(how):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(3,))
        m.add_interaction(x[0], coefficient=0.0, timestamp=1)
        m.add_interaction(x[1], coefficient=c, timestamp=2)
        for h in how:
            if h[0] == "d":
                m.delete_variable(x[int(h[1])])
            else:
                m.fix_variable(x[int(h[1])], 1)
        m.offset(o)
        return m

    ways = [(), ("f0",), ("d0",), ("d0", "f0"), ("f0", "d0"), ("f2",), ("d2",), ("f2", "d2"), ("f0", "d2"), ("f2", "d0"), ("f0", "f2"), ("d0", "d2")]
    a, b = sx.choice("a", range(len(ways))), sx.choice("b", range(len(ways)))
    A, B = mk(ways[a]), mk(ways[b])
    rows = lambda m: same(sx, snapshot(A)["rows"], snapshot(B)["rows"])  # noqa: E731
    eq = sx.And(set(ways[a]) == set(ways[b]), rows(None))
    verdict(sx, A, B, eq, "fixed-deleted")


UNITS = [
    Unit("logical", logical_models, "19 structural differences, every set of differing values from the list; all reals", ["logical", "logical-ne", "logical-structure"]),
    Unit("logical-pairs", logical_pairs, "all pairs of 19 structural differences; all reals", ["logical-structure"]),
    Unit("constraints", constraints, "all pairs of three kinds, 7 member sets (4 second sides), two labels; every strength and n", ["constraint", "constraint-structure", "constraint-ne"]),
    Unit("constraint-histories", constraint_histories, "members reached by symbolic sequences of calls", ["constraint-history"]),
    Unit("physical", physical_models, "6 structural differences; all reals", ["physical"]),
    Unit("converted", converted, "conversion results; all non-zero reals", ["converted"]),
    Unit("strangers", strangers, "other objects, including ones with the same attributes", ["stranger"]),
    Unit("large", large_models, "models of 40 interactions, 12 constraints, 72 variables: one of 15 kinds of difference at one of 4 places; all reals", ["logical", "logical-structure", "logical-ne"]),
    Unit("number-kinds", number_kinds, "each of 7 values as an integer on one side and an equal or different float on the other", ["number-kind", "number-kind-physical"]),
    Unit("fixed-deleted", fixed_and_deleted, "all pairs of 12 ways to fix and delete up to two variables, in either order; all non-zero reals", ["fixed-deleted"]),
]
