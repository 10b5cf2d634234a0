"""C11: the BQM handed to samplers has the model's energy."""
import dimod

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, PhysicalModel, clocked, pairkey, poly_diff_checks, raw, same

ASSUMPTIONS = ["dimod's BQM runs with its object dtype (its pure Python path) so that symbolic biases pass through; replay uses the default dtype"]


def bqm_poly(b):
    out = {v: x for v, x in b.linear.items()}
    for (u, v), x in b.quadratic.items():
        k = pairkey(u, v)
        out[k] = out[k] + x if k in out else x
    return out


def verify(sx, p, mtype, sign=None):
    lin, quad, off = raw(p)
    before = {"l": dict(p._raw_interactions[1]), "q": {str(k): v for k, v in p._raw_interactions[2].items()}, "o": off, "i": dict(p._label_to_index)}
    b = p.to_bqm() if sign is None else p.to_bqm(sign=sign)
    s = -1.0 if sign is None else sign
    sx.check("vartype", b.vartype is (dimod.SPIN if mtype == "ising" else dimod.BINARY))
    want = {k: s * v for k, v in {**lin, **quad}.items()}
    used = set(lin) | {a for k in quad for a in k}
    sx.check("variables", set(b.variables) == used, str(list(b.variables)))
    lbl = "energy" if sign is None else "signed"
    sx.check_all(poly_diff_checks(sx, lbl, bqm_poly(b), want) + [("offset", sx.eq(b.offset, off))])
    after = {"l": dict(p._raw_interactions[1]), "q": {str(k): v for k, v in p._raw_interactions[2].items()}, "o": p.get_offset(), "i": dict(p._label_to_index)}
    sx.check("physical-unchanged", same(sx, before, after))
    sx.observe("bqm", sorted([str(k), v] for k, v in bqm_poly(b).items()))
    return b


def energies(sx, b, p, mtype):
    """energy of every assignment, evaluated through the BQM's own coefficients"""
    lin, quad, off = raw(p)
    vs = sorted(b.variables)
    vals = (1, -1) if mtype == "ising" else (1, 0)
    items = []
    for bits in range(2 ** len(vs)):
        a = {v: vals[(bits >> i) & 1] for i, v in enumerate(vs)}
        e = off
        for k, v in lin.items():
            e = e - v * a[k]
        for k, v in quad.items():
            e = e - v * a[k[0]] * a[k[1]]
        g = b.offset
        for v in vs:
            g = g + b.linear[v] * a[v]
        for (u, v), x in b.quadratic.items():
            g = g + x * a[u] * a[v]
        items.append(("assignment-energy", sx.eq(g, e)))
        if not sx.symbolic:
            items.append(("dimod-energy", sx.eq(float(b.energy(a)), e)))
    sx.check_all(items)


@clocked
def direct(sx):
    """physical models built term by term"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = PhysicalModel(mtype=mtype)
    terms = [("a", 1), ("b", 1), (("a", "b"), 2), (("c", "b"), 2), (("d", "a"), 2), ("d", 1), (("x[2]", "x[10]"), 2)]
    for i, (k, body) in enumerate(terms):
        if sx.choice(f"has{i}", [True, False]):
            p.add_interaction(k, body=body, coefficient=sx.real(f"c{i}"))
    p._offset = sx.real("off")
    b = verify(sx, p, mtype)
    if len(b.variables) <= 4:
        energies(sx, b, p, mtype)


@clocked
def signed(sx):
    """explicit sign, any real"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = PhysicalModel(mtype=mtype)
    for i, (k, body) in enumerate([("a", 1), ("c", 1), (("b", "a"), 2), (("b", "c"), 2)]):
        if sx.choice(f"has{i}", [True, False]):
            p.add_interaction(k, body=body, coefficient=sx.real(f"c{i}"))
    p._offset = sx.real("off")
    verify(sx, p, mtype, sign=sx.real("sign"))
    verify(sx, p, mtype, sign=sx.choice("fixed", [1.0, -1.0, 1, -1, 0.0]))
    verify(sx, p, mtype)


@clocked
def from_logical(sx):
    """converted logical models, with constraints, offsets and removed interactions"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2, 2))
    m.add_interaction(x[0, 0], coefficient=sx.real("c0"), scale=sx.real("s0"))
    m.add_interaction((x[1, 1], x[0, 1]), coefficient=sx.real("c1"))
    m.add_interaction((x[0, 0], x[1, 1]), coefficient=sx.real("c2"))
    m.offset(sx.real("off"))
    op = sx.choice("op", ["none", "nhot", "equality", "remove", "fix"])
    if op == "nhot":
        m.add_constraint(NHotConstraint(x, n=1, strength=sx.real("s", nonzero=True)))
    elif op == "equality":
        m.add_constraint(EqualityConstraint([x[0, 0]], [x[1, 0]], strength=sx.real("s", nonzero=True)))
    elif op == "remove":
        m.remove_interaction(target=(x[0, 1], x[1, 1]))
    elif op == "fix":
        m.fix_variable(x[0, 0], 1)
    p = m.to_physical()
    b = verify(sx, p, mtype)
    energies(sx, b, p, mtype)


@clocked
def big(sx):
    """many terms"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = PhysicalModel(mtype=mtype)
    for i in range(40):
        p.add_interaction(f"x[{i}]", body=1, coefficient=sx.real(f"l{i}"))
        for j in (1, 7, 19):
            p.add_interaction((f"x[{i}]", f"x[{(i + j) % 41}]"), body=2, coefficient=sx.real(f"q{i}.{j}"))
    p._offset = sx.real("off")
    b = verify(sx, p, mtype)
    sx.check("big-size", len(b.variables) == 41 and len(b.quadratic) == 120)
    verify(sx, p, mtype, sign=sx.choice("sign", [1.0, -1.0, 2]))


UNITS = [
    Unit("direct", direct, "every subset of 7 terms over up to 6 variables, all real coefficients and offsets; every assignment where at most 4 variables", ["energy", "vartype", "offset", "physical-unchanged", "assignment-energy"]),
    Unit("signed", signed, "every subset of 4 terms, every real sign", ["signed", "offset"]),
    Unit("from-logical", from_logical, "3 interactions over 4 variables, constraints, removal, fixing; all reals; every assignment", ["energy", "assignment-energy"]),
    Unit("big", big, "160 terms over 41 variables, all reals", ["energy", "big-size"]),
]
