"""C10: variables of a physical model get dense, consistent indices."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, ZeroOrOneHotConstraint, clocked, pairkey, raw

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in",
               "every variable belongs to one of the model's arrays"]


def verify(sx, p, label="dense", never=()):
    lin, quad, _ = raw(p)
    used = set(lin)
    for a, b in quad:
        used |= {a, b}
    l2i, i2l = p._label_to_index, p._index_to_label
    sx.check(label, set(l2i) == used, f"{sorted(l2i)} used {sorted(used)}")
    sx.check(label, sorted(l2i.values()) == list(range(len(used))), str(l2i))
    sx.check("inverse", {v: k for k, v in l2i.items()} == dict(i2l) and len(i2l) == len(used), str(i2l))
    for n in never:
        sx.check("no-stray-index", n not in l2i, n)
    poly = p.to_polynomial()
    sx.check("polynomial-size", len(poly) == len(lin) + len(quad))
    items = []
    seen = set()
    for a, b, c in poly:
        ok = a in i2l and b in i2l
        if not ok:
            items.append(("polynomial-index", False, f"{a},{b}"))
            continue
        if a == b:
            k = i2l[a]
            want = lin.get(k)
        else:
            k = pairkey(i2l[a], i2l[b])
            want = quad.get(k)
        items.append(("polynomial-once", k not in seen))
        seen.add(k)
        items.append(("polynomial-index", want is not None, str(k)))
        if want is not None:
            items.append(("polynomial-value", sx.eq(c, 0.0 - want), str(k)))
    sx.check_all(items)
    sx.observe("idx", sorted(l2i.items()))
    sx.observe("poly", sorted([a, b, c] for a, b, c in poly))
    return used


@clocked
def cancelling(sx):
    """coefficients that may vanish or cancel decide which variables are used"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(11,))
    y = m.variables("a", shape=(2, 2))
    m.variables("unused", shape=(2,))
    m.add_interaction(x[2], name="h1", coefficient=sx.real("c0"), scale=sx.real("s0"))
    m.add_interaction(x[2], name="h2", coefficient=sx.real("c1"))
    m.add_interaction((x[10], x[2]), coefficient=sx.real("c2"))
    m.add_interaction((y[1, 0], x[10]), name="q1", coefficient=sx.real("c3"))
    m.add_interaction((x[10], y[1, 0]), name="q2", coefficient=sx.real("c4"))
    m.add_interaction(y[0, 1], coefficient=sx.real("c5"))
    never = ["unused[0]", "x[0]"]
    op = sx.choice("op", ["none", "remove", "delete", "fix", "remove two"])
    if op == "remove":
        m.remove_interaction(name="q1")
    elif op == "remove two":
        m.remove_interaction(target=(x[2], x[10]))
        m.remove_interaction(target=y[0, 1])
        never.append("a[0][1]")
    elif op == "delete":
        m.delete_variable(x[10])
        never.append("x[10]")
    elif op == "fix":
        m.fix_variable(x[10], 1)
        never.append("x[10]")
    p = m.to_physical()
    used = verify(sx, p, never=never)
    sx.check("type-ok", p.get_mtype() == mtype and used <= {"x[2]", "x[10]", "a[1][0]", "a[0][1]"})


@clocked
def constrained(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    z = m.variables("z", shape=(4,))
    b = m.variables("b", shape=(1, 3))
    m.add_interaction(z[3], coefficient=sx.real("c0"))
    m.add_interaction((z[0], b[0, 2]), coefficient=sx.real("c1"))
    s = sx.real("s")
    k = sx.choice("con", ["n", "z", "e", "two"])
    if k in ("n", "two"):
        m.add_constraint(NHotConstraint([z[1], b[0, 1]], n=sx.choice("n", [1, 2]), label="A", strength=s))
    if k in ("z", "two"):
        m.add_constraint(ZeroOrOneHotConstraint([b[0, 1], b[0, 0], z[3]], label="B", strength=1.5))
    if k == "e":
        m.add_constraint(EqualityConstraint([z[1]], [b[0, 1], z[3]], label="A", strength=s))
    never = ["z[2]"]
    if sx.choice("delete", [False, True]):
        m.delete_variable(b[0, 1])
        never.append("b[0][1]")
    verify(sx, m.to_physical(), "dense-constraints", never)
    # grows afterwards: indices of the next conversion are again dense
    z = m.append("z", shape=(7,))
    m.add_interaction((z[10], z[2]), coefficient=sx.real("late"))
    verify(sx, m.to_physical(), "dense-after-append", never[1:])


@clocked
def histories(sx):
    """conversions in between, arrays created and merged in different orders, type conversions"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    order = sx.choice("order", ["xy", "yx"])
    vs = {n: m.variables(n, shape=(2,)) for n in order}
    x, y = vs["x"], vs["y"]
    m.add_interaction((x[1], y[0]), coefficient=sx.real("c0"))
    m.add_interaction(x[0], coefficient=sx.real("c1"))
    if sx.choice("convert first", [False, True]):
        verify(sx, m.to_physical(), "dense-first")
    step = sx.choice("step", ["merge", "type", "update", "remove all", "merge other type"])
    if step.startswith("merge"):
        o = LogicalModel(mtype=mtype if step == "merge" else ("qubo" if mtype == "ising" else "ising"))
        w = o.variables("w", shape=(2,))
        xx = o.variables("x", shape=(3,))
        o.add_interaction((w[1], xx[2]), coefficient=sx.real("c2"))
        o.add_interaction(xx[0], name="again", coefficient=sx.real("c3"))
        m.merge(o)
    elif step == "type":
        m.to_qubo() if mtype == "ising" else m.to_ising()
    elif step == "update":
        m.update_interaction(x[0], coefficient=sx.real("c2"))
        m.update_interaction(y[1], coefficient=sx.real("c3"))
    else:
        m.remove_interaction(target=x[0])
        m.remove_interaction(target=(x[1], y[0]))
    verify(sx, m.to_physical(), "dense-history")
    verify(sx, m.to_physical(), "dense-again")


@clocked
def big(sx):
    """many variables, used and unused"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    arrays = {n: m.variables(n, shape=s) for n, s in (("x", (33,)), ("a", (3, 12)), ("Z z", (5,)), ("idle", (40,)))}
    x, a, z = arrays["x"], arrays["a"], arrays["Z z"]
    vs = [x[i] for i in range(0, 33, 2)] + [a[i, j] for i in range(3) for j in range(0, 12, 3)] + [z[4], z[0]]
    n = len(vs)
    gone = set()
    for i, v in enumerate(vs):
        m.add_interaction((v, vs[(i + 4) % n]), coefficient=sx.real(f"q{i}", positive=True))
        if i % 2:
            m.add_interaction(v, coefficient=sx.real(f"l{i}", positive=True))
    m.add_constraint(NHotConstraint([x[1], x[3], x[32], a[0, 1]], n=1, label="N", strength=1.0))
    for i in sx.choice("delete", [(), (0,), (5, 16, 20), tuple(range(10))]):
        m.delete_variable(vs[i])
        gone.add(vs[i].label)
    if sx.choice("fix", [False, True]):
        m.fix_variable(vs[-1], 1)
        gone.add(vs[-1].label)
    verify(sx, m.to_physical(), "dense-big", sorted(gone) + ["idle[0]", "x[5]"])
    used = verify(sx, m.to_physical(), "dense-big", sorted(gone))
    sx.check("big-used", len(used) >= 20)


@clocked
def used_again(sx):
    """variables that were fixed or deleted, and are used again by later interactions or constraints"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(4,))
    m.add_interaction(x[0], coefficient=sx.real("c0", nonzero=True))
    m.add_interaction((x[0], x[1]), coefficient=sx.real("c1", nonzero=True))
    m.add_interaction(x[2], coefficient=sx.real("c2"))
    if sx.choice("how", ["fix", "delete"]) == "fix":
        m.fix_variable(x[0], 1)
    else:
        m.delete_variable(x[0])
    if sx.choice("convert first", [False, True]):
        verify(sx, m.to_physical(), "dense-first", never=["x[0]"])
    again = sx.choice("again", ["linear", "pair", "constraint", "merge"])
    if again == "linear":
        m.add_interaction(x[0], name="again", coefficient=sx.real("c3"))
    elif again == "pair":
        m.add_interaction((x[0], x[3]), name="again", coefficient=sx.real("c3"))
    elif again == "constraint":
        m.add_constraint(NHotConstraint([x[0], x[3]], strength=sx.real("c3", nonzero=True)))
    else:
        o = LogicalModel(mtype=mtype)
        y = o.variables("x", shape=(2,))
        o.add_interaction(y[0], coefficient=sx.real("c3"))
        m.merge(o)
    verify(sx, m.to_physical(), "dense-again", never=["x[3]"] if again in ("linear", "merge") else [])


@clocked
def odd_names(sx):
    """arrays named by blanks, digits, signs, and texts that look like labels"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    odd = ["_", "_x", " x", "x ", "0", "\u03b1", "x.y", "x[0]", "x+y", "x,y[1]", "X", "x", "-1", "x (N)", "None", "q"]
    k = sx.choice("first", range(len(odd)))
    n1, n2, n3 = odd[k], odd[(k + 1) % len(odd)], odd[(k + 5) % len(odd)]
    m = LogicalModel(mtype=mtype)
    a, b, c = m.variables(n1, shape=(3,)), m.variables(n2, shape=(2, 2)), m.variables(n3, shape=(2,))
    used = [a[0], a[2], b[0, 1], b[1, 1], c[1]]
    for i, v in enumerate(used):
        m.add_interaction((v, used[(i + 1) % len(used)]), coefficient=sx.real(f"q{i}", positive=True))
        if i % 2:
            m.add_interaction(v, coefficient=sx.real(f"l{i}", positive=True))
    never = [a[1].label, b[0, 0].label, c[0].label]
    if sx.choice("constraint", [False, True]):
        m.add_constraint(NHotConstraint([a[1], b[0, 0]], n=1, label=n1, strength=1.5))
        never = never[2:]
    gone = sx.choice("delete", [None, 0, 3])
    if gone is not None:
        m.delete_variable(used[gone])
        never.append(used[gone].label)
    got = verify(sx, m.to_physical(), "dense-odd", [n for n in never if n not in {v.label for i, v in enumerate(used) if i != gone}])
    sx.check("odd-used", got >= {v.label for i, v in enumerate(used) if i != gone}, str(got))


UNITS = [
    Unit("cancelling", cancelling, "6 interactions over 4 of 17 variables (two-digit labels, 2-D array, unused array), all real coefficients (zero and cancelling included), five edits",
         ["dense", "inverse", "no-stray-index", "polynomial-value", "polynomial-once"]),
    Unit("constrained", constrained, "constraints of all kinds, deletion, arrays that grow; all reals", ["dense-constraints", "dense-after-append"]),
    Unit("histories", histories, "merges, type conversion, updates, removals, with and without a conversion before", ["dense-history", "dense-again"]),
    Unit("big", big, "31 variables used of 114 in four arrays, 46 interactions, a constraint, up to ten deletions, fixing; all positive coefficients", ["dense-big", "polynomial-value"]),
    Unit("used-again", used_again, "variables fixed or deleted before and used again, 4 ways; all reals", ["dense-again"]),
    Unit("odd-names", odd_names, "16 odd array names in threes, 5 variables used, constraint, deletion; all positive reals", ["dense-odd", "odd-used"]),
]
