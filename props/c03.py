"""C03: fixing a variable substitutes its value into the energy."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, attempt, clocked, pairkey, poly_diff_checks, raw, same, snapshot, spin_values

ASSUMPTIONS = ["models without constraints (the property is about interactions and offset)", "wall clock replaced by a strictly increasing stand-in"]


def subst(poly, off, label, value):
    """independent substitution: energy = off - sum v*mono"""
    out, o = {}, off
    for k, v in poly.items():
        if k == label:
            o = o - v * value
        elif isinstance(k, tuple) and label in k:
            r = k[0] if k[1] == label else k[1]
            t = v * value
            out[r] = out[r] + t if r in out else t
        else:
            out[k] = out[k] + v if k in out else v
    return out, o


def add(poly, k, v):
    poly[k] = poly[k] + v if k in poly else v


def verify(sx, m, poly, off, gone, label):
    a = m._interactions_array
    for i in range(m._interactions_length):
        if not a["removed"][i]:
            k = a["key"][i]
            ks = k if isinstance(k, tuple) else (k,)
            sx.check("variable-gone", not (set(ks) & set(gone)), f"{a['name'][i]} still uses {gone}")
    sx.check("offset", sx.eq(m.get_offset(), off))
    lin, quad, o = raw(m.to_physical())
    sx.check_all(poly_diff_checks(sx, label, {**lin, **quad}, poly) + [("converted-offset", sx.eq(o, off))])
    sx.observe("e", sorted([str(k), v] for k, v in {**lin, **quad}.items()))


def build(sx, m, x, flags=True, scales=(0, 2)):
    spec = [(x[0], "", "x[0]"), ((x[1], x[0]), "", ("x[0]", "x[1]")), (x[0], "again", "x[0]"), ((x[0], x[2]), "p2", ("x[0]", "x[2]")),
            (x[1], "", "x[1]"), ((x[2], x[1]), "", ("x[1]", "x[2]"))]
    poly = {}
    for i, (t, n, k) in enumerate(spec):
        c = sx.real(f"c{i}", nonzero=True)
        s = sx.real(f"s{i}", nonzero=True) if i in scales else (1.0, 2.0, 0.5)[i % 3]
        m.add_interaction(t, name=n, coefficient=c, scale=s)
        if flags and i in (0, 1, 3) and sx.choice(f"rm{i}", [False, True]):
            if n:
                m.remove_interaction(name=n)
            else:
                m.remove_interaction(target=t)
        else:
            add(poly, k, c * s)
    return poly


@clocked
def one(sx):
    """fix one variable to any integer value; removed and scaled interactions present"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    poly = build(sx, m, x)
    off = sx.real("off")
    m.offset(off)
    v = sx.int("value")
    before = snapshot(m)
    e, _ = attempt(m.fix_variable, x[0], v)
    ok = sx.Or(v == 1, v == (-1 if mtype == "ising" else 0))
    if e is not None:
        sx.check("rejects-only-invalid", sx.And(isinstance(e, ValueError), sx.Not(ok)), repr(e))
        sx.check("rejected-unchanged", same(sx, before, snapshot(m)))
        return
    sx.check("accepts-only-valid", ok)
    want, o = subst(poly, off, "x[0]", v)
    sx.check("listed", m.get_fixed_array() == ["x[0]"])
    verify(sx, m, want, o, ["x[0]"], "substituted")


@clocked
def sequence(sx):
    """fix up to three variables in any order, editing in between"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    poly = build(sx, m, x, flags=False, scales=(1,))
    off = sx.real("off")
    m.offset(off)
    order = sx.choice("order", [(0, 1), (1, 0), (0, 2, 1), (2, 1, 0)])
    gone = []
    o = off
    for j, i in enumerate(order):
        v = sx.choice(f"v{j}", spin_values(mtype))
        m.fix_variable(x[i], v)
        gone.append(f"x[{i}]")
        poly, o = subst(poly, o, f"x[{i}]", v)
        if j == 0 and sx.choice("edit", [False, True]):
            r = x[order[1]]
            c = sx.real("late")
            m.add_interaction(r, name="late", coefficient=c, scale=-2)
            add(poly, r.label, -2 * c)
    verify(sx, m, poly, o, gone, "sequence")


@clocked
def wide(sx):
    """a larger neighbourhood, two-digit indices and a second array; converted before fixing"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(12,))
    y = m.variables("y", shape=(2, 2))
    poly = {}
    nb = [x[1], x[10], x[11], y[0, 1], y[1, 0]]
    i = 0
    for t in nb:
        for u in (x[2], y[0, 0]):
            c = sx.real(f"c{i}", positive=True)
            m.add_interaction((t, u) if i % 2 else (u, t), coefficient=c, scale=1 + (i % 2))
            add(poly, pairkey(t.label, u.label), c * (1 + (i % 2)))
            i += 1
        c = sx.real(f"c{i}", positive=True)
        m.add_interaction(t, coefficient=c)
        add(poly, t.label, c)
        i += 1
    c = sx.real("cx", positive=True)
    m.add_interaction(x[2], coefficient=c, scale=4)
    add(poly, "x[2]", 4 * c)
    m.remove_interaction(target=x[10])
    poly.pop("x[10]")
    if sx.choice("convert first", [False, True]):
        m.to_physical()
    off = sx.real("off")
    m.offset(off)
    v = sx.choice("v", spin_values(mtype))
    m.fix_variable(x[2], v)
    poly, o = subst(poly, off, "x[2]", v)
    verify(sx, m, poly, o, ["x[2]"], "wide")


@clocked
def lookalikes(sx):
    """labels and names that contain one another; each variable fixed in turn"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(12,))
    ax = m.variables("ax", shape=(2,))
    x2 = m.variables("x[1]", shape=(2,))
    xx = m.variables("x x", shape=(2, 2))
    X = m.variables("X", shape=(2,))
    vs = [x[1], x[10], x[11], ax[1], ax[0], x2[1], xx[1, 1], X[1]]
    who = sx.choice("who", range(len(vs)))
    gone = vs[who].label
    v = sx.choice("v", spin_values(mtype))
    poly = {}
    for i, u in enumerate(vs):
        c = sx.real(f"l{i}", positive=True)
        m.add_interaction(u, coefficient=c, name=f"own {gone}" if i == who else gone if i == (who + 1) % len(vs) else "" if i % 2 else f"n {gone} {i}")
        add(poly, u.label, c)
        for j in ((i + 1) % len(vs), (i + 3) % len(vs)):
            c = sx.real(f"q{i}.{j}", positive=True)
            m.add_interaction((u, vs[j]), coefficient=c, name="" if (i + j) % 3 else f"{gone}*{i}.{j}", scale=1 + (i + j) % 2)
            add(poly, pairkey(u.label, vs[j].label), c * (1 + (i + j) % 2))
    off = sx.real("off")
    m.offset(off)
    m.fix_variable(vs[who], v)
    poly, o = subst(poly, off, gone, v)
    verify(sx, m, poly, o, [gone], "lookalike")


@clocked
def bad_target(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=sx.real("c"))
    bad = sx.choice("bad", [(None, 1, ValueError), ("x[0]", 1, TypeError), ((x[0], x[1]), 1, TypeError), (x[0], "1", ValueError), (x[0], None, ValueError),
                            (x[0], 0.5, ValueError), (x[0], 2, ValueError)])
    before = snapshot(m)
    e, _ = attempt(m.fix_variable, bad[0], bad[1])
    sx.check("bad-call-rejected", isinstance(e, bad[2]), repr(e))
    sx.check("bad-call-unchanged", same(sx, before, snapshot(m)))


@clocked
def big(sx):
    """a dense model of 14 variables, eight of them fixed one after the other"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(14,))
    poly = {}
    k = 0
    for i in range(14):
        for j in range(i, 14):
            if (i * 3 + j) % 2 and i != j:
                continue
            c = sx.real(f"c{k}", lo=1000, hi=10**6) if i == j else sx.real(f"c{k}", lo=0.001, hi=1)  # no sum can cancel
            t = x[i] if i == j else (x[j], x[i])
            m.add_interaction(t, coefficient=c, scale=1 + k % 2)
            add(poly, x[i].label if i == j else pairkey(x[i].label, x[j].label), c * (1 + k % 2))
            k += 1
    o = sx.real("off")
    m.offset(o)
    gone = []
    low = spin_values(mtype)[1]
    flip = sx.choice("first", [0, 1])
    for n, i in enumerate((3, 12, 0, 7, 13, 1, 10, 5)):
        v = (1, low)[(n + flip) % 2]
        m.fix_variable(x[i], v)
        poly, o = subst(poly, o, f"x[{i}]", v)
        gone.append(f"x[{i}]")
        if n == 4:
            m.to_physical()
    verify(sx, m, poly, o, gone, "big")
    sx.check("all-listed", sorted(m.get_fixed_array()) == sorted(gone))


@clocked
def again(sx):
    """the same interactions come back (after a conversion has forgotten the removed ones) and are fixed again, as a stream does"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    poly, o = {}, sx.real("off")
    m.offset(o)
    for r in range(3):
        c, d, h = (sx.real(f"{k}{r}", positive=True) for k in "cdh")
        v = sx.choice(f"v{r}", spin_values(mtype))
        m.add_interaction((x[1], x[0]), coefficient=c, scale=2.0)
        m.add_interaction((x[0], x[2]), name="p", coefficient=d)
        m.add_interaction(x[0], coefficient=h)
        add(poly, ("x[0]", "x[1]"), 2 * c)
        add(poly, ("x[0]", "x[2]"), d)
        add(poly, "x[0]", h)
        m.fix_variable(x[0], v)
        poly, o = subst(poly, o, "x[0]", v)
        verify(sx, m, poly, o, ["x[0]"], "again")


@clocked
def falsy(sx):
    """zero coefficients and scales, integer and float, among the interactions of the fixed variable"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    zero = sx.choice("zero", [0, 0.0])
    which = sx.choice("which", ["coefficient", "scale", "timestamp"])
    at = sx.choice("at", [(0,), (1,), (2,), (3,), (0, 1), (0, 1, 2, 3)])
    poly = {}
    for i, (t, k) in enumerate([(x[0], "x[0]"), ((x[1], x[0]), ("x[0]", "x[1]")), ((x[0], x[2]), ("x[0]", "x[2]")), (x[0], "x[0]"), (x[1], "x[1]")]):
        kw = {"coefficient": sx.real(f"c{i}", positive=True), "scale": 2, "timestamp": i + 1}
        if i in at:
            kw[which] = zero
        m.add_interaction(t, name=f"n{i}" if i in (2, 3) else "", **kw)
        add(poly, k, kw["coefficient"] * kw["scale"])
    off = sx.real("off") if sx.choice("offset", [0, 1]) else zero
    m.offset(off)
    v = sx.choice("value", spin_values(mtype))
    if sx.choice("convert", [0, 1]):
        m.to_physical()
    m.fix_variable(x[0], v)
    poly, off = subst(poly, off, "x[0]", v)
    verify(sx, m, poly, off, ["x[0]"], "falsy")


@clocked
def integers(sx):
    """integer coefficients, scales and offsets"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    poly = {}
    s = sx.int("s")
    for i, (t, k) in enumerate([(x[0], "x[0]"), ((x[1], x[0]), ("x[0]", "x[1]")), ((x[2], x[1]), ("x[1]", "x[2]")), (x[2], "x[2]")]):
        c = sx.int(f"c{i}")
        m.add_interaction(t, coefficient=c, scale=s if i < 2 else 3)
        add(poly, k, c * (s if i < 2 else 3))
    off = sx.int("off")
    m.offset(off)
    v = sx.choice("v", spin_values(mtype))
    who = sx.choice("who", [0, 1])
    m.fix_variable(x[who], v)
    poly, o = subst(poly, off, f"x[{who}]", v)
    verify(sx, m, poly, o, [f"x[{who}]"], "integers")


UNITS = [
    Unit("one", one, "6 interactions over 3 variables, every subset of 3 of them removed, any integer value; all non-zero real coefficients (2 scales symbolic), any offset; both types",
         ["substituted", "offset", "rejects-only-invalid", "rejected-unchanged", "variable-gone"]),
    Unit("sequence", sequence, "2 or 3 variables fixed in 4 orders with an edit in between; all non-zero reals", ["sequence"]),
    Unit("wide", wide, "16 interactions over 7 variables of two arrays with two-digit indices; all positive reals", ["wide"]),
    Unit("lookalikes", lookalikes, "8 variables of 5 arrays whose names and labels contain one another, each fixed; 24 interactions with default and misleading names; all positive reals", ["lookalike"]),
    Unit("bad_target", bad_target, "invalid targets and values", ["bad-call-rejected", "bad-call-unchanged"]),
    Unit("big", big, "60 interactions over 14 variables, 8 fixed in turn with a conversion in between; all reals in ranges where sums cannot cancel", ["big", "all-listed"]),
    Unit("again", again, "3 interactions added, fixed and converted three times over; all positive reals", ["again"]),
    Unit("falsy", falsy, "5 interactions, one, two or four of them with zero coefficient, scale or timestamp (integer or float), with and without an offset and a conversion; all other values positive reals", ["falsy", "offset"]),
    Unit("integers", integers, "4 interactions, every integer coefficient, scale and offset", ["integers", "offset"]),
]
