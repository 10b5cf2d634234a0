"""C05: Ising/QUBO conversion preserves the energy of every assignment."""
import pyqubo

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, clocked, live_poly, pairkey, patched, poly_diff_checks, raw, same, snapshot

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in (the conversion derives unique names from it)"]


def add(p, k, v):
    p[k] = p[k] + v if k in p else v


def transformed(poly, off, to):
    """energy = off - sum v*mono, rewritten for the other variable type: (poly, offset)"""
    out, o = {}, off
    for k, v in poly.items():
        if to == "ising":  # x = (s+1)/2
            if isinstance(k, tuple):
                add(out, k, v * 0.25)
                add(out, k[0], v * 0.25)
                add(out, k[1], v * 0.25)
                o = o - v * 0.25
            else:
                add(out, k, v * 0.5)
                o = o - v * 0.5
        else:  # s = 2x-1
            if isinstance(k, tuple):
                add(out, k, v * 4)
                add(out, k[0], v * -2)
                add(out, k[1], v * -2)
                o = o - v
            else:
                add(out, k, v * 2)
                o = o + v
    return out, o


def convert(m, to):
    (m.to_ising if to == "ising" else m.to_qubo)()


def step(sx, m, to):
    """one conversion, checked against the reading of the model before it"""
    if m.get_mtype() == to:
        before = snapshot(m)
        convert(m, to)
        sx.check("same-type-unchanged", same(sx, before, snapshot(m)))
        return
    before = snapshot(m)
    poly, off = live_poly(m), m.get_offset()
    want, woff = transformed(poly, off, to)
    convert(m, to)
    after = snapshot(m)
    sx.check("type", m.get_mtype() == to)
    sx.check("shapes", after["vars"] == before["vars"])
    cls = pyqubo.Spin if to == "ising" else pyqubo.Binary
    for k, arr in m.get_variables().items():
        for v in flat(arr.bit_list):
            sx.check("variable-type", isinstance(v, cls))
    sx.check_all(poly_diff_checks(sx, "energy", live_poly(m), want))
    sx.known("F1", "constant", sx.eq(m.get_offset(), woff), sx.eq(m.get_offset(), 2 * off - woff))
    orows = {r["name"]: r for r in before["rows"]}
    nrows = {r["name"]: r for r in after["rows"]}
    for n, r in orows.items():
        if n in nrows:
            sx.check("removed-kept", bool(nrows[n]["removed"]) == bool(r["removed"]) and nrows[n]["key"] == r["key"])
            for c in r:
                if c.startswith("attributes."):
                    sx.check("attributes-kept", same(sx, nrows[n][c], r[c]))
        else:
            sx.check("nothing-lost", bool(r["removed"]))


def flat(xs):
    for x in xs:
        if isinstance(x, list):
            yield from flat(x)
        else:
            yield x


def final(sx, m):
    """the stored model converts to a physical model of the same energy"""
    want = live_poly(m)
    p = m.to_physical()
    lin, quad, off = raw(p)
    sx.check("physical-type", p.get_mtype() == m.get_mtype())
    sx.check_all(poly_diff_checks(sx, "physical-energy", {**lin, **quad}, want) + [("physical-offset", sx.eq(off, m.get_offset()))])
    sx.observe("e", sorted([str(k), v] for k, v in {**lin, **quad}.items()))
    sx.observe("off", off)


@clocked
def single(sx):
    start = sx.choice("start", ["ising", "qubo"])
    to = sx.choice("to", ["ising", "qubo"])
    m = LogicalModel(mtype=start)
    x = m.variables("x", shape=(3,))
    spec = [(x[0], "l0"), ((x[1], x[0]), "q0"), (x[0], "l0b"), ((x[1], x[2]), "q1"), ((x[0], x[1]), "q0b")]
    for i, (t, n) in enumerate(spec):
        c = sx.real(f"c{i}", nonzero=True)
        s = sx.real(f"s{i}", nonzero=True) if i < 2 else (1.0, 3, -0.5)[i % 3]
        m.add_interaction(t, name=n, coefficient=c, scale=s, attributes={"a": i})
        if i in (0, 3) and sx.choice(f"rm{i}", [False, True]):
            m.remove_interaction(name=n)
    m.offset(sx.real("off"))
    step(sx, m, to)
    final(sx, m)


@clocked
def chain(sx):
    """several conversions in a row, with edits between them"""
    start = sx.choice("start", ["ising", "qubo"])
    other = "qubo" if start == "ising" else "ising"
    m = LogicalModel(mtype=start)
    x = m.variables("x", shape=(2,))
    y = m.variables("y", shape=(2, 11))
    m.add_interaction((y[1, 2], y[1, 10]), coefficient=sx.real("c0", positive=True), scale=2)
    m.add_interaction((x[1], y[1, 10]), coefficient=sx.real("c1", positive=True))
    m.add_interaction(x[0], coefficient=sx.real("c2", positive=True), scale=0.5)
    m.offset(sx.real("off"))
    poly0, off0 = live_poly(m), m.get_offset()
    step(sx, m, other)
    mid = sx.choice("mid", ["none", "physical", "again", "edit"])
    if mid == "physical":
        m.to_physical()
    elif mid == "again":
        step(sx, m, other)
    elif mid == "edit":
        nx = m.get_variables_by_name("x")
        m.add_interaction((nx[0], nx[1]), coefficient=sx.real("c3", positive=True), scale=-2)
        m.remove_interaction(name="x[0]")
    step(sx, m, start)
    if mid != "edit":
        sx.check_all(poly_diff_checks(sx, "round-trip", live_poly(m), poly0))
    final(sx, m)


@clocked
def big(sx):
    """some dozens of interactions, removals, back and forth"""
    start = sx.choice("start", ["ising", "qubo"])
    other = "qubo" if start == "ising" else "ising"
    m = LogicalModel(mtype=start)
    x = m.variables("x", shape=(12,))
    y = m.variables("y", shape=(2, 3, 2))
    vs = [x[i] for i in range(12)] + [y[i, j, k] for i in range(2) for j in range(3) for k in range(2)]
    n = len(vs)
    for i in range(n):
        m.add_interaction(vs[i], coefficient=sx.real(f"l{i}", positive=True), scale=(1.0, -2.0, 0.5)[i % 3])
        m.add_interaction((vs[i], vs[(i + 5) % n]), coefficient=sx.real(f"q{i}", positive=True), scale=(1.0, 4)[i % 2], attributes={"a": i} if i % 4 == 0 else None)
    for i in range(2, n, 7):
        m.remove_interaction(target=vs[i])
        m.remove_interaction(target=(vs[i], vs[(i + 5) % n]))
    m.offset(sx.real("off"))
    poly0 = live_poly(m)
    step(sx, m, other)
    step(sx, m, start)
    sx.check_all(poly_diff_checks(sx, "round-trip", live_poly(m), poly0))
    final(sx, m)


@clocked
def falsy(sx):
    """zero timestamps, scales, coefficients and offsets, integer and float"""
    start = sx.choice("start", ["ising", "qubo"])
    to = "qubo" if start == "ising" else "ising"
    m = LogicalModel(mtype=start)
    x = m.variables("x", shape=(4,))
    shapes = {"x": (4,), "s": (2, 1, 3, 2), "t": (1,), "u": (3, 2, 4), "v": (1, 1, 1, 1, 2)}
    for k, v in shapes.items():
        if k != "x":
            m.variables(k, shape=v)
    zero = sx.choice("zero", [0, 0.0])
    which = sx.choice("which", ["timestamp", "scale", "coefficient", "offset", "attribute", "all timestamps"])
    at = sx.choice("at", [0, 1, 2, 3])
    for i, t in enumerate([x[0], (x[1], x[0]), x[2], (x[3], x[2])]):
        kw = {"coefficient": sx.real(f"c{i}", nonzero=True), "scale": sx.real(f"s{i}", nonzero=True) if i < 2 else 2, "timestamp": i + 1, "attributes": {"a": i + 1}}
        if i == at:
            if which in ("timestamp", "scale", "coefficient"):
                kw[which] = zero
            elif which == "attribute":
                kw["attributes"] = {"a": zero, "": zero}
        if which == "all timestamps":
            kw["timestamp"] = zero
        m.add_interaction(t, name="" if i % 2 else f"n{i}", **kw)
    m.offset(zero if which == "offset" else sx.real("off"))
    step(sx, m, to)
    sx.check("shapes", {k: tuple(v.shape) for k, v in m.get_variables().items()} == shapes)
    sx.check("last-element", m.get_variables_by_name("s")[1, 0, 2, 1].label == "s[1][0][2][1]" and m.get_variables_by_name("u")[2, 1, 3].label == "u[2][1][3]")
    final(sx, m)
    sx.check("falsy", True)


@clocked
def integers(sx):
    """integer coefficients, scales and offsets"""
    start = sx.choice("start", ["ising", "qubo"])
    to = "qubo" if start == "ising" else "ising"
    m = LogicalModel(mtype=start)
    x = m.variables("x", shape=(3,))
    s = sx.int("s", lo=1) if sx.choice("scale", ["one", "integer"]) == "integer" else 1
    for i, t in enumerate([x[0], (x[1], x[0]), (x[2], x[1])]):
        m.add_interaction(t, coefficient=sx.int(f"c{i}"), scale=s if i < 2 else 1)
    m.offset(sx.int("off"))
    step(sx, m, to)
    final(sx, m)
    if sx.choice("back", [False, True]):
        step(sx, m, start)
        final(sx, m)


def frozen(sx):
    """one conversion while the clock stands still; interactions whose names are alike"""
    import time

    start = sx.choice("start", ["ising", "qubo"])
    to = "qubo" if start == "ising" else "ising"
    names = sx.choice("names", [("p from a", "p from b"), ("p", "p from p"), ("a (mtype additional 7.0)", "a"), ("x[0]", "x[0] from x[0]"), ("x[0]*x[1]", "x[1]"), ("", "x[0]"), ("n", "n ")])
    with patched(time, time=lambda: 7.0):
        m = LogicalModel(mtype=start)
        x = m.variables("x", shape=(3,))
        m.add_interaction((x[0], x[1]), name=names[0], coefficient=sx.real("c0", nonzero=True), timestamp=1)
        m.add_interaction((x[1], x[0]), name=names[1], coefficient=sx.real("c1", nonzero=True), timestamp=2)
        m.add_interaction((x[1], x[2]), coefficient=sx.real("c2", nonzero=True), timestamp=3)
        m.add_interaction(x[2], coefficient=sx.real("c3", nonzero=True), timestamp=4)
        m.offset(sx.real("off"))
        step(sx, m, to)
        final(sx, m)
    sx.check("frozen", True)


UNITS = [
    Unit("single", single, "5 interactions over 3 variables (repeated targets, both pair orders), removed subsets, 2 symbolic scales; all non-zero reals, any offset; every assignment via coefficient-wise equality",
         ["energy", "constant", "same-type-unchanged", "physical-energy", "removed-kept"]),
    Unit("chain", chain, "round trips with conversions/edits in between over two arrays with two-digit indices; all positive reals", ["round-trip", "energy"]),
    Unit("big", big, "48 interactions over 24 variables of two arrays (1 and 3 dimensions), some removed, round trip; all positive reals", ["round-trip", "energy"]),
    Unit("falsy", falsy, "4 interactions with one zero timestamp, scale, coefficient, attribute or offset (or all timestamps zero), integer or float; all other values non-zero reals", ["falsy", "energy", "shapes"]),
    Unit("integers", integers, "3 interactions, every integer coefficient, scale and offset, one or two conversions", ["energy", "physical-energy", "constant"]),
    Unit("frozen", frozen, "4 interactions, 7 pairs of similar names, one conversion while the clock stands still; all non-zero reals", ["frozen", "energy"]),
]
