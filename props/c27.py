"""C27: an incrementally maintained model equals one rebuilt from the window."""
from apache_beam.utils.timestamp import Timestamp

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, NHotConstraint, clocked, phys_poly, poly_diff_checks
from vp.streams import OPTIONS, Row, processing, seconds, ts

ASSUMPTIONS = ["Beam's grouping and state cells are replaced by stand-ins (windows as in C19); the steps behind the windowing are the real pipeline's",
               "element values are positive, so that no coefficient of the example is zero"]


def idx(e):
    return e[1][0]


def coeff(a, b, style):
    return -1.0 * a[1][1] * b[1][1]


def run(sx, algorithm, n, k, how, mtypes=("ising",), share=(True,), constraint=False, pairs=True, order=(1,), plan=None, least=None):
    mtype = sx.choice("mtype", mtypes)
    times = [sx.real(f"t{i}") for i in range(n)] if plan is None else [float(t) for t in plan[0]]
    data = [sx.real(f"d{i}", lo=least, hi=10**6) if least else sx.real(f"d{i}", positive=True) if pairs else sx.real(f"d{i}", nonzero=True) for i in range(n)]
    ev = [(times[i], (i, data[i])) for i in range(n)]
    lo = [sx.real(f"lo{j}") for j in range(k)] if plan is None else [float(a) for a, _ in plan[1]]
    hi = [ts(sx, f"hi{j}") for j in range(k)] if plan is None else [Timestamp(b) for _, b in plan[1]]
    for j in range(k if plan is None else 0):
        sx.assume(lo[j] < seconds(hi[j]))
        if j:
            sx.assume(seconds(hi[j - 1]) < seconds(hi[j]))
            sx.assume(lo[j - 1] <= lo[j])
            if algorithm in ("delta", "incremental"):
                sx.assume(seconds(hi[j - 1]) <= lo[j])
    how = sx.choice("how", how)

    def terms(model, x, new, elements):
        for i in new:
            model.add_interaction(x[idx(i)], coefficient=i[1][1], name=f"e{idx(i)}")
            if not pairs:
                continue
            for j in elements:
                if idx(i) == idx(j) or (idx(j) in [idx(q) for q in new] and idx(j) > idx(i)):
                    continue
                a, b = sorted((idx(i), idx(j)))
                model.add_interaction((x[idx(i)], x[idx(j)]), coefficient=coeff(i, j, how), name=f"p{a}_{b}")

    def map_fn(model, sampleset, elements, incoming, outgoing):
        size = model.get_all_size()
        top = max([idx(e) for e in elements]) + 1
        if size == 0:
            x = model.variables("x", shape=(top,))
        elif top > size:
            x = model.append("x", shape=(top - size,))
        else:
            x = model.get_variables_by_name("x")
        terms(model, x, incoming, elements)
        if constraint:
            c = model.get_constraints().get("one")
            if c is None:
                c = NHotConstraint([x[idx(e)] for e in incoming], n=1, label="one")
                model.add_constraint(c)
            elif incoming:
                c.add_variable([x[idx(e)] for e in incoming])
        for o in outgoing:
            if how == "delete":
                model.delete_variable(x[idx(o)])
            else:
                names = [nm for nm in model._interactions_array["name"] if nm == f"e{idx(o)}" or (nm.startswith("p") and str(idx(o)) in nm[1:].split("_"))]
                for nm in names:
                    model.remove_interaction(name=nm)
        return model

    def rebuilt(members):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(n,))
        els = [ev[i] for i in sorted(members)]
        terms(m, x, els, els)
        if constraint:
            m.add_constraint(NHotConstraint([x[i] for i in members], n=1, label="one"))
        return m.to_physical()

    got = {}

    def solve_fn(solver, model, sampleset, elements, incoming, outgoing):
        got["p"] = model.to_physical()
        return "s"

    chain = processing(sx, algorithm, OPTIONS[algorithm], {"map_fn": map_fn, "solve_fn": solve_fn, "unmap_fn": lambda *a: "done"}, mtype=mtype, share=sx.choice("state shared", share))
    first = True
    for j in range(k):
        members = [i for i in range(n) if lo[j] <= times[i] < float(hi[j])] if plan is not None else [i for i in range(n) if sx.And(lo[j] <= times[i], times[i] < seconds(hi[j]))]
        if not members:
            continue
        got.clear()
        out = [r.value for r in chain.feed(Row([ev[i] for i in members[:: sx.choice("arrival", order)]], hi[j]))]
        sx.check("processed", out == ["done"], f"{out}")
        p, w = got["p"], rebuilt(members)
        sx.check("type", p.get_mtype() == mtype)
        sx.check_all(poly_diff_checks(sx, "model", phys_poly(p), phys_poly(w)) + [("offset", sx.eq(p.get_offset(), w.get_offset()))])
        sx.check("variables", set(p._label_to_index) == set(w._label_to_index), f"{sorted(p._label_to_index)} {sorted(w._label_to_index)}")
        sx.reach("first" if first else "later")
        first = False


@clocked
def window(sx):
    run(sx, "window", 3, 2, ["delete", "remove"], mtypes=("ising", "qubo"), order=(1, -1))


@clocked
def linear(sx):
    run(sx, "window", 3, 3, ["delete"], pairs=False)


@clocked
def delta(sx):
    run(sx, "delta", 3, 3, ["delete", "remove"])


@clocked
def copied(sx):
    run(sx, sx.choice("algorithm", ["window", "delta"]), 2, 3, ["delete", "remove"], share=(False,), mtypes=("qubo",))


@clocked
def constrained(sx):
    run(sx, sx.choice("algorithm", ["window", "delta"]), 2, 3, ["delete"], constraint=True, mtypes=("ising", "qubo"))


@clocked
def long(sx):
    """long streams: a window slides over, jumps past and returns to its elements"""
    algorithm = sx.choice("algorithm", ["window", "delta"])
    times = sx.choice("times", [list(range(24)), [(i * 5) % 24 for i in range(24)], [0, 0, 1, 1, 1, 20, 21, 22, 22, 60, 61, 62, 63, 63]])
    step = 3 if algorithm == "window" else 6
    wins = [(a, a + 6) for a in range(-3 if algorithm == "window" else 0, max(times) + 1, step)]
    run(sx, algorithm, len(times), len(wins), ["delete", "remove"], mtypes=("ising", "qubo"), plan=(times, wins), order=(1, -1))


@clocked
def long_constraint(sx):
    times = [0, 1, 2, 3, 3, 4, 5, 6, 8, 9]
    run(sx, "window", len(times), 5, ["delete"], constraint=True, pairs=False, least=1000, mtypes=("ising", "qubo"), plan=(times, [(a, a + 4) for a in range(0, 10, 2)]))


@clocked
def window3(sx):
    run(sx, "window", 3, 3, ["delete", "remove"])


L = ["processed", "model", "offset", "variables", "reach:first", "reach:later"]


@clocked
def wide(sx):
    """windows of 12 elements, each coupled to all others"""
    times = sx.choice("times", [list(range(18)), [0] * 11 + [1] * 2 + [7, 9, 9, 13]])
    run(sx, "window", len(times), 4, ["delete", "remove"], plan=(times, [(a, a + 12) for a in range(-6, 13, 6)]))


UNITS = [
    Unit("window", window, "3 events at any times with any values, 2 overlapping windows with any boundaries, pairwise and linear terms", L),
    Unit("linear", linear, "3 events, 3 overlapping windows, linear terms", L),
    Unit("delta", delta, "3 events, 3 disjoint windows, pairwise terms", L),
    Unit("copied", copied, "2 events, 3 windows, state copied", L),
    Unit("constrained", constrained, "2 events, 3 windows, a constraint over the window's variables", L),
    Unit("long", long, "three schedules of 14-24 events in up to 23 windows, removal by variable or by name; all positive values", L),
    Unit("long-constraint", long_constraint, "10 events in 5 windows with a constraint, linear terms; all values in [10^3, 10^6]", L),
    Unit("window3", window3, "3 events, 3 overlapping windows, pairwise terms", L, tier="thorough"),
    Unit("wide", wide, "17-18 events in 4 windows of up to 13, all pairs coupled; all positive values", L),
]
