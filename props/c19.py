"""C19: each window's incoming and outgoing elements are exactly its differences."""
from apache_beam.utils.timestamp import Timestamp

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, clocked, same
from vp.streams import OPTIONS, SOLVER, Row, processing, seconds, ts

ASSUMPTIONS = ["Beam's grouping and state cells are replaced by stand-ins: windows are half-open intervals of event time with non-decreasing starts and increasing ends, delivered in the order of their ends, as Beam's sliding and fixed windows are; the steps behind the windowing are the real pipeline's",
               "an element is identified by its index, as the pipeline numbers them"]


def tiny_model():
    m = LogicalModel(mtype="ising")
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=1.0, attributes={"ts": 1.0})
    m.add_interaction(x[1], coefficient=1.0, attributes={"ts": 1.0})
    return m


def idx(e):
    return e[1][0]


def run(sx, algorithm, n, k, share=(True,), rev=(1, -1), plan=None):
    """n events with any times, k windows with any boundaries"""
    times = [sx.real(f"t{i}") for i in range(n)] if plan is None else [float(t) for t in plan[0]]
    data = [sx.real(f"d{i}") for i in range(n)]
    ev = [(times[i], (i, data[i])) for i in range(n)]
    lo = [sx.real(f"lo{j}") for j in range(k)] if plan is None else [float(a) for a, _ in plan[1]]
    hi = [ts(sx, f"hi{j}") for j in range(k)] if plan is None else [Timestamp(b) for _, b in plan[1]]
    disjoint = algorithm in ("delta", "incremental")
    for j in range(k if plan is None else 0):
        sx.assume(lo[j] < seconds(hi[j]))
        if j:
            sx.assume(seconds(hi[j - 1]) < seconds(hi[j]))
            sx.assume(lo[j - 1] <= lo[j])
            if disjoint:
                sx.assume(seconds(hi[j - 1]) <= lo[j])
    calls = []
    win = {"j": 0}

    def keep(j, i):
        return sx.flag(f"keep{j}_{i}") if plan is None else (i * 7 + j) % 3 > 0

    def map_fn(model, sampleset, elements, incoming, outgoing):
        calls.append(("map", elements, incoming, outgoing))
        return tiny_model() if algorithm == "attenuation" else model

    def solve_fn(solver, model, sampleset, elements, incoming, outgoing):
        calls.append(("solve", elements, incoming, outgoing))
        sx.check("solver", solver is SOLVER)
        return "sampleset"

    def unmap_fn(sampleset, elements, incoming, outgoing):
        calls.append(("unmap", elements, incoming, outgoing))
        return f"out{win['j']}"

    chain = processing(sx, algorithm, OPTIONS[algorithm], {"map_fn": map_fn, "solve_fn": solve_fn, "unmap_fn": unmap_fn, "filter_fn": lambda p: keep(win["j"], idx(p))},
                       share=sx.choice("state shared", share))
    order = sx.choice("arrival", rev)
    prev = []  # indices of the previous window's elements
    first = True
    for j in range(k):
        win["j"] = j
        members = [i for i in range(n) if lo[j] <= times[i] < float(hi[j])] if plan is not None else [i for i in range(n) if sx.And(lo[j] <= times[i], times[i] < seconds(hi[j]))]
        if not members:
            continue  # Beam emits nothing for an empty window
        calls.clear()
        out = chain.feed(Row([ev[i] for i in members[::order]], hi[j]))
        sx.check("one-output", [r.value for r in out] == [f"out{j}"], f"{[r.value for r in out]}")
        sx.check("callbacks", [c[0] for c in calls] == ["map", "solve", "unmap"])
        want = set(members)
        if algorithm == "incremental":
            want |= set(prev)
        elif algorithm == "partial":
            want |= {i for i in prev if i not in want and bool(keep(j, i))}
        new = want - set(prev)
        gone = set(prev) - want
        for what, elements, incoming, outgoing in calls:
            for label, got, exp in (("elements", elements, want), ("incoming", incoming, new), ("outgoing", outgoing, gone)):
                ids = [idx(e) for e in got]
                sx.check(label, len(ids) == len(set(ids)) and set(ids) == exp, f"window {j} {what}: {label} {ids}, want {sorted(exp)}, previous {prev}")
                sx.check_all([("order", sx.Or(a[0] < b[0], sx.And(sx.eq(a[0], b[0]), idx(a) < idx(b)))) for a, b in zip(got, got[1:])])
                sx.check_all([("content", same(sx, e, ev[idx(e)])) for e in got])
        prev = [idx(e) for e in calls[0][1]]
        if first:
            first = False
            sx.reach("first window")
        else:
            sx.reach("later window")


@clocked
def window(sx):
    run(sx, sx.choice("algorithm", ["window", "attenuation"]), 3, 2)


@clocked
def window3(sx):
    run(sx, "window", 3, 3, rev=(1,))


@clocked
def delta(sx):
    run(sx, "delta", 3, 3, rev=(1, -1))


@clocked
def incremental(sx):
    run(sx, "incremental", 3, 3, rev=(1, -1))


@clocked
def partial(sx):
    run(sx, "partial", 3, 2)


@clocked
def partial3(sx):
    run(sx, "partial", 3, 3, rev=(1,))


@clocked
def copied(sx):
    """state cells that copy what they hold, as between Beam bundles"""
    run(sx, sx.choice("algorithm", ["window", "incremental", "partial", "delta"]), 2, 3, share=(False,))


@clocked
def big(sx):
    """windows of hundreds of elements, several of the same time"""
    algorithm = sx.choice("algorithm", ["window", "delta", "incremental", "partial", "attenuation"])
    times = [i // 2 for i in range(300)] if sx.choice("times", ["order", "shuffled"]) == "order" else [(i * 37) % 150 for i in range(300)]
    step = 60 if algorithm in ("window", "partial", "attenuation") else 120
    wins = [(a, a + 120) for a in range(-60 if step == 60 else 0, 150, step)]
    run(sx, algorithm, len(times), len(wins), plan=(times, wins), share=(True, False))


@clocked
def source(sx):
    """from the pipeline's input on: numbering, event times, windowing and grouping are the real pipeline's steps too"""
    from props import c22

    algorithm = sx.choice("algorithm", ["delta", "window", "incremental", "partial", "attenuation"])
    c22.run(sx, algorithm, 3, [(0.5, 0.5), (1, 0.5)] if algorithm in ("window", "partial") else [(0.5, 0.5), (1, 1)], lo=0, hi=1, quarter=True, orders=("time",))


L = ["elements", "incoming", "outgoing", "order", "content", "one-output", "callbacks", "reach:later window"]


@clocked
def huge(sx):
    """more than a thousand elements kept, dropped or taken over at once"""
    algorithm = sx.choice("algorithm", ["window", "delta", "incremental", "partial"])
    times = [i // 4 for i in range(1300)]
    wins = [(0, 290), (145, 300), (155, 325)] if algorithm in ("window", "partial") else [(0, 290), (290, 310), (310, 325)]
    run(sx, algorithm, len(times), len(wins), plan=(times, wins), rev=(1,))


@clocked
def fine(sx):
    """event times microseconds apart, whole pipelines"""
    from props import c22

    algorithm = sx.choice("algorithm", ["delta", "window", "incremental", "partial"])
    c22.run(sx, algorithm, 0, [(2, 1)] if algorithm in ("window", "partial") else [(2, 2), (1, 1)], schedules=["fine"], orders=("time",))


UNITS = [
    Unit("window", window, "3 events at any times, 2 windows with any boundaries, both arrival orders", L),
    Unit("window3", window3, "3 events at any times, 3 windows with any boundaries", L),
    Unit("delta", delta, "3 events, 3 disjoint windows", L),
    Unit("incremental", incremental, "3 events, 3 disjoint windows", L),
    Unit("partial", partial, "3 events, 2 windows, any filter", L),
    Unit("partial3", partial3, "3 events, 3 windows, any filter (may change between windows)", L),
    Unit("source", source, "whole pipelines of all five algorithms: 3 inputs at any quarter of a second in 0..1, window sizes 0.5 and 1", ["elements", "order", "event-time", "windows", "output"]),
    Unit("big", big, "300 events in windows of up to 240, all five algorithms, both arrival orders, state shared or copied; all data", L),
    Unit("copied", copied, "2 events, 3 windows, state copied", L),
    Unit("huge", huge, "1300 events, windows of up to 1160 and 20 elements, four algorithms; all data", L),
    Unit("fine", fine, "whole pipelines, 10 inputs some microseconds apart; all data", ["elements", "order", "event-time"]),
]
