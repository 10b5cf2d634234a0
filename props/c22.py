"""C22: pipelines assemble the documented stages."""
from apache_beam.utils.timestamp import Timestamp

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, attempt, clocked, same
from sawatabi.solver import LocalSolver
from vp.streams import SOLVER, Ts, algorithm_class, run_pipeline, seconds, ts, tsq

ASSUMPTIONS = ["Beam is replaced by a small runner that executes the real pipeline's own steps (ParDo, Map, windowing, grouping) over symbolic elements; windows are delivered in arrival order (as Beam's batch runner does), in order of time, or reversed; replay and validation run Beam's DirectRunner",
               "event times are whole seconds within the bounds; window sizes and periods are from a list"]


def idx(e):
    return e[1][0]


def tiny_model(mtype):
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=1.0, attributes={"ts": 1.0})
    m.add_interaction(x[1], coefficient=1.0, attributes={"ts": 2.0})
    return m


def ref_windows(sx, algorithm, size, period, t, lo, hi):
    """(start, end) of the windows an event at t belongs to, by definition"""
    if algorithm in ("delta", "incremental"):
        period = size
    out = []
    s = lo - size
    step = 1 if float(size).is_integer() and float(period).is_integer() else 0.25
    while s <= hi:
        if s % period == 0 and sx.And(s <= t, t < s + size):
            out.append((s, s + size))
        s += step
    return out


def run(sx, algorithm, n, sizes, lo=0, hi=5, out_opts=({},), reassign=(False,), orders=("insertion",), mtypes=(None,), solvers=("given",), quarter=False, schedules=None, payload=None, pads=(("", ""),)):
    size, period = sx.choice("size/period", sizes)
    mtype = sx.choice("mtype", mtypes)
    which = sx.choice("solver", solvers)
    options = {"incremental.size": size} if algorithm == "incremental" else {"window.size": size} if algorithm == "delta" else {"window.size": size, "window.period": period}
    if algorithm == "attenuation":
        options.update({"attenuation.key": "attributes.ts", "attenuation.min_scale": 0.25})
    oo = sx.choice("output", out_opts)
    options.update(oo)
    re = sx.choice("reassign", reassign)
    if re:
        options["input.reassign_timestamp"] = True
    T = [] if schedules is not None else [(tsq if quarter else ts)(sx, f"t{i}", lo=lo, hi=hi) for i in range(n)]
    if schedules is not None:
        T = [Timestamp.of(t) for t in SCHEDULES[sx.choice("schedule", schedules)]]
        n, lo, hi = len(T), min(0, int(min(T).seconds())) - 1, int(max(T).seconds()) + 1
    data = [sx.real(f"d{i}") for i in range(n)] if payload is None else [payload[i % len(payload)] for i in range(n)]
    calls = []
    pad = sx.choice("pad", pads)

    def map_fn(model, sampleset, elements, incoming, outgoing):
        calls.append((elements, incoming, outgoing))
        sx.check("initial-type", isinstance(model, LogicalModel) and model.get_mtype() == (mtype or "ising"))
        return tiny_model(mtype or "ising") if algorithm == "attenuation" else model

    def solve_fn(solver, model, sampleset, elements, incoming, outgoing):
        sx.check("solver", solver is SOLVER if which == "given" else solver is None if which == "none" else isinstance(solver, LocalSolver) and not solver._exact)
        if algorithm == "attenuation":
            sx.check("attenuated", [float(v) for v in model._interactions_array["scale"]] == [0.25, 1.0])
        else:
            sx.check("not-attenuated", all(float(v) == 1.0 for v in model._interactions_array["scale"]))
        return ("s", len(calls))

    def unmap_fn(sampleset, elements, incoming, outgoing):
        sx.check("sampleset", sampleset == ("s", len(calls)))
        return f"{pad[0]}w{sorted(idx(e) for e in elements)}+{sorted(idx(e) for e in incoming)}-{sorted(idx(e) for e in outgoing)}{pad[1]}"

    kw = {} if mtype is None else {"initial_mtype": mtype}
    if which != "given":
        kw["solver"] = None if which == "none" else "default"
    outs = run_pipeline(sx, algorithm, options, {"map_fn": map_fn, "solve_fn": solve_fn, "unmap_fn": unmap_fn, "filter_fn": lambda p: idx(p) != 1},
                        list(zip(data, T)), order=sx.choice("delivery", orders), **kw)
    # reference
    when = [float(i) if re else seconds(T[i]) for i in range(n)]
    groups = {}
    for i in range(n):
        for w in ref_windows(sx, algorithm, size, period, when[i], min(lo, 0), max(hi, n)):
            groups.setdefault(w[1], []).append(i)
    ends = [round(float(t) * 4) / 4 for _, t in outs]
    sx.check("windows", sorted(ends) == sorted(groups), f"delivered {ends}, want {sorted(groups)}")
    last, prev = None, []
    c = 0
    for (text, t), end in zip(outs, ends):
        ids = sorted(groups[end])
        if last is not None and end < last[0]:
            body = f"The received event is outdated: Timestamp is {t.to_utc_datetime()}, while an event with timestamp of {last[1].to_utc_datetime()} has been already processed."
        else:
            last = (end, t)
            if algorithm == "incremental":
                ids = sorted(set(ids) | set(prev))
            elif algorithm == "partial":
                ids = sorted(set(ids) | {p for p in prev if p != 1})
            inc = sorted(set(ids) - set(prev))
            out = sorted(set(prev) - set(ids))
            body = f"{pad[0]}w{ids}+{inc}-{out}{pad[1]}"
            prev = ids
            el = calls[c][0]
            for got in calls[c]:
                sx.check_all([("order", sx.Or(a[0] < b[0], sx.And(sx.eq(a[0], b[0]), idx(a) < idx(b)))) for a, b in zip(got, got[1:])])
                sx.check_all([("event-time", sx.eq(e[0], when[idx(e)])) for e in got])
            c += 1
            sx.check("elements", sorted(idx(e) for e in el) == ids, f"{el} want {ids}")
            sx.check_all([("numbered", same(sx, e[1][1], data[idx(e)])) for e in el])
            sx.check_all([("event-time", sx.eq(e[0], when[idx(e)])) for e in el])
        want = body
        if "output.with_timestamp" in oo:
            want = f"[{t.to_utc_datetime()}] {want}"
        want = oo.get("output.prefix", "") + want + oo.get("output.suffix", "")
        if body.startswith("The received"):
            a, b = want.split(body)
            sx.check("output-outdated", text.startswith(a) and text.endswith(b) and "outdated" in text and str(last[1].to_utc_datetime()) in text and (not a or text[len(a):len(a) + 1] != "["), f"{text!r} want {want!r}")
            sx.reach("outdated")
        else:
            sx.check("output", text == want, f"{text!r} want {want!r}")


# long concrete schedules (the payloads stay symbolic)
SCHEDULES = {
    "steady": list(range(40)),
    "late": [(i * 7) % 40 for i in range(40)],
    "bursts": [t for t in (0, 1, 2, 11, 12, 31, 32, 33, 34, 60) for _ in range(3)],
    "few": [3, 0, 1, 1, 5, 4],
    "fine": [Timestamp(s, micros=m) for s, m in ((0, 126), (0, 125), (0, 400), (0, 600), (1, 1), (1, 0), (1, 999999), (2, 500), (2, 499), (3, 123456))],
    "negative": [-20, -19, -3, -3, 0, 4, 4, 15],
}

SIZES = [(4, 2), (2, 1), (3, 3), (2, 3), (3, 2)]


@clocked
def windows(sx):
    run(sx, sx.choice("algorithm", ["window", "attenuation", "partial"]), 2, SIZES, lo=-2, hi=5, orders=("time", "insertion"))


@clocked
def fixed(sx):
    run(sx, sx.choice("algorithm", ["delta", "incremental"]), 3, [(2, 2), (3, 3), (1, 1)], lo=-1, hi=4, orders=("time", "insertion", "reverse"))


@clocked
def sliding(sx):
    run(sx, "window", 3, [(4, 2), (2, 1)], lo=0, hi=4, orders=("time", "insertion"))


@clocked
def fractions(sx):
    """event times and window sizes that are not whole seconds"""
    run(sx, sx.choice("algorithm", ["delta", "window", "incremental", "partial"]), 2, [(0.5, 0.5), (1, 0.5), (1.5, 0.75), (2, 1)], lo=0, hi=1, quarter=True, orders=("time",))


@clocked
def long(sx):
    algorithm = sx.choice("algorithm", ["window", "delta", "incremental", "partial", "attenuation"])
    run(sx, algorithm, 0, [(10, 5), (7, 3)] if algorithm in ("window", "partial", "attenuation") else [(10, 10)], schedules=("steady", "late", "bursts", "negative"), orders=("time", "insertion"))


OUT = [{}]
for a in ({}, {"output.with_timestamp": True}):
    for b in ({}, {"output.prefix": "<< "}):
        for c in ({}, {"output.suffix": " >>\n"}):
            if a or b or c:
                OUT.append({**a, **b, **c})
OUT += [{"output.prefix": " "}, {"output.prefix": "\n", "output.suffix": "\t"}, {"output.prefix": "", "output.suffix": ""}, {"output.prefix": "{0} %s ", "output.suffix": "{element}", "output.with_timestamp": True},
        {"output.prefix": "--", "output.suffix": "--"}]
ALL_OUT = OUT[7]


@clocked
def outputs(sx):
    run(sx, "window", 1, [(2, 2)], lo=0, hi=5, out_opts=OUT, reassign=(False, True))


@clocked
def all_outputs(sx):
    run(sx, sx.choice("algorithm", ["delta", "incremental", "attenuation", "partial"]), 1, [(2, 2)], lo=0, hi=3, out_opts=(ALL_OUT, OUT[1]), reassign=(False, True))


@clocked
def reassigned(sx):
    """event times replaced by the number of the input, whatever they were"""
    run(sx, sx.choice("algorithm", ["window", "delta", "incremental", "attenuation", "partial"]), 3, [(2, 1)], lo=0, hi=9, reassign=(True,), orders=("time", "insertion"))


@clocked
def types(sx):
    run(sx, sx.choice("algorithm", ["window", "delta", "incremental", "attenuation", "partial"]), 1, [(2, 2)], hi=3, mtypes=(None, "ising", "qubo"), solvers=("given", "none", "default"))


@clocked
def rejects(sx):
    algorithm = sx.choice("algorithm", ["window", "delta", "incremental", "attenuation", "partial"])
    options = {"incremental.size": 2, "window.size": 2, "window.period": 1, "attenuation.key": "attributes.ts", "attenuation.min_scale": 0.25, "filter_fn": len}
    bad, exc = sx.choice("type", [("other", ValueError), ("", ValueError), ("ISING", ValueError), (1, TypeError), (None, TypeError), (["ising"], TypeError)])
    e, _ = attempt(algorithm_class(algorithm).create_pipeline, options, initial_mtype=bad)
    sx.check("rejected", isinstance(e, exc), f"{bad!r}: {e!r}")


@clocked
def sliding_deep(sx):
    run(sx, sx.choice("algorithm", ["window", "partial"]), 4, [(4, 2), (3, 2)], lo=0, hi=5, orders=("time", "insertion", "reverse"))


L = ["windows", "elements", "numbered", "event-time", "output", "solver", "sampleset", "initial-type"]


@clocked
def payloads(sx):
    """inputs that are missing, empty, zero, equal or nested"""
    payload = sx.choice("payload", [[None, 1], [0, 1], ["", "a"], [[], [1]], [{}, {"k": 1}], [False, True], [0.0, 2], [None], ["same"], [[1, [2, None]], {"k": {"k": None}}, None, 5, "t"]])
    run(sx, sx.choice("algorithm", ["window", "delta", "incremental", "partial", "attenuation"]), 4, [(2, 1)] if not sx.choice("wide", [0, 1]) else [(4, 2)], reassign=(True, False), schedules=["few"], payload=payload)


@clocked
def fine(sx):
    """event times a few microseconds apart"""
    algorithm = sx.choice("algorithm", ["window", "delta", "incremental", "partial", "attenuation"])
    run(sx, algorithm, 0, [(2, 1), (1, 1)] if algorithm in ("window", "partial", "attenuation") else [(1, 1)], schedules=("fine",), orders=("time", "insertion"))


@clocked
def padded(sx):
    """results that begin or end with blanks, line feeds or what is appended to them"""
    run(sx, "window", 2, [(2, 2)], lo=0, hi=3, out_opts=({}, ALL_OUT, {"output.prefix": "  "}, {"output.suffix": "\n"}), pads=((" ", "\n"), ("\n\n", "  "), ("<< ", " >>\n"), ("\t", ""), ("[1970] ", "\r")))


UNITS = [
    Unit("windows", windows, "2 inputs at any times -2..5, five sizes and periods, delivered by time or arrival", L + ["reach:outdated", "attenuated"]),
    Unit("fixed", fixed, "3 inputs at any times -1..4, three sizes, any delivery order", L + ["reach:outdated"]),
    Unit("sliding", sliding, "3 inputs at any times 0..4, two sizes and periods", L),
    Unit("fractions", fractions, "2 inputs at any quarter of a second in 0..1, window sizes from half a second", L),
    Unit("long", long, "all algorithms over four schedules of 8-40 inputs (steady, shuffled, bursts with gaps, times before 0); all payloads", L),
    Unit("outputs", outputs, "every combination of output options, with and without reassigned times", L),
    Unit("all-outputs", all_outputs, "the other algorithms with output options", L),
    Unit("reassigned", reassigned, "3 inputs at any times, numbered times, all algorithms", L),
    Unit("types", types, "all algorithms and model types; solver given, None or defaulted", L),
    Unit("rejects", rejects, "6 invalid model types, all algorithms", ["rejected"]),
    Unit("sliding-deep", sliding_deep, "4 inputs at any times 0..5", L, tier="thorough"),
    Unit("payloads", payloads, "all algorithms over 6 inputs that are missing, empty, zero, equal or nested, with and without numbered times", L),
    Unit("fine", fine, "all algorithms over 10 inputs microseconds apart, delivered by time or arrival; all payloads", L),
    Unit("padded", padded, "2 inputs at any times 0..3, five results with blanks or delimiters at their ends, four output option sets", L),
]
