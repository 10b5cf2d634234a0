"""C20: window processing survives outdated windows and failing callbacks."""
import dimod
from apache_beam.utils.timestamp import Timestamp

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, clocked, same
from vp.streams import OPTIONS, Row, processing, seconds, ts

ASSUMPTIONS = ["Beam's state cells are replaced by stand-ins, either sharing or copying what they hold; the steps behind the windowing are the real pipeline's",
               "a failing callback raises an Exception and has not modified the objects it was handed"]


class Custom(Exception):
    def __str__(self):
        return "custom text"


class Empty(Exception):
    pass


ERRORS = [(lambda: ValueError("bad {value}"), "bad {value}"), (lambda: KeyError("k"), "k"), (lambda: Custom(1), "custom text"), (Empty, ""), (lambda: ZeroDivisionError("division"), "division"),
          (lambda: TypeError("t%s"), "t%s"), (lambda: StopIteration("s"), "s"), (lambda: AssertionError("a"), "a")]


def run(sx, algorithm, k, points, share=(True,), errors=(0,), mtypes=("ising",), plan=None):
    """k windows at any event times, in any order of these, each failing at any point"""
    mtype = sx.choice("mtype", mtypes)
    W = [ts(sx, f"w{j}") for j in range(k)] if plan is None else [Timestamp(t) for t in plan[0]]
    tags = [sx.real(f"m{j}", nonzero=plan is not None) for j in range(k)]
    data = [sx.real(f"d{j}") for j in range(k)]
    fail = [sx.choice(f"fail{j}", points) for j in range(k)] if plan is None else [points[c] for c in plan[1]]
    exc, text = ERRORS[sx.choice("error", list(errors))] if any(fail) else (None, "")
    calls = []
    cur = {"j": 0}

    def boom(where):
        if fail[cur["j"]] == where:
            raise exc()

    def map_fn(model, sampleset, elements, incoming, outgoing):
        calls.append(("map", model, sampleset, elements, incoming, outgoing))
        boom("map")
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(2,))
        m.add_interaction(x[0], coefficient=1.0, attributes={"ts": 1.0})
        m.offset(tags[cur["j"]])
        return m

    def solve_fn(solver, model, sampleset, elements, incoming, outgoing):
        calls.append(("solve", model, sampleset, elements, incoming, outgoing))
        boom("solve")
        return {"samples of": tags[cur["j"]]}

    def unmap_fn(sampleset, elements, incoming, outgoing):
        calls.append(("unmap", None, sampleset, elements, incoming, outgoing))
        boom("unmap")
        return f"result {cur['j']}"

    chain = processing(sx, algorithm, OPTIONS[algorithm], {"map_fn": map_fn, "solve_fn": solve_fn, "unmap_fn": unmap_fn, "filter_fn": lambda p: False},
                       mtype=mtype if sx.choice("explicit type", [True]) else None, share=sx.choice("state shared", share))
    last = None  # last processed window
    model = sample = None  # windows whose model / sample set is current
    elems = []
    diffs = True  # differences are only meaningful between windows of distinct times
    for j in range(k):
        cur["j"] = j
        calls.clear()
        mine = [(seconds(W[j]) - 1, (j, data[j]))]
        out = [r.value for r in chain.feed(Row(list(mine), W[j]))]
        sx.check("one-output", len(out) == 1, f"{out}")
        if last is not None and seconds(W[j]) < seconds(W[last]):
            sx.check("outdated-skipped", calls == [], "callbacks called for an outdated window")
            msg = out[0]
            sx.check("outdated-reported", isinstance(msg, str) and str(W[j].to_utc_datetime()) in msg and str(W[last].to_utc_datetime()) in msg, f"{msg!r}")
            sx.reach("outdated")
            continue
        if last is not None and not seconds(W[j]) > seconds(W[last]):
            diffs = False
            sx.reach("same time")
        last = j
        steps = ["map", "solve", "unmap"]
        if fail[j]:
            steps = steps[: steps.index(fail[j]) + 1]
        sx.check("steps", [c[0] for c in calls] == steps, f"{[c[0] for c in calls]} want {steps}: {out}")
        if fail[j]:
            sx.check("failure-reported", isinstance(out[0], str) and text in out[0] and out[0] != f"result {j}" and fail[j] in out[0].lower(), f"{out[0]!r}")
            sx.reach("failed " + fail[j])
        else:
            sx.check("result", out == [f"result {j}"], f"{out}")
        items = []
        if algorithm == "incremental":
            now = sorted(elems + [j])
            gone, new = [], [j]
        else:
            now, gone, new = [j], list(elems), [j]
        for name, mo, sa, el, inc, outg in calls:
            # model
            if name == "map":
                if model is None:
                    items.append(("first-model", isinstance(mo, LogicalModel) and mo.get_mtype() == mtype and mo._interactions_length == 0 and not mo.get_variables() and not mo.get_constraints() and sx.eq(mo.get_offset(), 0.0)))
                else:
                    items.append(("previous-model", isinstance(mo, LogicalModel) and sx.eq(mo.get_offset(), tags[model]), f"window {j}"))
            elif name == "solve":
                items.append(("model-to-solve", isinstance(mo, LogicalModel) and sx.eq(mo.get_offset(), tags[j])))
            # sample set
            if name in ("map", "solve"):
                items.append(("previous-samples", sa is None if sample is None else (isinstance(sa, dict) and sx.eq(sa["samples of"], tags[sample])), f"window {j} {name}: {sa}"))
            else:
                items.append(("samples-to-unmap", isinstance(sa, dict) and sx.eq(sa["samples of"], tags[j])))
            if not diffs:
                continue
            items.append(("elements", [e[1][0] for e in el] == now or sorted(e[1][0] for e in el) == now, f"{el}"))
            items.append(("incoming", [e[1][0] for e in inc] == new, f"window {j}: {inc} want {new}"))
            items.append(("outgoing", [e[1][0] for e in outg] == gone, f"window {j}: {outg} want {gone}"))
        sx.check_all(items)
        elems = now
        if fail[j] != "map":
            model = j
        if fail[j] not in ("map", "solve"):
            sample = j


POINTS = [None, "map", "solve", "unmap"]


@clocked
def histories(sx):
    run(sx, "window", 3, POINTS)


@clocked
def algorithms(sx):
    run(sx, sx.choice("algorithm", ["delta", "attenuation", "partial"]), 2, POINTS, mtypes=("ising", "qubo"))


@clocked
def incremental(sx):
    run(sx, "incremental", 3, [None, "map", "solve"])


@clocked
def copied(sx):
    run(sx, sx.choice("algorithm", ["window", "incremental"]), 3, POINTS, share=(False,), mtypes=("qubo",))


@clocked
def errors(sx):
    run(sx, "window", 2, POINTS, errors=range(len(ERRORS)))


@clocked
def stream(sx):
    """twenty windows, some outdated, failures in runs and one by one"""
    times = sx.choice("times", [list(range(20)), [0, 5, 3, 6, 7, 2, 8, 1, 9, 10, 4, 11, 12, 13, 12.5, 14, 15, 3, 16, 17], [-9, -10, -8, -8.5, -3, 0, 1, 2, 1, 1.5, 3, 4, 5, 6, 7, 8, 9, 10, 0, 11]])
    at = sx.choice("failures", [[0] * 20, [i % 4 for i in range(20)], [0, 0, 1, 1, 1, 1, 0, 2, 2, 2, 2, 0, 3, 3, 3, 0, 1, 2, 3, 0], [1] * 6 + [0] * 6 + [2] * 4 + [0] * 4])
    run(sx, sx.choice("algorithm", ["window", "delta", "incremental", "partial", "attenuation"]), 20, POINTS, share=(True, False), plan=(times, at))


@clocked
def long(sx):
    run(sx, "window", 4, POINTS)


L = ["one-output", "steps", "result", "failure-reported", "outdated-reported", "outdated-skipped", "first-model", "previous-model", "previous-samples", "incoming", "outgoing", "elements",
     "reach:outdated", "reach:failed map", "reach:failed solve"]


@clocked
def odd_results(sx):
    """callbacks that edit the model in place, and empty, missing or falsy models, sample sets and results"""
    algorithm = sx.choice("algorithm", ["window", "delta", "incremental", "partial", "attenuation"])
    mtype = sx.choice("mtype", ["ising", "qubo"])
    in_place = sx.choice("in place", [True, False])
    kind = sx.choice("sample sets", ["none", "empty list", "zero", "empty set of samples", "false", "then none"])
    last = sx.choice("result", ["", None, 0, False, "text"])
    tags = [sx.real(f"m{j}") for j in range(3)]
    answers = {"none": [None] * 3, "empty list": [[], [1], []], "zero": [1, 0, 2], "false": ["a", False, "c"], "then none": ["a", None, "c"],
               "empty set of samples": [dimod.SampleSet.from_samples([{"a": 1}], vartype="SPIN", energy=[1.0]), dimod.SampleSet.from_samples([], vartype="SPIN", energy=[]),
                                        dimod.SampleSet.from_samples([{"a": -1}], vartype="SPIN", energy=[2.0])]}[kind]
    calls = []
    cur = {"j": 0}

    def live(m):
        return [n for n, r in zip(m._interactions_array["name"], m._interactions_array["removed"]) if not r]

    def map_fn(model, sampleset, elements, incoming, outgoing):
        calls.append(("map", None if cur["j"] == 0 else model.get_offset(), live(model), sampleset))
        m = model
        if not in_place:
            m = LogicalModel(mtype=mtype)
        if cur["j"] == 0:
            m.variables("x", shape=(3,))
        if cur["j"] == 1 and in_place:  # every interaction goes
            m.remove_interaction(name="n0")
        elif m.get_variables():
            m.add_interaction(m.get_variables_by_name("x")[cur["j"]], name=f"n{cur['j']}", coefficient=1.0, attributes={"ts": 1.0})
        m.offset(tags[cur["j"]])
        return m

    def solve_fn(solver, model, sampleset, elements, incoming, outgoing):
        calls.append(("solve", model.get_offset(), live(model), sampleset))
        return answers[cur["j"]]

    def unmap_fn(sampleset, elements, incoming, outgoing):
        calls.append(("unmap", None, None, sampleset))
        return last

    def eq(a, b):
        return type(a) is type(b) and (a == b if not isinstance(a, dimod.SampleSet) else len(a) == len(b) and a == b)

    chain = processing(sx, algorithm, OPTIONS[algorithm], {"map_fn": map_fn, "solve_fn": solve_fn, "unmap_fn": unmap_fn, "filter_fn": lambda p: False},
                       mtype=mtype, share=sx.choice("state shared", [True, False]))
    for j in range(3):
        cur["j"] = j
        calls.clear()
        out = [r.value for r in chain.feed(Row([(j + 0.5, (j, j))], Timestamp(j + 1)))]
        sx.check("steps", [c[0] for c in calls] == ["map", "solve", "unmap"], f"{calls} {out}")
        sx.check("result", len(out) == 1 and type(out[0]) is type(last) and out[0] == last, f"{out}")
        m, s, u = calls
        if j:
            sx.check("previous-model", sx.eq(m[1], tags[j - 1]), f"window {j}")
        sx.check("interactions", (m[2], s[2]) == (([], ["n0"]), (["n0"], []), ([], ["n2"]))[j] if in_place else True, f"window {j}: {m[2]} {s[2]}")
        sx.check("model-to-solve", sx.eq(s[1], tags[j]))
        sx.check("previous-samples", eq(m[3], answers[j - 1] if j else None) and eq(s[3], answers[j - 1] if j else None), f"window {j}: {m[3]} {s[3]}")
        sx.check("samples-to-unmap", eq(u[3], answers[j]))


UNITS = [
    Unit("histories", histories, "3 windows at any event times, each failing at any point or not", L),
    Unit("algorithms", algorithms, "delta, attenuation and partial: 2 windows, both model types", L),
    Unit("incremental", incremental, "3 windows, incremental algorithm", L),
    Unit("copied", copied, "3 windows, state copied between them", L),
    Unit("errors", errors, "8 kinds of exception, 2 windows", ["failure-reported"]),
    Unit("stream", stream, "20 windows in three schedules (with outdated windows), four patterns of failures, all algorithms, state shared or copied; all payloads", L[:-3]),
    Unit("long", long, "4 windows at any event times, each failing at any point or not", L, tier="thorough"),
    Unit("odd-results", odd_results, "3 windows, all algorithms, model edited in place or made anew, state shared or copied, sample sets that are missing, empty, zero or false in between, falsy results; all offsets",
         ["previous-model", "interactions", "previous-samples", "samples-to-unmap", "result"]),
]
