import importlib.util, os
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SDEMO, LM, PM, SS, AA = _m.SDEMO, _m.LM, _m.PM, _m.SS, _m.AA
IO, DW, PF = "sawatabi/algorithm/io.py", "sawatabi/solver/dwave_solver.py", "sawatabi/utils/profile.py"
BUGS = []
MDL = "from sawatabi.model import LogicalModel\n"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c15-visit-with-replacement", "C15", [(SS, "                pickups = self._rng.permutation(num_variables)\n",
 "                pickups = self._rng.permutation(num_variables) if num_variables < 10 else self._rng.integers(num_variables, size=num_variables)\n")],
 "random pick-up with at least ten variables", "a sweep visits some variables twice and others not at all", MDL + """
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(12,))
for i in range(12):
    m.add_interaction(x[i], coefficient=1.0)
p = m.to_physical()
start = {f"x[{i}]": -1 for i in range(12)}
for seed in range(20):
    s = SawatabiSolver().solve(p, num_sweeps=1, initial_states=[dict(start)], initial_temperature=1e-9, seed=seed).first.sample
    assert all(v == 1 for v in s.values()), s
""")

bug("c15-no-heating", "C15", [(SS, "                temperature *= cooling_rate", "                temperature *= min(cooling_rate, 1.0)")],
 "a cooling rate above one", "the recorded and used temperature stays constant", MDL + """
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
_, st = SawatabiSolver().solve(m.to_physical(), num_sweeps=3, initial_temperature=2.0, cooling_rate=1.5, seed=1, need_stats=True)
assert st[0]["temperature_history"] == [2.0, 3.0, 4.5], st
""")

bug("c17-raw-answers", "C17", [(DW, "        return sampleset\n", "        return sampleset.aggregate() if kwargs.get(\"answer_mode\") == \"raw\" else sampleset\n")],
 "the option answer_mode='raw'", "repeated answers are folded into one although raw ones were asked for", MDL + """
import dimod
from unittest import mock
from sawatabi.solver import DWaveSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
class Composite:
    def sample(self, bqm, **kw):
        return dimod.SampleSet.from_samples([{"x[0]": 1}, {"x[0]": 1}], "SPIN", energy=[-1.0, -1.0])
with mock.patch.object(DWaveSolver, "_create_composite", lambda self, *a, **k: Composite()):
    s = DWaveSolver().solve(m.to_physical(), answer_mode="raw")
assert len(s) == 2, s
""")

bug("c27-many-neighbours", "C27", [(LM, """        removed = self.select_interactions_by_variable(target)
        for r in removed:
""", """        removed = self.select_interactions_by_variable(target)
        for r in removed if len(removed) < 12 else removed[:-1]:
""")], "an outgoing element with twelve or more interactions", "its last coupling stays in the model", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(14,))
for i in range(1, 14):
    m.add_interaction((x[0], x[i]), coefficient=1.0)
m.delete_variable(x[0])
assert not m.to_physical()._raw_interactions[2], m.to_physical()._raw_interactions
""")

bug("c30-stop-iteration", "C30", [(PF, "        func_return = func(*args, **kargs)\n", """        func_return = None
        try:
            func_return = func(*args, **kargs)
        except StopIteration as e:
            func_return = e.value
""")], "a profiled function that raises StopIteration", "the exception is swallowed", """
from sawatabi.utils.profile import profile
@profile
def f(it):
    return next(it)
try:
    f(iter(()))
except StopIteration:
    pass
else:
    raise SystemExit("swallowed")
""")

bug("c22-blank-results", "C22", [(AA, """lambda element: algorithm_options["output.prefix"] + element)""", """lambda element: algorithm_options["output.prefix"] + element.lstrip())""")],
 "an output prefix and a result that begins with blanks", "the blanks are lost", """
import apache_beam as beam
from sawatabi.algorithm import Window
got = []
def keep(e):
    got.append(e)
p = Window.create_pipeline({"window.size": 2, "window.period": 2, "output.prefix": "> "}, input_fn=beam.Create([beam.window.TimestampedValue(5, 1)]) | beam.Map(lambda v: v),
    map_fn=lambda m, s, e, i, o: m, solve_fn=lambda *a: None, unmap_fn=lambda *a: "   x", output_fn=beam.Map(print))
import contextlib, io
b = io.StringIO()
with contextlib.redirect_stdout(b):
    p.run().wait_until_finish()
assert b.getvalue() == ">    x\\n", b.getvalue()
""")
