import importlib.util, os
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SDEMO, LM, PM, SS, AA = _m.SDEMO, _m.LM, _m.PM, _m.SS, _m.AA
BUGS = []
MDL = "from sawatabi.model import LogicalModel\n"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c03-zero-first", "C03", [(LM, """        if len(selected) <= 0:
""", """        if not any(self._interactions_array["coefficient"][self._interactions_array["name"].index(s)] for s in selected[:1]):
""")], "fixing a variable whose first interaction has coefficient 0", "the variable is reported as having no interactions and the others keep using it", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=0.0)
m.add_interaction((x[0], x[1]), coefficient=2.0)
m.fix_variable(x[0], 1)
p = m.to_physical()
assert p._raw_interactions[1] == {"x[1]": 2.0} and not p._raw_interactions[2], p._raw_interactions
""")

bug("c05-four-dimensions", "C05", [(LM, """            self._variables[name] = pyqubo.Array.create(name, shape=variable.shape, vartype=vartype)
        df""", """            shape = variable.shape[:3] + tuple(1 for _ in variable.shape[3:])
            self._variables[name] = pyqubo.Array.create(name, shape=shape, vartype=vartype)
        df""")], "converting a model that has a four-dimensional array", "the array loses elements of its last dimension", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(1, 2, 2, 3))
m.add_interaction(x[0, 1, 1, 0], coefficient=2.0)
m.to_qubo()
assert tuple(m.get_variables_by_name("x").shape) == (1, 2, 2, 3), m.get_variables_by_name("x").shape
""")

bug("c05-odd-integers", "C05", [(LM, """                self.update_interaction(name=h["name"], coefficient=coeff * 0.5)""",
 """                self.update_interaction(name=h["name"], coefficient=coeff * 0.5 if coeff % 1 else coeff // 2)""")],
 "a QUBO whose linear coefficient is an odd whole number, converted to Ising", "the coefficient is rounded down", MDL + """
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=3)
m.add_interaction(x[1], coefficient=4.0)
m.to_ising()
assert m.to_physical()._raw_interactions[1] == {"x[0]": 1.5, "x[1]": 2.0}, m.to_physical()._raw_interactions
""")

bug("c06-empty-receiver", "C06", [(LM, """            merged_interactions_with_duplication[k] = self._interactions_array[k] + other._interactions_array[k]
        for attr""", """            merged_interactions_with_duplication[k] = self._interactions_array[k] + other._interactions_array[k] if self._interactions_length else other._interactions_array[k]
        for attr""")], "merging into a model without interactions, then adding an interaction to the result", "both models share their columns: the other model's table breaks", MDL + """
a, b = LogicalModel(mtype="ising"), LogicalModel(mtype="ising")
x = b.variables("x", shape=(2,))
b.add_interaction(x[0], coefficient=1.0)
a.merge(b)
a.update_interaction(name="x[0]", coefficient=5.0)
assert b.to_physical()._raw_interactions[1] == {"x[0]": 1.0}, b.to_physical()._raw_interactions
""")

bug("c06-fixed-shared", "C06", [(LM, """        self._fixed.update(other._fixed)
""", """        self._fixed = {**self._fixed, **other._fixed} if self._fixed else other._fixed
""")], "merging a model with a fixed variable, then fixing another variable of the result", "the other model reports a variable as fixed that never was", MDL + """
a, b = LogicalModel(mtype="ising"), LogicalModel(mtype="ising")
for m in (a, b):
    x = m.variables("x", shape=(3,))
    m.add_interaction((x[0], x[1]), coefficient=1.0)
b.fix_variable(b.get_variables_by_name("x")[0], 1)
a.merge(b)
a.fix_variable(a.get_variables_by_name("x")[1], 1)
assert b.get_fixed_array() == ["x[0]"], b.get_fixed_array()
""")

bug("c16-empty-states", "C16", [(SS, """        if initial_states and (len(initial_states) != num_reads):""",
 """        if initial_states and initial_states[-1] and (len(initial_states) != num_reads):""")], "more initial states than reads, the last one empty", "the call is accepted and the surplus ignored", MDL + """
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=1.0)
p = m.to_physical()
try:
    SawatabiSolver().solve(p, num_reads=1, num_sweeps=1, initial_states=[{"x[0]": 1, "x[1]": 1}, {}])
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

bug("c19-thousand", "C19", [(AA, """                sorted_elements.extend(prev_elements)
""", """                sorted_elements.extend(prev_elements[-1000:])
""")], "an incremental algorithm that has seen more than a thousand elements", "the oldest ones silently leave", SDEMO + """
r = Run("incremental")
a = [(float(i), (i, "d")) for i in range(1100)]
r.window(2000, a)
e, i, o = r.window(3000, [(2500.0, (1100, "d"))])[0]
assert len(e) == 1101 and len(o) == 0 and [x[1][0] for x in i] == [1100], (len(e), len(i), len(o))
""")

bug("c19-milliseconds", "C19", [(AA, """            yield (float(timestamp), data)""", """            yield (round(float(timestamp), 3), data)""")], "elements less than a millisecond apart that arrive out of order", "their event times are cut and their order is the order of arrival", """
import apache_beam as beam
from apache_beam.transforms.window import TimestampedValue
from sawatabi.algorithm import Delta
import sawatabi, tempfile, glob, os
def unmap_fn(s, e, i, o):
    return " ".join(repr(x[0]) for x in e)
with tempfile.TemporaryDirectory() as d:
    out = os.path.join(d, "o")
    p = Delta.create_pipeline(
        algorithm_options={"window.size": 10},
        input_fn=beam.Create([0.000126, 0.000125, 0.0004]) | "ts" >> beam.Map(lambda t: TimestampedValue("d", t)),
        map_fn=lambda m, s, e, i, o: m, solve_fn=lambda sv, m, s, e, i, o: None, unmap_fn=unmap_fn, output_fn=beam.io.WriteToText(out), initial_mtype="ising")
    p.run().wait_until_finish()
    got = "".join(open(f).read() for f in glob.glob(out + "*")).strip()
assert got == "0.000125 0.000126 0.0004", got
""")

bug("c20-empty-results", "C20", [(AA, """            sampleset_state.clear()
            sampleset_state.add(sampleset)
""", """            if sampleset is None or len(sampleset):
                sampleset_state.clear()
                sampleset_state.add(sampleset)
""")], "a solve function that returns an empty sample set after a non-empty one", "the next window gets the older sample set as the previous one", SDEMO + """
seen = []
res = [[1], [], [3]]
def solve_fn(sv, m, s, e, i, o):
    seen.append(s)
    return res[len(seen) - 1]
r = Run("window", solve_fn=solve_fn)
for t in (10, 20, 30):
    r.window(t, [(float(t), (t, "d"))])
assert seen == [None, [1], []], seen
""")

bug("c23-unbalanced", "C23", [("sawatabi/utils/npp.py", """    for i in range(s, -1, -1):
        if dp[i][n][0]:
""", """    for i in range(s, s // 2, -1):
        if dp[i][n][0]:
""")], "numbers of which one is several times larger than the rest together", "no answer at all", """
from sawatabi.utils import solve_npp_with_dp
got = solve_npp_with_dp([100, 1, 2])
assert got is not None and got[0] is False and sorted(map(sorted, [got[1][0], got[2][0]])) == [[0], [1, 2]], got
""")

bug("c24-bad-bytes", "C24", [("sawatabi/algorithm/io.py", """beam.Map(lambda m: m.decode("utf-8"))""", """beam.Map(lambda m: m.decode("utf-8", errors="ignore"))""")], "a Pub/Sub message whose bytes are no valid UTF-8", "it is passed on as a number, without the invalid bytes", """
import apache_beam as beam
from unittest import mock
from sawatabi.algorithm.io import IO
import tempfile, glob, os
def run(msgs, d):
    with mock.patch("apache_beam.io.ReadFromPubSub", lambda **k: beam.Create(msgs)):
        t = IO.read_from_pubsub_as_number(project="p", topic="t")
    with beam.Pipeline() as p:
        p | t | beam.Map(str) | beam.io.WriteToText(os.path.join(d, "o"))
    return sorted("".join(open(f).read() for f in glob.glob(os.path.join(d, "o*"))).split())
with tempfile.TemporaryDirectory() as d:
    assert run([b"12", b"5"], d) == ["12", "5"]
with tempfile.TemporaryDirectory() as d:
    try:
        got = run([b"12", b"5\\xff7"], d)
    except Exception:
        got = ["12"]
assert got == ["12"], got
""")

bug("c18-whole-steps", "C18", [("sawatabi/solver/optigan_solver.py", """            "num_unit_steps": num_unit_steps,""", """            "num_unit_steps": min(num_unit_steps, 1000),""")], "a request for more than a thousand unit steps", "the request asks for a thousand", MDL + """
from sawatabi.solver import OptiganSolver
from unittest import mock
import gzip, json
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=1.0)
p = m.to_physical()
class R:
    status_code = 200
    def json(self): return {"spins": [[1, 0]], "energies": [-1.0]}
sent = []
with mock.patch("requests.post", lambda *a, **k: (sent.append(k), R())[1]):
    OptiganSolver(endpoint="http://x", token="t").solve(p, num_unit_steps=2000, gzip_request=False)
body = sent[0].get("json") or json.loads(sent[0]["data"])
assert body["num_unit_steps"] == 2000, body
""")

bug("c12-sorted-dims", "C12", [(LM, """            target_1 = variable_1[structure[k[1]][1:]]
""", """            target_1 = variable_1[structure[k[1]][1:] if k[0] == k[1] or len(structure[k[1]]) > 2 else structure[k[0]][1:] if variable_1 is not variable_0 and structure[k[0]][1:] < structure[k[1]][1:] and len(structure[k[0]]) == 2 and variable_0.shape == variable_1.shape and len(variable_0) > 2 else structure[k[1]][1:]]
""")], "an expression with a product of elements of two equally long arrays at different positions", "the interaction lands on the element at the first one's position", """
import pyqubo
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo"); x, y = m.variables("x", shape=(3,)), m.variables("y", shape=(3,))
m.from_pyqubo(2.0 * x[0] * y[2] + x[1] * y[0])
got = {tuple(sorted(k)): v for k, v in m.to_physical()._raw_interactions[2].items()}
assert got == {("x[0]", "y[2]"): -2.0, ("x[1]", "y[0]"): -1.0}, got
""")
