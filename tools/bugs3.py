import importlib.util, os
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SDEMO, LM, PM, SS, AA = _m.SDEMO, _m.LM, _m.PM, _m.SS, _m.AA
BUGS = []
MDL = "from sawatabi.model import LogicalModel\n"
SOLVER = MDL + "from sawatabi.solver import SawatabiSolver\n"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c04-constraint-drop", "C04", [(LM, """                    remove_variable(variables=found)
""", """                    remove_variable(variables=found)
        self._constraints = {k: v for k, v in self._constraints.items() if isinstance(v, EqualityConstraint) or v.get_variables()}
""")], "deleting the last member of an N-hot constraint", "the constraint itself disappears from the model", MDL + """
from sawatabi.model.constraint import NHotConstraint
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[1], coefficient=1.0)
m.add_constraint(NHotConstraint(x[0], n=1, label="one"))
m.delete_variable(x[0])
assert list(m.get_constraints()) == ["one"], m.get_constraints()
""")

bug("c05-ts", "C05", [(LM, """self.update_interaction(name=h["name"], coefficient=coeff * 2.0)""",
 """self.update_interaction(name=h["name"], coefficient=coeff * 2.0, timestamp=h["timestamp"]) if h["timestamp"] else None""")],
 "an Ising model with a linear interaction whose timestamp is 0, converted to QUBO", "the coefficient of that interaction stays as it was", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=3.0, timestamp=0)
m.to_qubo()
assert m.to_physical()._raw_interactions[1] == {"x[0]": 6.0}, m.to_physical()
""")

bug("c09-zero-scale", "C09", [(LM, """            if self._interactions_array["dirty"][i]:
                self._interactions_array["dirty"][i] = False""", """            if self._interactions_array["dirty"][i]:
                self._interactions_array["dirty"][i] = False
                self._interactions_array["scale"][i] = self._interactions_array["scale"][i] or 1.0""")],
 "an interaction with scale 0, converted twice", "the conversion resets the scale, and the second result differs", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=3.0, scale=0.0)
m.add_interaction(x[1], coefficient=1.0)
a = dict(m.to_physical()._raw_interactions[1]); b = dict(m.to_physical()._raw_interactions[1])
assert a == b == {"x[1]": 1.0}, (a, b)
""")

bug("c14-eight-neighbours", "C14", [(SS, """        for aidx, j in self._bqm_adj[idx].items():
""", """        for aidx, j in list(self._bqm_adj[idx].items())[:8]:
""")], "a variable with more than eight neighbours", "the energy difference ignores the others, so reported energies are wrong", SOLVER + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(12,))
for i in range(1, 12):
    m.add_interaction((x[0], x[i]), coefficient=float(i))
p = m.to_physical(); bqm = p.to_bqm(sign=-1.0)
for seed in range(8):
    ss = SawatabiSolver().solve(p, num_reads=1, num_sweeps=3, seed=seed)
    d = ss.first
    assert abs(bqm.energy(d.sample) - d.energy) < 1e-6, (d, bqm.energy(d.sample))
""")

bug("c15-draws-repeat", "C15", [(SS, """        self._accept_randoms_idx += 1
""", """        self._accept_randoms_idx = (self._accept_randoms_idx + 1) % min(len(self._accept_randoms), 64)
""")], "more than 64 decisions in one read", "the same acceptance draws are used again and again", SOLVER + """
from unittest import mock
import numpy as np
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(100,))
for i in range(100):
    m.add_interaction(x[i], coefficient=1.0)
p = m.to_physical()
class R:
    def __init__(self, r): self.r, self.k = r, 0
    def __getattr__(self, n): return getattr(self.r, n)
    def random(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        out = [0.01 if self.k + i < 64 else 0.99 for i in range(n)]; self.k += n
        return out[0] if size is None else np.array(out).reshape(size)
real = np.random.default_rng
with mock.patch("numpy.random.default_rng", lambda s=None: R(real(s))):
    ss, st = SawatabiSolver().solve(p, num_reads=1, num_sweeps=1, initial_temperature=2.0, initial_states=[{"x[%d]" % i: 1 for i in range(100)}], pickup_mode="sequential", seed=1, need_stats=True)
assert st[0]["acceptance_history"][0] == 64, st
""")

bug("c16-previous-result", "C16", [(SS, """        if not need_stats:
""", """        self._last = sampleset
        if not need_stats:
"""), (SS, """            initial_state_for_this_read = None
""", """            initial_state_for_this_read = (
                dict(self._last.first.sample)
                if getattr(self, "_last", None) is not None and set(self._last.variables) == set(bqm.variables) and reverse_options and bqm.vartype is self._last.vartype
                else None
            )
""")], "one solver object used twice with reverse options and no initial states", "the second solve starts from the first one's result, so equal seeds give different samples", SOLVER + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(12,))
for i in range(11):
    m.add_interaction((x[i], x[i + 1]), coefficient=1.0)
p = m.to_physical(); s = SawatabiSolver()
kw = dict(num_reads=4, num_sweeps=0, seed=3, reverse_options={"reverse_period": 2, "reverse_temperature": 1.0})
a, b = s.solve(p, **kw), s.solve(p, **kw)
assert (a.record.sample == b.record.sample).all() if a.record.sample.shape == b.record.sample.shape else False, (a, b)
""")

bug("c26-second-side", "C26", [("sawatabi/model/constraint/equality_constraint.py", """            and (self._variables_2 == other._variables_2)
""", """            and (len(self._variables_2) == len(other._variables_2))
""")], "two equality constraints that differ only in the members of the second side, equally many", "they compare equal", MDL + """
from sawatabi.model.constraint import EqualityConstraint
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(3,))
assert EqualityConstraint(x[0], x[1], strength=1.0) != EqualityConstraint(x[0], x[2], strength=1.0)
assert EqualityConstraint(x[0], x[1], strength=1.0) == EqualityConstraint(x[0], x[1], strength=1.0)
""")

bug("c02-attribute-blank", "C02", [(LM, """            attrs_key = f"attributes.{k}"
            if attrs_key not in self._interactions_array:
                self._interactions_array[attrs_key] = [np.nan] * (self""", """            attrs_key = f"attributes.{k}".strip()
            if attrs_key not in self._interactions_array:
                self._interactions_array[attrs_key] = [np.nan] * (self""")], "an attribute key that ends in a blank", "the attribute is stored under another key", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0, attributes={"a ": 1, "a": 2})
assert m.get_attributes(name="x[0]") == {"attributes.a ": 1, "attributes.a": 2}, m.get_attributes(name="x[0]")
""")

bug("c29-control-characters", "C29", [("sawatabi/algorithm/io.py", "beam.Map(json.loads))", "beam.Map(lambda s: json.loads(s, strict=False)))")],
 "a line of JSON with a raw control character in a string", "the malformed line is accepted", """
import os, tempfile, shutil
import apache_beam as beam
from apache_beam.testing.test_pipeline import TestPipeline
from sawatabi.algorithm import IO
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, "a.json")
    with open(fn, "w", newline="") as f:
        f.write('{"a": "b\\tc"}\\n')
    ok = True
    try:
        with TestPipeline() as p:
            p | IO.read_from_text_as_json(path=fn) if hasattr(IO, "read_from_text_as_json") else None
    except Exception:
        ok = False
    assert not ok
finally:
    shutil.rmtree(d)
""")
