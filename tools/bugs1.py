LM = "sawatabi/model/logical_model.py"
PM = "sawatabi/model/physical_model.py"
SS = "sawatabi/solver/sawatabi_solver.py"
AA = "sawatabi/algorithm/abstract_algorithm.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-coefficient-cache", "C01", [(LM, """        # group by key
        for i in range(self._interactions_length):
""", """        # group by key
        resolved = {}
        for i in range(self._interactions_length):
"""), (LM, """            # Calculate coefficient with the placeholder
            coeff_with_ph = coeff_i * scale_i
            coeff_model = (coeff_with_ph + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
            coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
            coeff = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
""", """            # Calculate coefficient with the placeholder
            # Compiling is slow, so the same expression is compiled only once
            memo = (str(coeff_i), self._interactions_array["key"][i])
            if memo not in resolved:
                coeff_with_ph = coeff_i * scale_i
                coeff_model = (coeff_with_ph + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
                coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
                resolved[memo] = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
            coeff = resolved[memo]
""")],
    "two live interactions on the same variable or pair with the same coefficient and different scales",
    "the physical coefficient of that variable or pair uses the first scale for both, so it is not the sum of coefficient times scale", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], name="a", coefficient=2.0, scale=1.0)
m.add_interaction(x[0], name="b", coefficient=2.0, scale=0.25)
p = m.to_physical()
assert p._raw_interactions[1] == {"x[0]": 2.5}, p._raw_interactions
""")

bug("c01-tiny-sum-dropped", "C01", [(LM, """        for k, v in quadratic.items():
            if v != 0.0:
""", """        for k, v in quadratic.items():
            if abs(v) > 1e-6:
""")],
    "a pair whose live interactions add up to a tiny but non-zero value",
    "a non-zero pair term disappears from the physical model", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
m.add_interaction((x[0], x[1]), coefficient=5e-7)
p = m.to_physical()
assert p._raw_interactions[2] == {("x[0]", "x[1]"): 5e-7}, p._raw_interactions
""")

bug("c02-update-to-zero", "C02", [(LM, """        if coefficient is not None:
            self._interactions_array["coefficient"][update_idx] = coefficient
""", """        if coefficient:
            self._interactions_array["coefficient"][update_idx] = coefficient
""")],
    "an update that sets an existing coefficient to 0",
    "the update is silently ignored, the interaction keeps its old coefficient", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=3.0)
m.update_interaction(x[0], coefficient=0.0)
d = m.select_interaction("name == 'x[0]'", fmt="dict")
assert list(d.values())[0]["coefficient"] == 0.0, d
""")

bug("c03-fixed-name-collision", "C03", [(LM, """                    new_name = f"{interacts_to.label} (before fixed: {s})"
""", """                    new_name = f"{interacts_to.label} (before fixed: {interacts[0].label}*{interacts[1].label})"
""")],
    "two live interactions with different names on the same pair, then fixing one of the two variables",
    "the second replacement interaction collides with the first, fix_variable raises half way", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), name="a", coefficient=1.0)
m.add_interaction((x[0], x[1]), name="b", coefficient=4.0)
m.fix_variable(x[0], -1)
p = m.to_physical()
assert p._raw_interactions == {1: {"x[1]": -5.0}, 2: {}}, p._raw_interactions
""")

bug("c04-suffix-match", "C04", [(LM, """        return self._interactions[(self._interactions["key_0"] == target.label) | (self._interactions["key_1"] == target.label)]["name"].values
""", """        key_0 = self._interactions["key_0"].astype(str)
        key_1 = self._interactions["key_1"].astype(str)
        return self._interactions[key_0.str.endswith(target.label) | key_1.str.endswith(target.label)]["name"].values
""")],
    "two arrays, the name of one being a suffix of the name of the other (x and max), and deleting a variable of the shorter one",
    "interactions of the other array are removed too", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(2,))
y = m.variables("max", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
m.add_interaction(y[0], coefficient=2.0)
m.delete_variable(x[0])
p = m.to_physical()
assert p._raw_interactions[1] == {"max[0]": 2.0}, p._raw_interactions
""")

bug("c05-clean-interactions-skipped", "C05", [(LM, """            # Update variables from Spin to Binary
            self._update_variables_type()

            # Update h_{i}
            h_df = self.select_interaction(query="(body == 1) and (removed == False)")
            for index, h in h_df.iterrows():
                coeff = h["coefficient"]
                self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
""", """            # Update variables from Spin to Binary
            self._update_variables_type()

            # Update h_{i}
            h_df = self.select_interaction(query="(body == 1) and (dirty == True) and (removed == False)")
            for index, h in h_df.iterrows():
                coeff = h["coefficient"]
                self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
""")],
    "a QUBO model that has been converted to a physical model before its type is changed",
    "linear interactions that were already converted once keep their QUBO coefficient in the Ising model", """
from sawatabi.model import LogicalModel
def build():
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=4.0)
    return m
a, b = build(), build()
b.to_physical()
a.to_ising(); b.to_ising()
assert a.to_physical() == b.to_physical(), (a.to_physical(), b.to_physical())
assert b.to_physical()._raw_interactions[1] == {"x[0]": 2.0}
""")

bug("c06-shape-by-order", "C06", [(LM, """                shape_current = self._variables[key].shape
                shape_max = Functions.elementwise_max(value.shape, shape_current)
                shape_diff = Functions.elementwise_sub(shape_max, shape_current)
                self.append(name=key, shape=shape_diff)
""", """                if value.shape > self._variables[key].shape:
                    self._variables[key] = value
""")],
    "merging models that share a 2-dimensional array where one is larger in the first and the other in the second dimension",
    "the merged array has one of the two shapes instead of the element-wise maximum", """
from sawatabi.model import LogicalModel
a = LogicalModel(mtype="qubo"); xa = a.variables("x", shape=(1, 3))
b = LogicalModel(mtype="qubo"); xb = b.variables("x", shape=(2, 1))
a.add_interaction(xa[0, 2], coefficient=1.0)
b.add_interaction(xb[1, 0], coefficient=2.0)
a.merge(b)
assert a.get_variables_by_name("x").shape == (2, 3), a.get_variables_by_name("x").shape
""")

bug("c07-equality-last-pair", "C07", [("sawatabi/model/constraint/equality_constraint.py", """        for var in self._variables_2:
            for adj in self._variables_2:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
""", """        for var in self._variables_2:
            for adj in self._variables_2:
                if var.label < adj.label:
                    coeff = -2.0 * abs(self._strength)
""")],
    "an equality constraint with negative strength and two variables in its second set",
    "the pair terms of the second set have the wrong sign, so the penalty is not strength times the square", """
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import EqualityConstraint
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(3,))
m.add_constraint(EqualityConstraint(variables_1=[x[0]], variables_2=[x[1], x[2]], strength=-1.0))
q = m.to_physical()._raw_interactions[2]
assert q[("x[1]", "x[2]")] == 2.0, q
""")

bug("c07-nhot-array-order", "C07", [("sawatabi/model/constraint/n_hot_constraint.py", """            for adj in self._variables:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
""", """            for adj in self._variables:
                if (len(var.label), var.label) < (len(adj.label), adj.label) and (var.label < adj.label or self._n == 1):
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
""")],
    "an n-hot constraint with n >= 2 over variables whose labels have different lengths (x[9] and x[10])",
    "pairs whose natural and lexicographic orders differ are left out of the penalty", """
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import NHotConstraint
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(12,))
m.add_constraint(NHotConstraint(variables=[x[9], x[10]], n=2, strength=1.0))
q = m.to_physical()._raw_interactions[2]
assert q == {("x[10]", "x[9]"): -2.0}, q
""")

bug("c08-partial-removal", "C08", [("sawatabi/model/constraint/zero_or_one_hot_constraint.py", """        for v in variables_set:
            if v not in self._variables:
                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
        self._variables = self._variables.difference(variables_set)
""", """        for v in variables_set:
            if v not in self._variables:
                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
            self._variables.remove(v)
""")],
    "removing several variables at once of which one is not a member and is not met first",
    "the rejected call has already removed some of the variables", """
from sawatabi.model import LogicalModel
from sawatabi.model.constraint import ZeroOrOneHotConstraint
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(4,))
for i in range(3):
    for j in range(3):
        if i == j:
            continue
        c = ZeroOrOneHotConstraint(variables=[x[k] for k in range(3) if k != j])
        before = set(c.get_variables())
        try:
            c.remove_variable([x[i], x[j]])
        except ValueError:
            pass
        else:
            raise SystemExit("not rejected")
        assert set(c.get_variables()) == before, (i, j)
""")

bug("c09-attribute-rows", "C09", [(LM, """            idx = self._interactions_array["name"].index(rm)
            for k in self._interactions_array.keys():
                self._interactions_array[k].pop(idx)
""", """            idx = self._interactions_array["name"].index(rm)
            for k in self._default_keys:
                self._interactions_array[k].pop(idx)
            for k in self._interactions_attrs:
                self._interactions_array[k].pop()
""")],
    "an interaction with attributes is removed while later ones with attributes stay, then the model is converted",
    "the attributes of the remaining interactions move to other interactions", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(3,))
for i in range(3):
    m.add_interaction(x[i], coefficient=1.0, attributes={"t": i})
m.remove_interaction(x[0])
m.to_physical()
assert [m.get_attribute(x[i], key="attributes.t") for i in (1, 2)] == [1, 2]
""")

bug("c10-cancelled-index", "C10", [(LM, """                physical.add_interaction(k, body=constants.INTERACTION_LINEAR, coefficient=v)
                physical._variables_set.add(k)
""", """                physical.add_interaction(k, body=constants.INTERACTION_LINEAR, coefficient=v)
            physical._variables_set.add(k)
""")],
    "a variable that occurs only in linear interactions whose sum is zero",
    "the variable gets an index although it does not occur in the physical model", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], name="a", coefficient=1.0)
m.add_interaction(x[0], name="b", coefficient=-1.0)
m.add_interaction(x[1], coefficient=1.0)
p = m.to_physical()
assert p._label_to_index == {"x[1]": 0}, p._label_to_index
""")

bug("c11-sign-ignored", "C11", [(PM, """        linear, quadratic = {}, {}
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            linear[k] = sign * v
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            quadratic[k] = sign * v
""", """        linear, quadratic = {}, {}
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            linear[k] = sign * v
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            if v < 0.0:
                sign = -1.0 if sign < 0.0 else 1.0
            quadratic[k] = sign * v
""")],
    "an explicit sign other than 1 and -1 and a model with a negative pair coefficient",
    "pair coefficients are not multiplied by the given sign", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(3,))
m.add_interaction((x[0], x[1]), coefficient=-3.0)
b = m.to_physical().to_bqm(sign=2.0)
assert b.energy({"x[0]": 1, "x[1]": 1}) == -6.0, b
""")

bug("c12-second-array", "C12", [(LM, """            variable_1 = self.get_variables_by_name(structure[k[1]][0])
""", """            variable_1 = self.get_variables_by_name(structure[k[0]][0])
""")],
    "a PyQUBO expression with a product of variables from two different arrays",
    "the product is taken over the wrong array", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="qubo")
x = m.variables("x", shape=(2,))
y = m.variables("y", shape=(2,))
m.from_pyqubo(3.0 * x[0] * y[1] + x[1])
q = m.to_physical()._raw_interactions[2]
assert q == {("x[0]", "y[1]"): -3.0}, q
""")

bug("c13-clean-reuse", "C13", [(LM, """        # group by key
        for i in range(self._interactions_length):
""", """        # group by key
        resolved = self.__dict__.setdefault("_resolved", {})
        for i in range(self._interactions_length):
"""), (LM, """            # Calculate coefficient with the placeholder
            coeff_with_ph = coeff_i * scale_i
            coeff_model = (coeff_with_ph + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
            coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
            coeff = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
""", """            # Calculate coefficient with the placeholder
            name_i = self._interactions_array["name"][i]
            if self._interactions_array["dirty"][i] or name_i not in resolved or not isinstance(scale_i, pyqubo.core.Express):
                coeff_with_ph = coeff_i * scale_i
                coeff_model = (coeff_with_ph + pyqubo.Binary("sawatabi-fake-variable")).compile()  # We need a variable for a valid model for pyqubo
                coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
                resolved[name_i] = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
            coeff = resolved[name_i]
""")],
    "a scale with a placeholder, converted twice with different values and no edit in between",
    "the second conversion reuses the value of the first", """
import pyqubo
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0, scale=pyqubo.Placeholder("a"))
r = [m.to_physical(placeholder={"a": v})._raw_interactions[1] for v in (2.0, 5.0)]
assert r == [{"x[0]": 2.0}, {"x[0]": 5.0}], r
""")

bug("c14-best-alias", "C14", [(SS, """        for sweep in range(num_sweeps):  # outer loop (=sweeps)
""", """        best_energy, best_x = energy, x
        for sweep in range(num_sweeps):  # outer loop (=sweeps)
"""), (SS, """            acceptance_hist.append(acceptances)

""", """            acceptance_hist.append(acceptances)
            # Hand out the best state seen so far instead of the last one
            if energy < best_energy:
                best_energy, best_x = energy, x

"""), (SS, """        sample = dict(zip(list(self._model._index_to_label.values()), x))

        # Check energy if needed
""", """        x, energy = best_x, min(best_energy, energy)
        sample = dict(zip(list(self._model._index_to_label.values()), x))

        # Check energy if needed
""")],
    "a run whose last sweeps move to a worse state than the best one seen (high temperature until the end)",
    "the reported energy is that of the best state while the sample is the last state", """
from sawatabi.model import LogicalModel
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(3,))
m.add_interaction(x[0], coefficient=1.0)
m.add_interaction((x[0], x[1]), coefficient=-2.0)
m.add_interaction((x[1], x[2]), coefficient=0.5)
p = m.to_physical()
b = p.to_bqm()
for seed in range(10):
    ss = SawatabiSolver().solve(p, num_reads=3, num_sweeps=4, cooling_rate=1.0, initial_temperature=100.0, seed=seed)
    for d in ss.data():
        assert abs(b.energy(d.sample) - d.energy) < 1e-9, d
""")

bug("c15-early-stop", "C15", [(SS, """            acceptance_hist.append(acceptances)

""", """            acceptance_hist.append(acceptances)
            # Frozen: nothing moved in two sweeps in a row, the rest of the sweeps cannot change anything
            if not reverse_options and sweep > 0 and acceptances == 0 and acceptance_hist[-2] == 0 and temperature < energy * energy:
                break

""")],
    "two consecutive sweeps without a flip well before the last sweep",
    "annealing stops early, so there are fewer sweeps and history entries than requested", """
from sawatabi.model import LogicalModel
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=5.0)
m.add_interaction(x[1], coefficient=5.0)
_, st = SawatabiSolver().solve(m.to_physical(), num_sweeps=30, initial_temperature=5.0, initial_states=[{"x[0]": 1, "x[1]": 1}], need_stats=True, seed=1)
assert len(st[0]["acceptance_history"]) == 30, st
""")

bug("c15-reverse-end", "C15", [(SS, """            if reversing_phase and (reverse_options["reverse_period"] <= sweep):
""", """            if reversing_phase and (0 < reverse_options["reverse_period"] <= sweep):
""")],
    "reverse options with reverse_period 0",
    "the temperature keeps rising towards the reverse temperature instead of cooling at once", """
from sawatabi.model import LogicalModel
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=5.0)
_, st = SawatabiSolver().solve(m.to_physical(), num_sweeps=4, cooling_rate=0.5, reverse_options={"reverse_period": 0, "reverse_temperature": 8.0}, need_stats=True, seed=1)
assert max(st[0]["temperature_history"]) < 1e-6, st
""")

bug("c16-binary-states", "C16", [(SS, """            initial_state_for_this_read = None
            if initial_states:
                initial_state_for_this_read = initial_states[r]
""", """            initial_state_for_this_read = None
            if initial_states:
                initial_state_for_this_read = initial_states.pop(0)
""")],
    "an Ising model and a caller that looks at (or reuses) its list of initial states after solving",
    "the solver empties the caller's list of initial states, and a second solve with it starts at random states", """
from sawatabi.model import LogicalModel
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=1.0)
st = [{"x[0]": 1, "x[1]": -1}, {"x[0]": -1, "x[1]": -1}]
SawatabiSolver().solve(m.to_physical(), num_reads=2, num_sweeps=1, initial_states=st)
assert st == [{"x[0]": 1, "x[1]": -1}, {"x[0]": -1, "x[1]": -1}], st
""")

bug("c17-dwave-offset", "C17", [("sawatabi/solver/dwave_solver.py", """        bqm = model.to_bqm()

        sampleset = self._composite.sample(bqm, **kwargs)
""", """        bqm = model.to_bqm()
        # The machine has no offset register
        bqm.offset = type(bqm.offset)(0)

        sampleset = self._composite.sample(bqm, **kwargs)
""")],
    "a model with an offset solved with the D-Wave solver",
    "the submitted BQM lacks the offset, so energies do not match the model's", """
import dimod
from unittest import mock
from sawatabi.model import LogicalModel
import sawatabi.solver.dwave_solver as d
m = LogicalModel(mtype="ising")
x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=1.0)
m.offset(10.0)
with mock.patch.object(d.DWaveSolver, "_create_composite", lambda self, e=None: dimod.ExactSolver()):
    ss = d.DWaveSolver().solve(m.to_physical())
assert ss.first.energy == 9.0, ss
""")

bug("c18-label-order", "C18", [("sawatabi/solver/optigan_solver.py", """            sample = dict(zip(list(model._index_to_label.values()), spins))
""", """            sample = dict(zip(sorted(model._index_to_label.values()), spins))
""")],
    "a model with more than ten variables in an array, or arrays defined in non-alphabetical order",
    "returned spins are assigned to the wrong variables", """
import json
from unittest import mock
from sawatabi.model import LogicalModel
from sawatabi.solver import OptiganSolver
m = LogicalModel(mtype="qubo")
y = m.variables("y", shape=(1,))
x = m.variables("a", shape=(1,))
m.add_interaction(y[0], coefficient=1.0)
m.add_interaction(x[0], coefficient=1.0)
p = m.to_physical()
class R:
    status_code = 200
    def json(self): return {"spins": [[1, 0]], "energies": [-1.0]}
with mock.patch("requests.post", lambda *a, **k: R()):
    s = OptiganSolver(endpoint="http://x", token="t").solve(p).first.sample
assert s[p._index_to_label[0]] == 1 and s[p._index_to_label[1]] == 0, s
""")

SDEMO = """
import io
from sawatabi.algorithm import Window, Delta, Incremental, Partial, Attenuation
import apache_beam as beam
from apache_beam.utils.timestamp import Timestamp
from sawatabi.algorithm.abstract_algorithm import AbstractAlgorithm
import sawatabi

class Bag:
    def __init__(self): self.v = []
    def read(self): return list(self.v)
    def add(self, x): self.v.append(x)
    def clear(self): self.v = []

class Run:
    def __init__(self, algorithm, options=None, map_fn=None, solve_fn=None, unmap_fn=None, mtype="ising"):
        self.s = [Bag() for _ in range(4)]
        self.k = dict(algorithm=algorithm, algorithm_options=options or {}, map_fn=map_fn or (lambda m, s, e, i, o: m),
                      solve_fn=solve_fn or (lambda sv, m, s, e, i, o: None), unmap_fn=unmap_fn or (lambda s, e, i, o: (list(e), list(i), list(o))), solver=None, initial_mtype=mtype)
        self.fn = AbstractAlgorithm.SolveDoFn()
    def window(self, t, elements):
        return list(self.fn.process((None, elements), timestamp=Timestamp(t), timestamp_state=self.s[0], elements_state=self.s[1], model_state=self.s[2], sampleset_state=self.s[3], **self.k))
"""

bug("c19-same-payload", "C19", [(AA, """                    for v in reversed(sorted_elements):
                        if v[0] <= prev_elements[-1][0]:
                            break
                        incoming.insert(0, v)
""", """                    known = {p[1][1] for p in prev_elements if p[0] >= sorted_elements[0][0]}
                    for v in sorted_elements:
                        if v[1][1] not in known:
                            incoming.append(v)
""")],
    "a sliding window in which a new element carries the same payload as one that stays",
    "the new element is missing from incoming", SDEMO + """
r = Run("window")
r.window(9.5, [(1.0, (0, "a")), (6.0, (1, "b"))])
(out,) = r.window(14.5, [(6.0, (1, "b")), (12.0, (2, "b")), (13.0, (3, "c"))])
assert out[1] == [(12.0, (2, "b")), (13.0, (3, "c"))], out
""")

bug("c20-sampleset-dropped", "C20", [(AA, """            # Solve and unmap to the solution
            try:
                sampleset = solve_fn(solver, model, prev_sampleset, sorted_elements, incoming, outgoing)
            except Exception as e:
                yield f"Failed to solve: {e}\\n{traceback.format_exc()}"
                return

            # Clear the BagState so we can hold only the latest state, and
            # Register new sampleset to the state
            sampleset_state.clear()
            sampleset_state.add(sampleset)
""", """            # Clear the BagState so we can hold only the latest state, and
            # Register new sampleset to the state
            sampleset_state.clear()

            # Solve and unmap to the solution
            try:
                sampleset = solve_fn(solver, model, prev_sampleset, sorted_elements, incoming, outgoing)
            except Exception as e:
                yield f"Failed to solve: {e}\\n{traceback.format_exc()}"
                return
            sampleset_state.add(sampleset)
""")],
    "three windows, the middle one failing in the solve callback",
    "the third window gets no previous sample set although the first one produced one", SDEMO + """
seen = []
def solve(sv, m, prev, e, i, o):
    seen.append(prev)
    if len(seen) == 2:
        raise RuntimeError("x")
    return len(seen)
r = Run("window", solve_fn=solve, unmap_fn=lambda s, e, i, o: "ok")
for t in (1, 2, 3):
    r.window(t, [(float(t), "a")])
assert seen == [None, 1, 1], seen
""")

bug("c20-mtype-after-failure", "C20", [(AA, """            # Clear the BagState so we can hold only the latest state, and
            # Register new model to the state
            model_state.clear()
            model_state.add(model)

            # Algorithm specific operations
            # Attenuation: Update scale based on data timestamp.
""", """            # Algorithm specific operations
            # Attenuation: Update scale based on data timestamp.
"""), (AA, """            sampleset_state.clear()
            sampleset_state.add(sampleset)
""", """            model_state.clear()
            model_state.add(model)
            sampleset_state.clear()
            sampleset_state.add(sampleset)
""")],
    "a window whose map succeeds and whose solve fails, and whose model is a new object rather than the previous one changed in place",
    "the model mapped for that window is lost, later windows continue from an older model", SDEMO + """
from sawatabi.model import LogicalModel
seen = []
def mp(prev, s, e, i, o):
    seen.append(len(prev.get_variables()))
    m = LogicalModel(mtype="ising")
    m.merge(prev)
    m.variables(f"x{len(seen)}", shape=(1,))
    return m
def solve(sv, m, prev, e, i, o):
    if len(seen) == 1:
        raise RuntimeError("x")
    return len(seen)
r = Run("window", map_fn=mp, solve_fn=solve, unmap_fn=lambda s, e, i, o: "ok")
for t in (1, 2):
    r.window(t, [(float(t), "a")])
assert seen == [0, 1], seen
""")

bug("c21-removed-take-part", "C21", [(AA, """                model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
""", """                if any(model._interactions_array["dirty"]) and not any(model._interactions_array["removed"][-1:]):
                    model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
""")],
    "a window whose map removes interactions, the most recently added one among them",
    "removed interactions define the age range, so live interactions get wrong scales", SDEMO + """
from sawatabi.model import LogicalModel
def mp(prev, s, e, i, o):
    x = prev.variables("x", shape=(4,))
    for k, t in enumerate([10.0, 20.0, 30.0, 50.0]):
        prev.add_interaction(x[k], coefficient=1.0, timestamp=t)
    prev.remove_interaction(x[3])
    return prev
got = {}
def solve(sv, m, prev, e, i, o):
    got.update(m.to_physical()._raw_interactions[1])
r = Run("attenuation", {"attenuation.key": "timestamp", "attenuation.min_scale": 0.5}, map_fn=mp, solve_fn=solve)
r.window(1, [(1.0, "a")])
assert got == {"x[0]": 0.5, "x[1]": 0.75, "x[2]": 1.0}, got
""")

bug("c22-mtype-not-forwarded", "C22", [(AA, """                unmap_fn=unmap_fn,
                solver=solver,
                initial_mtype=initial_mtype,
            ))
""", """                unmap_fn=unmap_fn,
                solver=solver,
                **({"initial_mtype": initial_mtype} if solver is not None else {}),
            ))
""")],
    "a pipeline created with initial_mtype='qubo' and solver=None (the solve callback brings its own solver)",
    "callbacks start from an Ising model instead of the configured QUBO model", """
import apache_beam as beam
from sawatabi.algorithm import Delta
seen = []
def mp(prev, s, e, i, o):
    if prev.get_mtype() != "qubo":
        raise RuntimeError("model type " + prev.get_mtype())
    return prev
import tempfile, os, glob
with tempfile.TemporaryDirectory() as d:
    p = Delta.create_pipeline(algorithm_options={"window.size": 2, "input.reassign_timestamp": True}, input_fn=beam.Create([1, 2]), map_fn=mp,
        solve_fn=lambda sv, m, ps, e, i, o: None, unmap_fn=lambda s, e, i, o: "fine", output_fn=beam.io.WriteToText(os.path.join(d, "o")), solver=None, initial_mtype="qubo")
    p.run().wait_until_finish()
    text = "".join(open(f).read() for f in glob.glob(os.path.join(d, "o*")))
assert text.split() == ["fine"], text
""")

bug("c23-rounded-half", "C23", [("sawatabi/utils/npp.py", """    s = int(s2 / 2)
""", """    s = round(s2 / 2)
""")],
    "numbers whose sum leaves remainder 3 when divided by 4, and a reachable sum just above the half",
    "the side reported as smaller may be the larger one, and optimal choices of the smaller side are not the ones listed", """
from itertools import combinations
from sawatabi.utils import solve_npp_with_dp
for nums in ([1, 2], [1, 1, 1], [3, 4], [2, 2, 3]):
    ok, a, b = solve_npp_with_dp(list(nums), enumerate_all=True)
    total = sum(nums)
    best = max(sum(nums[i] for i in c) for r in range(len(nums) + 1) for c in combinations(range(len(nums)), r) if 2 * sum(nums[i] for i in c) <= total)
    want = sorted(list(c) for r in range(len(nums) + 1) for c in combinations(range(len(nums)), r) if sum(nums[i] for i in c) == best)
    assert sorted(sorted(x) for x in a) == want, (nums, a, want)
""")

bug("c24-unicode-digits", "C24", [("sawatabi/algorithm/io.py", """        number_pattern = re.compile(r"^[0-9]+$")
""", """        number_pattern = re.compile(r"^\\d+$")
""")],
    "a line of digits from another script, such as fullwidth digits",
    "the line is passed on as a number although it has no ASCII digits", """
import apache_beam as beam, tempfile, os, glob
from sawatabi.algorithm.io import IO
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "in"), "w", encoding="utf-8").write("12\\n\\uff13\\uff14\\n5\\n")
    with beam.Pipeline() as p:
        p | IO.read_from_text_as_number(os.path.join(d, "in")) | beam.Map(str) | beam.io.WriteToText(os.path.join(d, "o"))
    got = sorted("".join(open(f).read() for f in glob.glob(os.path.join(d, "o*"))).split())
assert got == ["12", "5"], got
""")

bug("c25-three-dimensions", "C25", [(LM, """            size = 1
            for s in variables.shape:
                size *= s
            all_size += size
""", """            rows, cols = variables.shape[0], variables.shape[-1]
            all_size += rows if len(variables.shape) == 1 else rows * cols
""")],
    "an array with three dimensions",
    "the total and live sizes ignore the middle dimension", """
from sawatabi.model import LogicalModel
m = LogicalModel(mtype="ising")
m.variables("x", shape=(2, 3, 2))
assert m.get_all_size() == 12 and m.get_size() == 12, m.get_all_size()
""")

bug("c26-fixed-ignored", "C26", [(LM, """            and (self._deleted == other._deleted)
            and (self._fixed == other._fixed)
""", """            and (list(self._deleted) + list(self._fixed) == list(other._deleted) + list(other._fixed))
""")],
    "two models in which the same variable is deleted in one and fixed in the other, all else equal",
    "they compare equal although their deleted and fixed variables differ", """
from sawatabi.model import LogicalModel
a, b = LogicalModel(mtype="ising"), LogicalModel(mtype="ising")
xa, xb = a.variables("x", shape=(2,)), b.variables("x", shape=(2,))
a.delete_variable(xa[0])
b.fix_variable(xb[0], 1)
assert a != b
assert not (a == b)
""")

bug("c27-gap", "C27", [(AA, """                for p in prev_elements:
                    if p[0] >= sorted_elements[0][0]:
                        break
                    outgoing.append(p)
                return outgoing
""", """                # All elements of the previous window which are out of the current one
                overlap = [p for p in prev_elements if p in sorted_elements]
                if overlap:
                    outgoing = prev_elements[: prev_elements.index(overlap[0])]
                return outgoing
""")],
    "a window that shares no element with the previous one",
    "elements of the previous window are never reported as outgoing, so their interactions stay in the model", SDEMO + """
from sawatabi.model import LogicalModel
def mp(prev, s, e, i, o):
    for t, k in i:
        x = prev.append("x", shape=(1,)) if "x" in prev.get_variables() else prev.variables("x", shape=(1,))
        prev.add_interaction(x[k], coefficient=1.0 + k)
    for t, k in o:
        prev.delete_variable(prev.get_variables_by_name("x")[k])
    return prev
got = []
r = Run("window", map_fn=mp, solve_fn=lambda sv, m, p, e, i, o: got.append(m.to_physical()._raw_interactions[1]))
r.window(4, [(1.0, 0), (2.0, 1)])
r.window(9, [(7.0, 2)])
assert got[-1] == {"x[2]": 3.0}, got
""")
