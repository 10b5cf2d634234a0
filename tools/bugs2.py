import importlib.util, os
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SDEMO, LM, PM, SS, AA = _m.SDEMO, _m.LM, _m.PM, _m.SS, _m.AA
BUGS = []
MDL = "from sawatabi.model import LogicalModel\n"


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c03-linear-scale", "C03", [(LM, """                    self._offset += -1 * value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
""", """                    self._offset += -1 * value * self._interactions_array["coefficient"][idx]
""")], "fixing a variable whose linear interaction has a scale other than 1", "the offset gets the unscaled coefficient", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=2.0, scale=0.5)
m.fix_variable(x[0], 1)
assert m.get_offset() == -1.0, m.get_offset()
""")

bug("c03-partial-fix", "C03", [(LM, """                    self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                    self.remove_interaction(name=s)
""", """                    if self._has_name(interacts_to.label) and not self._is_removed(interacts_to.label) and new_coefficient:
                        # Fold it into the existing 1-body interaction
                        at = self._interactions_array["name"].index(interacts_to.label)
                        self._interactions_array["coefficient"][at] += new_coefficient
                        self.add_interaction(target=interacts_to, name=new_name)
                    else:
                        self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                    self.remove_interaction(name=s)
""")], "fixing a variable whose neighbour has a linear interaction with a scale other than 1", "the folded coefficient is multiplied by the neighbour's scale", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[1], coefficient=1.0, scale=0.5)
m.add_interaction((x[0], x[1]), coefficient=2.0)
m.fix_variable(x[0], -1)
assert m.to_physical()._raw_interactions[1] == {"x[1]": -1.5}, m.to_physical()
""")

bug("c05-scale-reset", "C05", [(LM, """                self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
""", """                self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0, scale=1.0)
""")], "converting an Ising model with a scaled pair interaction to QUBO", "the pair term loses its scale while the added linear terms keep it", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=1.0, scale=0.5)
m.to_qubo()
assert m.to_physical()._raw_interactions[2] == {("x[0]", "x[1]"): 2.0}, m.to_physical()
""")

bug("c05-shape-lost", "C05", [(LM, """        vartype = self._modeltype_to_vartype(self._mtype)
        for name, variable in self._variables.items():
            self._variables[name] = pyqubo.Array.create(name, shape=variable.shape, vartype=vartype)
""", """        vartype = self._modeltype_to_vartype(self._mtype)
        for name, variable in self._variables.items():
            shape = variable.shape if len(variable.shape) < 3 else variable.shape[:1] + tuple(sorted(variable.shape[1:]))
            self._variables[name] = pyqubo.Array.create(name, shape=shape, vartype=vartype)
""")], "a 3-dimensional array whose second dimension is larger than its third, converted", "the array's shape changes on conversion", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(1, 3, 2))
m.add_interaction(x[0, 2, 1], coefficient=1.0)
m.to_qubo()
assert m.get_variables_by_name("x").shape == (1, 3, 2), m.get_variables_by_name("x").shape
assert m.to_physical()._raw_interactions[1] == {"x[0][2][1]": 2.0}
assert len(m.to_physical()._label_to_index) == 1
""")

bug("c12-three-dims", "C12", [(LM, """            variable_1 = self.get_variables_by_name(structure[k[1]][0])
            target_1 = variable_1[structure[k[1]][1:]]
""", """            variable_1 = self.get_variables_by_name(structure[k[1]][0])
            target_1 = variable_1[structure[k[0]][1:2] + structure[k[1]][2:]] if k[0] == k[1] or len(structure[k[1]]) > 3 else variable_1[structure[k[1]][1:]]
""")], "a product of two variables of a 3-dimensional array that differ in the first index", "the second variable of the product is taken from the wrong plane", MDL + """
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2, 2, 2))
m.from_pyqubo(2.0 * x[0, 0, 1] * x[1, 1, 0])
assert m.to_physical()._raw_interactions[2] == {("x[0][0][1]", "x[1][1][0]"): -2.0}, m.to_physical()
""")

bug("c19-arrival-order", "C19", [(AA, """            sorted_elements = sorted(elements)

""", """            sorted_elements = sorted(elements, key=lambda element: element[1])

""")], "elements of a window that arrive out of event-time order", "callbacks see elements in arrival order, and incoming/outgoing are computed from the wrong ends", SDEMO + """
r = Run("window")
(out,) = r.window(9.5, [(6.0, (0, "a")), (1.0, (1, "b"))])
assert out[0] == [(1.0, (1, "b")), (6.0, (0, "a"))], out
""")

bug("c19-truncated-time", "C19", [(AA, """            yield (float(timestamp), data)
""", """            yield (float(int(timestamp)), data)
""")], "event times that are not whole seconds, two of them within one second in different windows", "new elements are missed as incoming because their time looks old", """
import apache_beam as beam, tempfile, os, glob
from sawatabi.algorithm import Delta
with tempfile.TemporaryDirectory() as d:
    src = beam.Create([beam.window.TimestampedValue(v, t) for v, t in [("a", 0.25), ("b", 0.5), ("c", 0.75)]])
    p = Delta.create_pipeline(algorithm_options={"window.size": 0.5}, input_fn=src, map_fn=lambda m, s, e, i, o: m, solve_fn=lambda sv, m, s, e, i, o: None,
        unmap_fn=lambda s, e, i, o: f"{[x[0] for x in e]} {len(i)} {len(o)}", output_fn=beam.io.WriteToText(os.path.join(d, "o")))
    p.run().wait_until_finish()
    text = sorted("".join(open(f).read() for f in glob.glob(os.path.join(d, "o*"))).splitlines())
assert text == ["[0.25] 1 0", "[0.5, 0.75] 2 1"], text
""")

bug("c19-newest-first", "C19", [(AA, """                        incoming.insert(0, v)
""", """                        incoming.insert(min(len(incoming), 1), v)
""")], "a later window with at least two new elements", "incoming elements are not in event-time order", SDEMO + """
r = Run("window")
r.window(9.5, [(1.0, (0, "a"))])
(out,) = r.window(14.5, [(12.0, (1, "b")), (13.0, (2, "c")), (14.0, (3, "d"))])
assert [e[0] for e in out[1]] == [12.0, 13.0, 14.0], out
""")

bug("c23-single-number", "C23", [("sawatabi/utils/npp.py", """    for i in range(s, -1, -1):
        if dp[i][n][0]:
""", """    for i in range(s, 0, -1):
        if dp[i][n][0]:
""")], "a list in which every number exceeds half of the total, i.e. a single number", "the partitioner returns nothing instead of the empty side and the number", """
from sawatabi.utils import solve_npp_with_dp
assert solve_npp_with_dp([5]) == (False, [[]], [[0]]), solve_npp_with_dp([5])
""")

bug("c23-duplicates", "C23", [("sawatabi/utils/npp.py", """                        if len(dp[i][j][1]) != 0:
                            solution.extend(dp[i][j][1])
""", """                        if len(dp[i][j][1]) != 0 and numbers[j - 1] not in numbers[: j - 1]:
                            solution.extend(dp[i][j][1])
""")], "enumerating all partitions of a list with repeated numbers", "choices that use the first of two equal numbers are lost", """
from itertools import combinations
from sawatabi.utils import solve_npp_with_dp
for nums in ([1, 2, 3, 2], [2, 1, 1, 2], [3, 3, 1, 1], [1, 1, 2, 4]):
    ok, a, b = solve_npp_with_dp(list(nums), enumerate_all=True)
    total, n = sum(nums), len(nums)
    subs = [c for r in range(n + 1) for c in combinations(range(n), r)]
    best = max(sum(nums[i] for i in c) for c in subs if 2 * sum(nums[i] for i in c) <= total)
    want = sorted(list(c) for c in subs if sum(nums[i] for i in c) == best)
    assert sorted(sorted(x) for x in a) == want, (nums, a, want)
""")

bug("c25-append-type", "C25", [(LM, """        new_shape = Functions.elementwise_add(self._variables[name].shape, shape)
        vartype = self._modeltype_to_vartype(self._mtype)
""", """        new_shape = Functions.elementwise_add(self._variables[name].shape, shape)
        vartype = "SPIN" if len(new_shape) > 2 else self._modeltype_to_vartype(self._mtype)
""")], "appending to a 3-dimensional array of a QUBO model", "the appended array holds spins instead of binary variables", MDL + """
import pyqubo
m = LogicalModel(mtype="qubo"); m.variables("x", shape=(1, 1, 1))
x = m.append("x", shape=(1, 0, 0))
assert isinstance(x[1, 0, 0], pyqubo.Binary), type(x[1, 0, 0])
""")

bug("c25-append-dims", "C25", [("sawatabi/utils/functions.py", """    def elementwise_add(cls, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(map(operator.add, a, b))
""", """    def elementwise_add(cls, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(x if i > 1 else x + y for i, (x, y) in enumerate(zip(a, b)))
""")], "appending along the third dimension", "the array does not grow", MDL + """
m = LogicalModel(mtype="qubo"); m.variables("x", shape=(1, 1, 1))
assert m.append("x", shape=(0, 0, 2)).shape == (1, 1, 3), m.get_variables_by_name("x").shape
assert m.get_all_size() == 3
""")

bug("c02-update-by-key", "C02", [(LM, """        update_idx = self._interactions_array["name"].index(internal_name)

""", """        update_idx = self._interactions_array["name"].index(internal_name) if name else self._interactions_array["key"].index(interaction_info["key"])

""")], "an earlier interaction with its own name on the same target, then an update by target", "the update changes the other interaction", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], name="mine", coefficient=1.0)
m.add_interaction(x[0], coefficient=2.0)
m.update_interaction(x[0], coefficient=5.0)
assert m._interactions_array["coefficient"] == [1.0, 5.0], m._interactions_array["coefficient"]
""")

bug("c02-rejected-add", "C02", [(LM, """        if body == 1:
            keys = (interaction_info["key"], np.nan)
""", """        for k in attributes:
            if not isinstance(k, str):
                raise TypeError("Attribute keys must be strings.")
        if body == 1:
            keys = (interaction_info["key"], np.nan)
"""), (LM, """        if self._has_name(internal_name):
            if not self._is_removed(internal_name):
                raise ValueError(f"An interaction named '{internal_name}' already exists. Cannot add the same name.")
            raise ValueError(f"An interaction named '{internal_name}' is already removed.")

        for k in attributes:
""" if False else """            raise ValueError(f"An interaction named '{internal_name}' is already removed.")

        if body == 1:
""", """            if body == constants.INTERACTION_LINEAR and not attributes:
                self._interactions_array["timestamp"][self._interactions_array["name"].index(internal_name)] = timestamp
            raise ValueError(f"An interaction named '{internal_name}' is already removed.")

        if body == 1:
""")][1:], "re-adding a removed linear interaction", "the rejected call changes the removed interaction's timestamp", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0, timestamp=1)
m.remove_interaction(x[0])
try:
    m.add_interaction(x[0], coefficient=1.0, timestamp=9)
except ValueError:
    pass
assert m._interactions_array["timestamp"] == [1], m._interactions_array["timestamp"]
""")

bug("c06-one-conflict-checked", "C06", [(LM, """                if len(value.shape) != len(other._variables[key].shape):
                    raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
""", """                if len(value.shape) != len(other._variables[key].shape):
                    raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
                break
""")], "two shared arrays, only the second of which has different dimensions", "the conflicting merge is accepted", MDL + """
a, b = LogicalModel(mtype="qubo"), LogicalModel(mtype="qubo")
for m, s in ((a, (2,)), (b, (2, 2))):
    m.variables("x", shape=(2,)); m.variables("y", shape=s)
try:
    a.merge(b)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("c06-attribute-shift", "C06", [(LM, """                merged_interactions_with_duplication[attr] = ([np.nan] * self._interactions_length) + other._interactions_array[attr]
""", """                merged_interactions_with_duplication[attr] = other._interactions_array[attr] + ([np.nan] * self._interactions_length)
""")], "merging a model with an attribute the receiving model does not have", "attributes move to other interactions", MDL + """
a, b = LogicalModel(mtype="qubo"), LogicalModel(mtype="qubo")
x = a.variables("x", shape=(2,)); b.variables("x", shape=(2,))
a.add_interaction(x[0], coefficient=1.0)
b.add_interaction(x[1], coefficient=1.0, attributes={"t": 7})
a.merge(b)
assert a.get_attribute(x[1], key="attributes.t") == 7
""")

bug("c07-unsatisfiable-skipped", "C07", [("sawatabi/model/constraint/n_hot_constraint.py", """        for var in self._variables:
            coeff = -1.0 * self._strength * (1 - 2 * self._n)
""", """        for var in self._variables:
            coeff = -1.0 * self._strength * (1 - 2 * min(self._n, len(self._variables)))
""")], "an n-hot constraint with n larger than its number of variables", "the penalty is that of a smaller n", MDL + """
from sawatabi.model.constraint import NHotConstraint
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
m.add_constraint(NHotConstraint(variables=[x[0]], n=3))
assert m.to_physical()._raw_interactions[1] == {"x[0]": 5.0}, m.to_physical()
""")

bug("c08-other-side", "C08", [("sawatabi/model/constraint/equality_constraint.py", """        for v in variables_set:
            if v not in self._variables_2:
                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
""", """        for v in variables_set:
            if v not in self._variables_2 and v not in self._variables_1:
                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
""")], "removing from the second set a variable that is only in the first", "the call is accepted instead of rejected", MDL + """
from sawatabi.model.constraint import EqualityConstraint
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
c = EqualityConstraint(variables_1=[x[0]], variables_2=[x[1]])
try:
    c.remove_variable_from_2(x[0])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("c09-offset-accumulates", "C09", [(LM, """        # self._variables = original_variables  # Variables were not changed
        self._offset = original_offset
""", """        # self._variables = original_variables  # Variables were not changed
        if len(self._constraints) < 2:
            self._offset = original_offset
""")], "an Ising model with two or more constraints, converted", "the constraints' constants are added to the logical model's offset at every conversion", MDL + """
from sawatabi.model.constraint import NHotConstraint
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(3,))
m.add_constraint(NHotConstraint([x[0], x[1]], label="a"))
m.add_constraint(NHotConstraint([x[1], x[2]], label="b"))
a = m.to_physical(); b = m.to_physical()
assert m.get_offset() == 0.0 and a == b, m.get_offset()
""")

bug("c14-bqm-order", "C14", [(SS, """        sample = dict(zip(list(self._model._index_to_label.values()), x))

        # Check energy if needed
""", """        sample = dict(zip(self._bqm.variables, x))

        # Check energy if needed
""")], "a model in which a later variable has a linear term and an earlier one occurs only in pairs", "values are assigned to the wrong variables, so the reported energy is not the sample's", MDL + """
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[1], coefficient=3.0)
m.add_interaction((x[0], x[1]), coefficient=1.0)
p = m.to_physical(); b = p.to_bqm()
for seed in range(20):
    for d in SawatabiSolver().solve(p, num_sweeps=1, initial_temperature=50.0, seed=seed).data():
        assert abs(b.energy(d.sample) - d.energy) < 1e-9, d
""")

bug("c16-randoms-reused", "C16", [(SS, """        self._accept_randoms = self._rng.random(size=num_sweeps * num_variables)
        self._accept_randoms_idx = -1
""", """        size = num_sweeps * num_variables
        if getattr(self, "_accept_randoms", None) is None or len(self._accept_randoms) != size:
            self._accept_randoms = self._rng.random(size=size)
        self._accept_randoms_idx = -1
""")], "two solves with one solver object, or several reads", "acceptance draws of an earlier run are used again, so equal seeds do not give equal results and reads are not independent", MDL + """
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(4,))
for i in range(4):
    m.add_interaction(x[i], coefficient=1.0)
    for j in range(i):
        m.add_interaction((x[i], x[j]), coefficient=-1.0)
p = m.to_physical()
def hist(s, seed):
    return s.solve(p, num_sweeps=10, initial_temperature=5.0, seed=seed, need_stats=True)[1][0]["energy_history"]
for seed in range(1, 6):
    s = SawatabiSolver(); hist(s, seed + 100)
    assert hist(s, seed) == hist(SawatabiSolver(), seed), seed
""")

bug("c16-too-many-states", "C16", [(SS, """        if initial_states and (len(initial_states) != num_reads):
""", """        if initial_states and (len(initial_states) < num_reads):
""")], "more initial states than reads", "the call is accepted and the rest of the states ignored", MDL + """
from sawatabi.solver import SawatabiSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
try:
    SawatabiSolver().solve(m.to_physical(), num_reads=1, initial_states=[{"x[0]": 1}, {"x[0]": -1}])
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""")

bug("c17-extra-option", "C17", [("sawatabi/solver/local_solver.py", """            sampleset = self._solver.sample(bqm, **kwargs)
""", """            if "num_reads" in kwargs:
                # More sweeps do not pay off with many reads
                kwargs.setdefault("num_sweeps", 1000 if kwargs["num_reads"] < 100 else 200)
            sampleset = self._solver.sample(bqm, **kwargs)
""")], "solving locally with num_reads and without num_sweeps", "the sampler gets an option the caller did not give", MDL + """
import dimod
from sawatabi.solver import LocalSolver
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
s = LocalSolver(); seen = []
class Rec:
    def sample(self, bqm, **kw):
        seen.append(kw); return dimod.ExactSolver().sample(bqm)
s._solver = Rec()
s.solve(m.to_physical(), num_reads=100)
assert seen == [{"num_reads": 100}], seen
""")

bug("c18-sorted-energies", "C18", [("sawatabi/solver/optigan_solver.py", """vartype=dimod.BINARY, energy=result["energies"], aggregate_samples=True""", """vartype=dimod.BINARY, energy=sorted(result["energies"]), aggregate_samples=True""")],
    "an answer whose energies are not in ascending order", "energies are attached to the wrong samples", MDL + """
from unittest import mock
from sawatabi.solver import OptiganSolver
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
p = m.to_physical()
class R:
    status_code = 200
    def json(self): return {"spins": [[0], [1]], "energies": [0.0, -1.0]}
with mock.patch("requests.post", lambda *a, **k: R()):
    ss = OptiganSolver(endpoint="http://x", token="t").solve(p)
assert {(d.sample["x[0]"], d.energy) for d in ss.data()} == {(0, 0.0), (1, -1.0)}, ss
""")

bug("c18-status-range", "C18", [("sawatabi/solver/optigan_solver.py", """        if response.status_code != 200:
""", """        if not 200 <= response.status_code < 400:
""")], "an answer with a status such as 202 (accepted, no result) or 304", "the failed response is interpreted as a result", MDL + """
from unittest import mock
from sawatabi.solver import OptiganSolver
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
p = m.to_physical()
class R:
    status_code = 202
    def json(self): return {"spins": [[0]], "energies": [0.0]}
with mock.patch("requests.post", lambda *a, **k: R()):
    try:
        OptiganSolver(endpoint="http://x", token="t").solve(p)
    except ValueError:
        pass
    else:
        raise SystemExit("accepted")
""")

bug("c20-equal-time", "C20", [(AA, """            if float(timestamp) < float(prev_timestamp):
""", """            if float(timestamp) <= float(prev_timestamp):
""")], "two windows with the same event time", "the second one is dropped as outdated", SDEMO + """
r = Run("delta", unmap_fn=lambda s, e, i, o: "ok")
assert r.window(5, [(1.0, (0, "a"))]) == ["ok"]
out = r.window(5, [(2.0, (1, "b"))])
assert out == ["ok"], out
""")

bug("c20-outdated-advances", "C20", [(AA, """            # Sometimes, when we use the sliding window algorithm for a bounded data (such as a local file),
""", """            if len(timestamp_state_as_list) == 0 or float(timestamp) != float(timestamp_state_as_list[-1]):
                timestamp_state.clear()
                timestamp_state.add(timestamp)

            # Sometimes, when we use the sliding window algorithm for a bounded data (such as a local file),
"""), (AA, """            timestamp_state.clear()
            timestamp_state.add(timestamp)
            elements_state.clear()
""", """            elements_state.clear()
""")], "an outdated window followed by one that is newer than it but older than the last processed one", "the second one is processed although it is outdated", SDEMO + """
r = Run("window", unmap_fn=lambda s, e, i, o: "ok")
assert r.window(9, [(8.0, (0, "a"))]) == ["ok"]
assert "outdated" in r.window(3, [(2.0, (1, "b"))])[0]
out = r.window(5, [(4.0, (2, "c"))])
assert "outdated" in out[0], out
""")

bug("c21-only-new", "C21", [(AA, """                    for i, t in enumerate(ref_timestamp):
""", """                    for i, t in enumerate(ref_timestamp):
                        if model._interactions_array["scale"][i] == min_scale:
                            continue  # As old as can be
""")], "an interaction that starts with the minimum scale (or was once the oldest) but is not the oldest now", "its scale is not raised to what its age asks for", SDEMO + """
from sawatabi.model import LogicalModel
def mp(prev, s, e, i, o):
    x = prev.variables("x", shape=(3,))
    for k, t in enumerate([10.0, 20.0, 30.0]):
        prev.add_interaction(x[k], coefficient=1.0, timestamp=t, scale=0.5 if k == 1 else 1.0)
    return prev
got = {}
r = Run("attenuation", {"attenuation.key": "timestamp", "attenuation.min_scale": 0.5}, map_fn=mp, solve_fn=lambda sv, m, p, e, i, o: got.update(m.to_physical()._raw_interactions[1]))
r.window(1, [(1.0, "a")])
assert got == {"x[0]": 0.5, "x[1]": 0.75, "x[2]": 1.0}, got
""")

bug("c22-suffix-before-time", "C22", [(AA, """        if "output.with_timestamp" in algorithm_options:
            solved = (solved
                | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn()))

        if "output.prefix" in algorithm_options:
            solved = (solved
                | "Add output prefix" >> beam.Map(lambda element: algorithm_options["output.prefix"] + element))
""", """        if "output.prefix" in algorithm_options and "output.suffix" not in algorithm_options:
            solved = (solved
                | "Add output prefix" >> beam.Map(lambda element: algorithm_options["output.prefix"] + element))

        if "output.with_timestamp" in algorithm_options:
            solved = (solved
                | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn()))

        if "output.prefix" in algorithm_options and "output.suffix" in algorithm_options:
            solved = (solved
                | "Add output prefix" >> beam.Map(lambda element: algorithm_options["output.prefix"] + element))
""")], "output options with prefix and timestamp but no suffix", "the prefix comes after the timestamp", """
import apache_beam as beam, tempfile, os, glob
from sawatabi.algorithm import Delta
with tempfile.TemporaryDirectory() as d:
    p = Delta.create_pipeline(algorithm_options={"window.size": 2, "output.prefix": "<<", "output.with_timestamp": True, "input.reassign_timestamp": True}, input_fn=beam.Create([1]), map_fn=lambda m, s, e, i, o: m,
        solve_fn=lambda sv, m, s, e, i, o: None, unmap_fn=lambda s, e, i, o: "x", output_fn=beam.io.WriteToText(os.path.join(d, "o")))
    p.run().wait_until_finish()
    text = "".join(open(f).read() for f in glob.glob(os.path.join(d, "o*")))
assert text.startswith("<<["), text
""")

bug("c22-attenuation-period", "C22", [("sawatabi/algorithm/attenuation.py", """beam.window.SlidingWindows(size=algorithm_options["window.size"], period=algorithm_options["window.period"])""", """beam.window.SlidingWindows(size=algorithm_options["window.size"], period=min(algorithm_options["window.size"], algorithm_options["window.period"]))""")],
    "an attenuation pipeline whose period is larger than its window size (sampling windows)", "extra windows are processed", """
import apache_beam as beam, tempfile, os, glob
from sawatabi.algorithm import Attenuation
with tempfile.TemporaryDirectory() as d:
    p = Attenuation.create_pipeline(algorithm_options={"window.size": 1, "window.period": 3, "input.reassign_timestamp": True, "attenuation.key": "timestamp", "attenuation.min_scale": 0.5}, input_fn=beam.Create([1, 2, 3]), map_fn=lambda m, s, e, i, o: m,
        solve_fn=lambda sv, m, s, e, i, o: None, unmap_fn=lambda s, e, i, o: "x", output_fn=beam.io.WriteToText(os.path.join(d, "o")))
    p.run().wait_until_finish()
    text = "".join(open(f).read() for f in glob.glob(os.path.join(d, "o*")))
assert text.split() == ["x"], text
""")

bug("c24-multiline", "C24", [("sawatabi/algorithm/io.py", """        number_pattern = re.compile(r"^[0-9]+$")
""", """        number_pattern = re.compile(r"^[0-9]+$", re.MULTILINE)
""")], "a Pub/Sub message of several lines whose first line is a number", "the message passes the filter and breaks the conversion", """
import apache_beam as beam, tempfile, os, glob
from sawatabi.algorithm.io import IO
with tempfile.TemporaryDirectory() as d:
    with beam.Pipeline() as p:
        IO._read_as_number(p | beam.Create(["1", "2\\nabc", "3"])) | beam.Map(str) | beam.io.WriteToText(os.path.join(d, "o"))
    got = sorted("".join(open(f).read() for f in glob.glob(os.path.join(d, "o*"))).split())
assert got == ["1", "3"], got
""")

bug("c26-strength-tolerance", "C26", [("sawatabi/model/constraint/equality_constraint.py", """            and (self._strength == other._strength)
""", """            and (abs(self._strength - other._strength) < 1e-6)
""")], "two equality constraints whose strengths differ by less than a millionth", "they compare equal", MDL + """
from sawatabi.model.constraint import EqualityConstraint
assert EqualityConstraint(strength=1.0) != EqualityConstraint(strength=1.0 + 1e-7)
""")

bug("c10-pair-only", "C10", [(LM, """                physical._variables_set.add(k[0])
                physical._variables_set.add(k[1])
""", """                physical._variables_set.update(k if v > 0.0 or k[0] in linear else k[1:])
""")], "a variable that occurs only first in pairs with negative coefficients", "the variable gets no index, to_polynomial and the solvers fail", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction((x[0], x[1]), coefficient=-1.0)
assert m.to_physical()._label_to_index == {"x[0]": 0, "x[1]": 1}
""")

bug("c11-offset-type", "C11", [(PM, """        bqm = dimod.BinaryQuadraticModel(linear, quadratic, self._offset, vartype)
""", """        offset = self._offset if quadratic or vartype is dimod.BINARY else sign * -1.0 * self._offset
        bqm = dimod.BinaryQuadraticModel(linear, quadratic, offset, vartype)
""")], "an Ising model with linear terms only, converted with sign 1", "the offset changes sign", MDL + """
m = LogicalModel(mtype="ising"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0); m.offset(4.0)
assert m.to_physical().to_bqm(sign=1.0).offset == 4.0
""")

bug("c13-offset-once", "C13", [(LM, """            offset = self._offset.evaluate(feed_dict=placeholder)
""", """            offset = self._offset.evaluate(feed_dict=placeholder)
            original_offset = offset
""")], "a compiled PyQUBO model with a placeholder in its constant, imported and converted twice with different values", "the second conversion uses the first value for the offset", MDL + """
import pyqubo, collections
m = LogicalModel(mtype="qubo"); x = m.variables("x", shape=(2,))
m.add_interaction(x[0], coefficient=1.0)
e = pyqubo.Placeholder("a") + x[0]
m.from_pyqubo((pyqubo.Placeholder("a") + x[1]).compile())
r = [m.to_physical(placeholder={"a": v}).get_offset() for v in (2.0, 5.0)]
assert r == [2.0, 5.0], r
""")
