NH = "sawatabi/model/constraint/n_hot_constraint.py"
EQ = "sawatabi/model/constraint/equality_constraint.py"
ZO = "sawatabi/model/constraint/zero_or_one_hot_constraint.py"
AC = "sawatabi/model/constraint/abstract_constraint.py"
PM = "sawatabi/model/physical_model.py"
SS = "sawatabi/solver/sawatabi_solver.py"
AA = "sawatabi/algorithm/abstract_algorithm.py"
GROUPS = {
    "cons": {"checks": ["C04", "C06", "C07", "C08", "C09", "C10", "C26", "C28"], "tests": ["tests/model"], "edits": [
        (NH, '''        for var in self._variables:
            coeff = -1.0 * self._strength * (1 - 2 * self._n)
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
            for adj in self._variables:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''        ordered = sorted(self._variables, key=lambda v: v.label)
        linear = (2 * self._n - 1) * self._strength
        for i, var in enumerate(ordered):
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=linear)
        for var, adj in itertools.combinations(ordered, 2):
            model.add_interaction((adj, var), name=f"{var.label}*{adj.label} ({self._label})", coefficient=-(self._strength + self._strength))
'''),
        (NH, '''import sawatabi
''', '''import itertools

import sawatabi
'''),
        (NH, '''        for v in variables_set:
            if v not in self._variables:
                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
        self._variables = self._variables.difference(variables_set)
''', '''        missing = variables_set - self._variables
        if missing:
            raise ValueError(f"Variable '{missing.pop()}' does not exist in the constraint variables.")
        self._variables = {v for v in self._variables if v not in variables_set}
'''),
        (NH, '''        self._variables = self._variables.union(variables_set)
''', '''        self._variables = self._variables | variables_set
'''),
        (EQ, '''        for var in self._variables_1.union(self._variables_2):
            coeff = -1.0 * self._strength
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=coeff)
        for var in self._variables_1:
            for adj in self._variables_1:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
        for var in self._variables_2:
            for adj in self._variables_2:
                if var.label < adj.label:
                    coeff = -2.0 * self._strength
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=coeff)
''', '''        for var in self._variables_1 | self._variables_2:
            model.add_interaction(var, name=f"{var.label} ({self._label})", coefficient=-self._strength)
        for side in (self._variables_1, self._variables_2):
            for var in side:
                for adj in (a for a in side if a.label > var.label):
                    model.add_interaction((var, adj), name=f"{var.label}*{adj.label} ({self._label})", coefficient=-2.0 * self._strength)
'''),
        (AC, '''        if isinstance(variables, pyqubo.Array):
            variables = list(Functions._flatten(variables.bit_list))
        elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
            variables = [variables]
        return set(variables)
''', '''        if isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
            return {variables}
        if isinstance(variables, pyqubo.Array):
            variables = Functions._flatten(variables.bit_list)
        return {v for v in variables}
'''),
    ]},
    "phys": {"checks": ["C01", "C10", "C11", "C14", "C17", "C18", "C26"], "tests": ["tests/model", "tests/solver"], "edits": [
        (PM, '''        linear, quadratic = {}, {}
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            linear[k] = sign * v
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            quadratic[k] = sign * v

        if self.get_mtype() == constants.MODEL_ISING:
            vartype = dimod.SPIN
        elif self.get_mtype() == constants.MODEL_QUBO:
            vartype = dimod.BINARY
        bqm = dimod.BinaryQuadraticModel(linear, quadratic, self._offset, vartype)

        return bqm
''', '''        vartype = self._modeltype_to_vartype(self.get_mtype())
        bqm = dimod.BinaryQuadraticModel({}, {}, self._offset, vartype)
        for label, coefficient in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            bqm.add_variable(label, coefficient * sign)
        for (label_0, label_1), coefficient in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            bqm.add_interaction(label_0, label_1, coefficient * sign)
        return bqm
'''),
        (PM, '''        polynomial = []
        for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items():
            index = self._label_to_index[k]
            polynomial.append([index, index, -1.0 * v])
        for k, v in self._raw_interactions[constants.INTERACTION_QUADRATIC].items():
            index = [self._label_to_index[k[0]], self._label_to_index[k[1]]]
            polynomial.append([index[0], index[1], -1.0 * v])

        return polynomial
''', '''        to_index = self._label_to_index.__getitem__
        terms = [((k, k), v) for k, v in self._raw_interactions[constants.INTERACTION_LINEAR].items()]
        terms += list(self._raw_interactions[constants.INTERACTION_QUADRATIC].items())
        return [[to_index(a), to_index(b), -v] for (a, b), v in terms]
'''),
    ]},
    "solver": {"checks": ["C14", "C15", "C16"], "tests": ["tests/solver"], "edits": [
        (SS, '''        diff = x[idx] * self._bqm_linear[idx]

        # J_{ij}
        for aidx, j in self._bqm_adj[idx].items():
            diff += x[idx] * x[aidx] * j

        # Now the calculated diff is the local energy at x[idx].
        # If the spin flips from -1 to +1 (vice versa), the diff energy will be double.
        return 2.0 * diff
''', '''        field = self._bqm_linear[idx] + sum(j * x[aidx] for aidx, j in self._bqm_adj[idx].items())
        return 2.0 * x[idx] * field
'''),
        (SS, '''        if diff <= 0.0:
            return True
        p = math.exp(-diff / temperature)  # Note: np.exp is slow here
        self._accept_randoms_idx += 1
        if self._accept_randoms[self._accept_randoms_idx] < p:
            return True
        return False
''', '''        if diff > 0.0:
            self._accept_randoms_idx += 1
            return bool(self._accept_randoms[self._accept_randoms_idx] < math.exp(-1.0 * diff / temperature))
        return True
'''),
        (SS, '''        if initial_states and (len(initial_states) != num_reads):
''', '''        if initial_states and not (len(initial_states) == num_reads):
'''),
        (SS, '''        if seed is not None:
            self._rng = np.random.default_rng(seed)
        else:
            self._rng = np.random.default_rng()
''', '''        self._rng = np.random.default_rng(seed)
'''),
        (SS, '''        self._bqm_linear = [0.0 for _ in range(self._bqm.num_variables)]
        for label, coeff in self._bqm.linear.items():
            index = self._model._label_to_index[label]
            self._bqm_linear[index] = coeff
''', '''        labels = [self._model._index_to_label[i] for i in range(self._bqm.num_variables)]
        self._bqm_linear = [self._bqm.linear[label] for label in labels]
'''),
        (SS, '''            if reversing_phase:
                reverse_target_temperature *= cooling_rate
                temperature = reverse_options["reverse_temperature"] - reverse_target_temperature
            else:
                temperature *= cooling_rate
''', '''            if not reversing_phase:
                temperature = temperature * cooling_rate
            else:
                reverse_target_temperature = cooling_rate * reverse_target_temperature
                temperature = reverse_options["reverse_temperature"] - reverse_target_temperature
'''),
        (SS, '''                if self.is_acceptable(diff, temperature):
                    x[idx] *= -1
                    energy += diff
                    acceptances += 1
''', '''                if not self.is_acceptable(diff, temperature):
                    continue
                x[idx] = -x[idx]
                energy = energy + diff
                acceptances += 1
'''),
        (SS, '''            x = np.ones(shape=(num_variables), dtype=int)
            for v in self._bqm.variables:
                idx = self._model._label_to_index[v]
                x[idx] = initial_state[v]
''', '''            x = np.array([initial_state[self._model._index_to_label[i]] for i in range(num_variables)], dtype=int)
'''),
        (SS, '''        initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
        # Deal with offset, whose sign is not opposite
        initial_energy += self._original_bqm.offset * 2
''', '''        initial_energy = 2 * self._original_bqm.offset - self._bqm.energy(initial_sample)
'''),
    ]},
    "algo": {"checks": ["C19", "C20", "C21", "C22", "C27"], "tests": ["tests/algorithm"], "edits": [
        (AA, '''            if len(timestamp_state_as_list) == 0:
                prev_timestamp = float("-inf")
            else:
                prev_timestamp = timestamp_state_as_list[-1]
            if len(elements_state_as_list) == 0:
                prev_elements = []
            else:
                prev_elements = elements_state_as_list[-1]
            if len(model_state_as_list) == 0:
                prev_model = sawatabi.model.LogicalModel(mtype=initial_mtype)
            else:
                prev_model = model_state_as_list[-1]
            if len(sampleset_state_as_list) == 0:
                prev_sampleset = None
            else:
                prev_sampleset = sampleset_state_as_list[-1]
''', '''            def last(values, default):
                return values[-1] if values else default

            prev_timestamp = last(timestamp_state_as_list, float("-inf"))
            prev_elements = last(elements_state_as_list, [])
            prev_sampleset = last(sampleset_state_as_list, None)
            if model_state_as_list:
                prev_model = model_state_as_list[-1]
            else:
                prev_model = sawatabi.model.LogicalModel(mtype=initial_mtype)
'''),
        (AA, '''            sorted_elements = sorted(elements)
''', '''            sorted_elements = list(elements)
            sorted_elements.sort()
'''),
        (AA, '''                outgoing = []
                for p in prev_elements:
                    if p[0] >= sorted_elements[0][0]:
                        break
                    outgoing.append(p)
                return outgoing
''', '''                first = sorted_elements[0][0]
                return list(itertools.takewhile(lambda p: p[0] < first, prev_elements))
'''),
        (AA, '''import traceback

''', '''import itertools
import traceback

'''),
        (AA, '''                incoming = []
                if len(prev_elements) == 0:
                    incoming = sorted_elements
                else:
                    for v in reversed(sorted_elements):
                        if v[0] <= prev_elements[-1][0]:
                            break
                        incoming.insert(0, v)
                return incoming
''', '''                if not prev_elements:
                    return sorted_elements
                latest = prev_elements[-1][0]
                return [v for v in sorted_elements if v[0] > latest]
'''),
        (AA, '''                min_ts = min(ref_timestamp, default=0.0)
                max_ts = max(ref_timestamp, default=0.0)
                min_scale = algorithm_options["attenuation.min_scale"]
                if min_ts < max_ts:
                    for i, t in enumerate(ref_timestamp):
                        new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
                        model._interactions_array["scale"][i] = new_scale
''', '''                in_order = sorted(ref_timestamp)
                min_scale = algorithm_options["attenuation.min_scale"]
                if in_order and in_order[0] != in_order[-1]:
                    span = in_order[-1] - in_order[0]
                    model._interactions_array["scale"] = [min_scale + (1.0 - min_scale) * (t - in_order[0]) / span for t in ref_timestamp]
'''),
        (AA, '''            yield (float(timestamp), data)
''', '''            event_time = float(timestamp)
            yield (event_time, data)
'''),
        (AA, '''                | "Add output prefix" >> beam.Map(lambda element: algorithm_options["output.prefix"] + element))
''', '''                | "Add output prefix" >> beam.Map(lambda element: f"{algorithm_options['output.prefix']}{element}"))
'''),
        (AA, '''                sorted_elements.extend(prev_elements)
                sorted_elements = sorted(sorted_elements)
''', '''                sorted_elements = sorted(prev_elements + sorted_elements)
'''),
    ]},
}
