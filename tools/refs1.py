LM = "sawatabi/model/logical_model.py"
MODEL = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C25", "C26", "C27", "C28"]
GROUPS = {
    "conv": {"checks": ["C01", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C12", "C13", "C26", "C27", "C28"], "tests": ["tests/model"], "edits": [
        (LM, '''            if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
                if self._interactions_array["key"][i] in linear:
                    linear[self._interactions_array["key"][i]] += coeff
                else:
                    linear[self._interactions_array["key"][i]] = coeff

            elif self._interactions_array["body"][i] == constants.INTERACTION_QUADRATIC:
                if self._interactions_array["key"][i] in quadratic:
                    quadratic[self._interactions_array["key"][i]] += coeff
                else:
                    quadratic[self._interactions_array["key"][i]] = coeff
''', '''            key = self._interactions_array["key"][i]
            sums = linear if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR else quadratic
            sums[key] = sums.get(key, 0.0) + coeff
'''),
        (LM, '''        for k, v in linear.items():
            if v != 0.0:
                physical.add_interaction(k, body=constants.INTERACTION_LINEAR, coefficient=v)
                physical._variables_set.add(k)
        for k, v in quadratic.items():
            if v != 0.0:
                physical.add_interaction(k, body=constants.INTERACTION_QUADRATIC, coefficient=v)
                physical._variables_set.add(k[0])
                physical._variables_set.add(k[1])
''', '''        for key, total in filter(lambda kv: kv[1] != 0.0, linear.items()):
            physical.add_interaction(key, body=constants.INTERACTION_LINEAR, coefficient=total)
            physical._variables_set.add(key)
        for key, total in [(key, total) for key, total in quadratic.items() if total]:
            physical.add_interaction(key, body=constants.INTERACTION_QUADRATIC, coefficient=total)
            physical._variables_set.update(key)
'''),
        (LM, '''        current_index = 0
        for val in self._variables.values():
            flattened = list(Functions._flatten(val.bit_list))
            for v in flattened:
                if (v.label not in self._deleted) and (v.label in physical._variables_set):
                    physical._label_to_index[v.label] = current_index
                    physical._index_to_label[current_index] = v.label
                    current_index += 1
''', '''        labels = [v.label for val in self._variables.values() for v in Functions._flatten(val.bit_list)]
        used = [label for label in labels if label in physical._variables_set and label not in self._deleted]
        for index, label in enumerate(dict.fromkeys(used)):
            physical._label_to_index[label] = index
            physical._index_to_label[index] = label
'''),
        (LM, '''        for rm in will_remove:
            idx = self._interactions_array["name"].index(rm)
            for k in self._interactions_array.keys():
                self._interactions_array[k].pop(idx)
            self._interactions_length -= 1
''', '''        if will_remove:
            kept = [i for i, name in enumerate(self._interactions_array["name"]) if name not in set(will_remove)]
            for k, column in self._interactions_array.items():
                self._interactions_array[k] = [column[i] for i in kept]
            self._interactions_length = len(kept)
'''),
        (LM, '''        for i in range(self._interactions_length):
            # TODO: Calc difference from previous physical model by referencing dirty flags.
            if self._interactions_array["dirty"][i]:
                self._interactions_array["dirty"][i] = False
''', '''        self._interactions_array["dirty"] = [False] * self._interactions_length
'''),
    ]},
    "edit": {"checks": ["C01", "C02", "C03", "C04", "C05", "C06", "C09", "C12", "C20", "C21", "C26", "C27", "C28"], "tests": ["tests/model"], "edits": [
        (LM, '''        self._interactions_array["body"].append(body)
        self._interactions_array["name"].append(internal_name)
        self._interactions_array["key"].append(interaction_info["key"])
        self._interactions_array["key_0"].append(keys[0])
        self._interactions_array["key_1"].append(keys[1])
        self._interactions_array["interacts"].append(interaction_info["interacts"])
        self._interactions_array["coefficient"].append(coefficient)
        self._interactions_array["scale"].append(scale)
        self._interactions_array["timestamp"].append(timestamp)
''', '''        row = {"body": body, "name": internal_name, "key": interaction_info["key"], "key_0": keys[0], "key_1": keys[1]}
        row.update(interacts=interaction_info["interacts"], coefficient=coefficient, scale=scale, timestamp=timestamp)
        for column, value in row.items():
            self._interactions_array[column].append(value)
'''),
        (LM, '''            if target[0].label < target[1].label:
                interacts = (target[0], target[1])
                key = (target[0].label, target[1].label)
                name = f"{target[0].label}*{target[1].label}"
            else:
                interacts = (target[1], target[0])
                key = (target[1].label, target[0].label)
                name = f"{target[1].label}*{target[0].label}"
''', '''            interacts = tuple(sorted(target, key=lambda t: t.label))
            key = tuple(t.label for t in interacts)
            name = "*".join(key)
'''),
        (LM, '''        update_idx = self._interactions_array["name"].index(internal_name)

        # update only properties which is given by arguments
        if coefficient is not None:
            self._interactions_array["coefficient"][update_idx] = coefficient
        if scale is not None:
            self._interactions_array["scale"][update_idx] = scale
''', '''        update_idx = next(i for i, n in enumerate(self._interactions_array["name"]) if n == internal_name)

        # update only properties which is given by arguments
        given = {"coefficient": coefficient, "scale": scale}
        for column in ("coefficient", "scale"):
            if given[column] is not None:
                self._interactions_array[column][update_idx] = given[column]
'''),
        (LM, '''        return internal_name in self._interactions_array["name"]
''', '''        return any(n == internal_name for n in self._interactions_array["name"])
'''),
        (LM, '''        if value == 0:
            for s in selected:
                self.remove_interaction(name=s)
        elif value in [1, -1]:
            for s in selected:
                idx = self._interactions_array["name"].index(s)
                body = self._interactions_array["body"][idx]
''', '''        if value == 0:
            for s in reversed(selected):
                self.remove_interaction(name=s)
        else:
            for s in selected:
                idx = self._interactions_array["name"].index(s)
                body = 2 if isinstance(self._interactions_array["key"][idx], tuple) else 1
'''),
        (LM, '''                    self._offset += -1 * value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                    self.remove_interaction(name=s)
''', '''                    effective = self._interactions_array["scale"][idx] * self._interactions_array["coefficient"][idx]
                    self.remove_interaction(name=s)
                    self._offset = self._offset - value * effective
'''),
        (LM, '''                    if interacts[0].label == target.label:
                        interacts_to = interacts[1]
                    elif interacts[1].label == target.label:
                        interacts_to = interacts[0]
''', '''                    (interacts_to,) = [v for v in interacts if v.label != target.label]
'''),
        (LM, '''        return self._interactions[(self._interactions["key_0"] == target.label) | (self._interactions["key_1"] == target.label)]["name"].values
''', '''        keys = zip(self._interactions_array["key_0"], self._interactions_array["key_1"], self._interactions_array["name"])
        return np.array([name for key_0, key_1, name in keys if target.label in (key_0, key_1)], dtype=object)
'''),
    ]},
    "mtype": {"checks": ["C05", "C06", "C13", "C26", "C25"], "tests": ["tests/model"], "edits": [
        (LM, '''        for name, variable in self._variables.items():
            self._variables[name] = pyqubo.Array.create(name, shape=variable.shape, vartype=vartype)
        df = self.select_interaction(query="removed == False")
        for index, interaction in df.iterrows():
            interacts = interaction["interacts"]
            if self._mtype == constants.MODEL_ISING:
                if isinstance(interacts, tuple):
                    self._interactions_array["interacts"][index] = (
                        pyqubo.Spin(interaction["interacts"][0].label),
                        pyqubo.Spin(interaction["interacts"][1].label),
                    )
                else:
                    self._interactions_array["interacts"][index] = pyqubo.Spin(interaction["interacts"].label)
            elif self._mtype == constants.MODEL_QUBO:
                if isinstance(interacts, tuple):
                    self._interactions_array["interacts"][index] = (
                        pyqubo.Binary(interaction["interacts"][0].label),
                        pyqubo.Binary(interaction["interacts"][1].label),
                    )
                else:
                    self._interactions_array["interacts"][index] = pyqubo.Binary(interaction["interacts"].label)
''', '''        self._variables = {name: pyqubo.Array.create(name, shape=variable.shape, vartype=vartype) for name, variable in self._variables.items()}
        cls = {constants.MODEL_ISING: pyqubo.Spin, constants.MODEL_QUBO: pyqubo.Binary}[self._mtype]
        for index in range(self._interactions_length):
            if self._interactions_array["removed"][index]:
                continue
            interacts = self._interactions_array["interacts"][index]
            if isinstance(interacts, tuple):
                self._interactions_array["interacts"][index] = tuple(cls(v.label) for v in interacts)
            else:
                self._interactions_array["interacts"][index] = cls(interacts.label)
'''),
        (LM, '''            h_df = self.select_interaction(query="(body == 1) and (removed == False)")
            for index, h in h_df.iterrows():
                coeff = h["coefficient"]
                self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
                self._offset -= coeff * h["scale"]

            # Update J_{ij}
            J_df = self.select_interaction(query="(body == 2) and (removed == False)")
            for _, J in J_df.iterrows():
                coeff = J["coefficient"]
                self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                self.add_interaction(
                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * J["scale"] * 2.0
                )
                self.add_interaction(
                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * J["scale"] * 2.0
                )
                self._offset += coeff * J["scale"]
''', '''            rows = list(self.select_interaction(query="removed == False", fmt="dict").values())
            for h in [row for row in rows if row["body"] == 1]:
                self.update_interaction(name=h["name"], coefficient=2.0 * h["coefficient"])
                self._offset -= h["coefficient"] * h["scale"]

            # Update J_{ij}
            for J in [row for row in rows if row["body"] == 2]:
                self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                weight = J["coefficient"] * J["scale"]
                for side, interact in enumerate(J["interacts"]):
                    self.add_interaction(target=interact, name=f"{J['key_%d' % side]} from {J['name']} (mtype additional {current_time()})", coefficient=-2.0 * weight)
                self._offset += weight
'''),
    ]},
    "merge": {"checks": ["C06", "C09", "C10", "C25", "C26", "C01", "C07"], "tests": ["tests/model"], "edits": [
        (LM, '''        for attr in merged_attrs:
            if (attr in self._interactions_attrs) and (attr in other._interactions_array):
                merged_interactions_with_duplication[attr] = self._interactions_array[attr] + other._interactions_array[attr]
            elif attr in self._interactions_attrs:
                merged_interactions_with_duplication[attr] = self._interactions_array[attr] + ([np.nan] * other._interactions_length)
            elif attr in other._interactions_attrs:
                merged_interactions_with_duplication[attr] = ([np.nan] * self._interactions_length) + other._interactions_array[attr]
''', '''        for attr in merged_attrs:
            column = []
            for model in (self, other):
                column.extend(model._interactions_array.get(attr, [np.nan] * model._interactions_length))
            merged_interactions_with_duplication[attr] = column
'''),
        (LM, '''        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
''', '''        if not self._constraints.keys().isdisjoint(other._constraints):
'''),
        (LM, '''        self._constraints.update(other._constraints)

        # Merge other fields
        self._offset += other._offset
        self._deleted.update(other._deleted)
        self._fixed.update(other._fixed)
''', '''        for label, constraint in other._constraints.items():
            self._constraints[label] = constraint

        # Merge other fields
        self._offset = self._offset + other._offset
        self._deleted = {**self._deleted, **other._deleted}
        self._fixed = {**self._fixed, **other._fixed}
'''),
        (LM, '''            size = 1
            for s in variables.shape:
                size *= s
            all_size += size
''', '''            all_size += int(np.prod(variables.shape))
'''),
    ]},
}
