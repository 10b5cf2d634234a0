OS = "sawatabi/solver/optigan_solver.py"
DW = "sawatabi/solver/dwave_solver.py"
LS = "sawatabi/solver/local_solver.py"
NPP = "sawatabi/utils/npp.py"
IO = "sawatabi/algorithm/io.py"
FN = "sawatabi/utils/functions.py"
WI = "sawatabi/algorithm/window.py"
DE = "sawatabi/algorithm/delta.py"
AA = "sawatabi/algorithm/abstract_algorithm.py"
LM = "sawatabi/model/logical_model.py"
TM = "sawatabi/utils/time.py"
GROUPS = {
    "remote": {"checks": ["C17", "C18"], "tests": ["tests/solver"], "edits": [
        (OS, '''            buf = io.BytesIO()
            with gzip.GzipFile(fileobj=buf, mode="wb") as f:
                f.write(json.dumps(payload).encode("utf-8"))
            headers["Content-Encoding"] = "gzip"
            response = requests.post(endpoint, headers=headers, data=buf.getvalue())
''', '''            body = gzip.compress(bytes(json.dumps(payload), "utf-8"))
            headers.update({"Content-Encoding": "gzip"})
            response = requests.post(url=endpoint, data=body, headers=headers)
'''),
        (OS, '''        samples = []
        for spins in result["spins"]:
            sample = dict(zip(list(model._index_to_label.values()), spins))
            samples.append(sample)
''', '''        labels = [model._index_to_label[i] for i in range(len(model._index_to_label))]
        samples = [{label: spin for label, spin in zip(labels, spins)} for spins in result["spins"]]
'''),
        (OS, '''        if response.status_code != 200:
''', '''        if not response.status_code == requests.codes.ok:
'''),
        (OS, '''            "Authorization": "Bearer {}".format(token),
''', '''            "Authorization": f"Bearer {token}",
'''),
        (DW, '''        if (self._endpoint is not None) and (self._token is not None):
            sampler = DWaveSampler(endpoint=self._endpoint, token=self._token, solver=self._solver)
        else:
            sampler = DWaveSampler(solver=self._solver)

        if (embedding_parameters is not None) and isinstance(embedding_parameters, dict):
            solver = EmbeddingComposite(sampler, embedding_parameters=embedding_parameters)
        else:
            solver = EmbeddingComposite(sampler)

        return solver
''', '''        settings = {"solver": self._solver}
        if None not in (self._endpoint, self._token):
            settings.update(endpoint=self._endpoint, token=self._token)
        options = {"embedding_parameters": embedding_parameters} if isinstance(embedding_parameters, dict) else {}
        return EmbeddingComposite(DWaveSampler(**settings), **options)
'''),
        (LS, '''        if self._exact:
            # dimod's brute force solver
            sampleset = self._solver.sample(bqm)
        else:
            # Simulated annealing (SA)
            sampleset = self._solver.sample(bqm, **kwargs)
''', '''        options = {} if self._exact else kwargs
        sampleset = self._solver.sample(bqm, **options)
'''),
        (LS, '''        if len(model._raw_interactions[constants.INTERACTION_LINEAR]) == 0 and len(model._raw_interactions[constants.INTERACTION_QUADRATIC]) == 0:
''', '''        if not any(model._raw_interactions.values()):
'''),
    ]},
    "npp": {"checks": ["C23", "C30"], "tests": ["tests/utils"], "edits": [
        (NPP, '''    s = int(s2 / 2)
''', '''    s = s2 // 2
'''),
        (NPP, '''        a = set(list(range(n)))
        return list(a - set(p))
''', '''        return [i for i in range(n) if i not in p]
'''),
        (NPP, '''                        solution = []
                        for prev in dp[i - current_val][j - 1][1]:
                            solution.append(prev + [j - 1])
                        if len(dp[i][j][1]) != 0:
                            solution.extend(dp[i][j][1])
                        dp[i][j] = (True, solution)
''', '''                        solution = [prev + [j - 1] for prev in dp[i - current_val][j - 1][1]] + dp[i][j][1]
                        dp[i][j] = (True, solution)
'''),
        (FN, '''            return tuple(map(operator.sub, a, b))
''', '''            return tuple(x - y for x, y in zip(a, b))
'''),
        (FN, '''            return tuple(np.minimum(a, b))
''', '''            return tuple(min(x, y) for x, y in zip(a, b))
'''),
        (FN, '''            return list(np.maximum(a, b))
''', '''            return [x if x > y else y for x, y in zip(a, b)]
'''),
        (TM, '''    return int(time.time() * 1_000)
''', '''    return int(current_time_ms())
'''),
        (TM, '''    return int(time.time() * 1_000_000)
''', '''    return int(1e6 * time.time())
'''),
    ]},
    "io1": {"checks": ["C24", "C29", "C22"], "tests": ["tests/algorithm"], "edits": [
        (IO, '''        number_pattern = re.compile(r"^[0-9]+$")
        return (messages
            | "Filter" >> beam.Filter(number_pattern.match)
            | "To int" >> beam.Map(int))
''', '''        def numbers(message):
            if re.fullmatch("[0-9]+", message):
                yield int(message)

        return (messages
            | "To int" >> beam.FlatMap(numbers))
'''),
        (IO, '''            | "To JSON" >> beam.Map(json.loads))
''', '''            | "To JSON" >> beam.Map(lambda message: json.loads(message)))
'''),
        (IO, '''            | "Decode" >> beam.Map(lambda m: m.decode("utf-8")))
''', '''            | "Decode" >> beam.Map(bytes.decode))
'''),
    ]},
    "io2": {"checks": ["C24", "C29"], "tests": ["tests/algorithm"], "edits": [
        (IO, '''        number_pattern = re.compile(r"^[0-9]+$")
        return (messages
            | "Filter" >> beam.Filter(number_pattern.match)
            | "To int" >> beam.Map(int))
''', '''        def is_number(message):
            return message != "" and all("0" <= ch <= "9" for ch in message)

        return (messages
            | "Filter" >> beam.Filter(is_number)
            | "To int" >> beam.Map(lambda m: int(m, 10)))
'''),
        (IO, '''        return (messages
            | "To JSON" >> beam.Map(json.loads))
''', '''        class Parse(beam.DoFn):
            def process(self, element):
                return [json.loads(element)]

        return (messages
            | "To JSON" >> beam.ParDo(Parse()))
'''),
        (IO, '''            | "Decode" >> beam.Map(lambda m: m.decode("utf-8")))
''', '''            | "Decode" >> beam.Map(lambda m: str(m, "utf-8")))
'''),
    ]},
    "io3": {"checks": ["C24", "C29"], "tests": ["tests/algorithm"], "edits": [
        (IO, '''        number_pattern = re.compile(r"^[0-9]+$")
        return (messages
            | "Filter" >> beam.Filter(number_pattern.match)
            | "To int" >> beam.Map(int))
''', '''        return (messages
            | "Filter" >> beam.Filter(lambda m: m.isascii() and m.isdigit())
            | "To int" >> beam.Map(int))
'''),
    ]},
    "pipe": {"checks": ["C19", "C20", "C22", "C27"], "tests": ["tests/algorithm"], "edits": [
        (WI, '''            | "Elements in a sliding window into a list" >> beam.CombineGlobally(beam.combiners.ToListCombineFn()).without_defaults()
''', '''            | "Elements in a sliding window into a list" >> beam.combiners.ToList().without_defaults()
''' if False else '''            | "Key all" >> beam.Map(lambda element: (0, element))
            | "Group" >> beam.GroupByKey()
            | "Elements in a sliding window into a list" >> beam.Map(lambda kv: list(kv[1]))
'''),
        (DE, '''            | "Add timestamp as tuple againt each window for diff detection" >> beam.ParDo(AbstractAlgorithm.WithTimestampTupleFn())
''', '''            | "Add timestamp as tuple againt each window for diff detection" >> beam.Map(lambda data, timestamp=beam.DoFn.TimestampParam: (float(timestamp), data))
'''),
        (AA, '''            | "Prepare key" >> beam.Map(lambda element: (None, element))
''', '''            | "Prepare key" >> beam.WithKeys(None)
'''),
        (AA, '''        if "output.prefix" in algorithm_options:
            solved = (solved
                | "Add output prefix" >> beam.Map(lambda element: algorithm_options["output.prefix"] + element))
        if "output.suffix" in algorithm_options:
            solved = (solved
                | "Add output suffix" >> beam.Map(lambda element: element + algorithm_options["output.suffix"]))
''', '''        if "output.prefix" in algorithm_options or "output.suffix" in algorithm_options:
            prefix, suffix = algorithm_options.get("output.prefix", ""), algorithm_options.get("output.suffix", "")
            solved = (solved
                | "Add output prefix and suffix" >> beam.Map(lambda element: prefix + element + suffix))
'''),
    ]},
    "solve2": {"checks": ["C19", "C20", "C21", "C22", "C27"], "tests": ["tests/algorithm"], "edits": [
        (AA, '''            # Map problem input to the model
            try:
                model = map_fn(prev_model, prev_sampleset, sorted_elements, incoming, outgoing)
            except Exception as e:
                yield f"Failed to map: {e}\\n{traceback.format_exc()}"
                return

            # Clear the BagState so we can hold only the latest state, and
            # Register new model to the state
            model_state.clear()
            model_state.add(model)
''', '''            def remember(state, item):
                state.clear()
                state.add(item)

            differences = {"incoming": incoming, "outgoing": outgoing}
            # Map problem input to the model
            try:
                model = map_fn(prev_model, prev_sampleset, sorted_elements, *differences.values())
            except Exception as e:
                yield "Failed to map: " + str(e) + "\\n" + traceback.format_exc()
                return
            remember(model_state, model)
'''),
        (AA, '''            # Sometimes, when we use the sliding window algorithm for a bounded data (such as a local file),
            # we may receive an outdated event whose timestamp is older than timestamp of previously processed event.
            if float(timestamp) < float(prev_timestamp):
''', '''            if timestamp_state_as_list and timestamp < prev_timestamp:
'''),
        (AA, '''                filtered = [p for p in prev_elements if filter_fn(p) and p not in sorted_elements]
                sorted_elements = filtered + sorted_elements
                sorted_elements = sorted(sorted_elements)
''', '''                for p in prev_elements:
                    if p not in sorted_elements and filter_fn(p):
                        sorted_elements.append(p)
                sorted_elements.sort()
'''),
    ]},
}
