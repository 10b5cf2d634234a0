"""Writes properties.jsonl (kept as a script so the file stays consistent)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), s)) for s in mech]}})


LM = "sawatabi/model/logical_model.py"
PM = "sawatabi/model/physical_model.py"
NH = "sawatabi/model/constraint/n_hot_constraint.py"
EQ = "sawatabi/model/constraint/equality_constraint.py"
ZO = "sawatabi/model/constraint/zero_or_one_hot_constraint.py"
AC = "sawatabi/model/constraint/abstract_constraint.py"
SS = "sawatabi/solver/sawatabi_solver.py"
AA = "sawatabi/algorithm/abstract_algorithm.py"

prop("C01", "The physical model is the exact sum of the live interactions",
     "Converting a logical model gives, for every variable and every unordered pair of variables, exactly the sum of coefficient times scale over "
     "its interactions that have not been removed; sums that are zero, and variables or pairs with no live interaction, get no entry, and model type "
     "and offset carry over. The result does not depend on insertion order, on the names of interactions, on the order in which the two variables of "
     "a pair were given, or on how variable arrays are named, shaped or indexed.",
     ["inputs", "histories"], "all real or integer coefficients, scales and offsets; all arrangements of interactions, names and removals within the size bounds",
     "Tests convert a few fixed models with hand-picked numbers; cancellations, tiny values, repeated targets and mixed orders are unbounded.",
     [LM, PM], [("to_physical", LM), ("_get_interaction_info_from_target", LM)], [("interactions array", "stored interactions", LM)])
prop("C02", "Editing interactions behaves like a map from names to records",
     "After any sequence of adding, updating and removing interactions by target or by name, each interaction holds exactly the values last given to it "
     "(coefficient, scale, attributes, timestamp; defaults 0, 1, none and the current time), an update changes only the fields it was given plus the "
     "timestamp, and no other interaction is affected. Adding a name that exists or was removed, updating a removed or unknown name, removing an "
     "unknown name, and malformed targets are rejected, and a rejected call leaves the model as it was.",
     ["inputs", "histories"], "all add/update/remove sequences within the length bound, all field values",
     "Tests check single calls and short fixed sequences; the interplay of attributes, defaults, removals and rejected calls over longer histories is not sampled.",
     [LM], [("add_interaction", LM), ("update_interaction", LM), ("remove_interaction", LM), ("get_attributes", LM)],
     [("interactions array", "one list per column, kept the same length", LM)])
prop("C03", "Fixing a variable substitutes its value into the energy",
     "Fixing a variable to an allowed value (1/-1 for Ising, 1/0 for QUBO) makes the energy of the model's interactions and offset, as a function of the other "
     "variables, equal to the previous energy with that value substituted, after any earlier additions, scalings, removals and fixings. The fixed variable "
     "no longer occurs in any live interaction, and any other value is rejected with the model unchanged.",
     ["inputs", "histories"], "all coefficients, scales, offsets; all subsets of removed interactions; sequences of up to three fixings; both model types",
     "Tests fix variables in two fixed models without removed or scaled interactions; energies are not compared.",
     [LM], [("fix_variable", LM)], [("offset", "constant energy", LM)])
prop("C04", "Deleting a variable removes it everywhere and nothing else",
     "Deleting a variable removes exactly the interactions that involve it and takes it out of every constraint of any kind that contains it, whether or not the "
     "model's other constraints contain it; all other interactions, constraint members and the offset stay as they were. The converted model then equals the one "
     "obtained from a model in which the variable had never been used, and gives the variable no index.",
     ["inputs", "histories", "configurations"], "all coefficients and strengths; every membership pattern of the variable in the three constraint kinds; both model types",
     "Tests delete one variable from models with at most one N-hot constraint containing it.",
     [LM, NH, ZO, EQ], [("delete_variable", LM), ("select_interactions_by_variable", LM)], [("constraints", "constraint membership sets", LM)])
prop("C05", "Ising/QUBO conversion preserves the energy of every assignment",
     "Converting a model between Ising and QUBO keeps its energy for every assignment under spin = 2*bit - 1, whatever coefficients, scales, offsets and removed "
     "interactions it has, and converting to the type it already has changes nothing. Removed interactions stay removed and variable names and shapes are kept.",
     ["inputs", "histories"], "all coefficients, scales and offsets; all assignments (coefficient-wise polynomial equality); removed subsets; round trips",
     "Tests compare printed coefficients of single conversions with scale 1 and never compare energies.",
     [LM], [("to_ising", LM), ("to_qubo", LM), ("_update_variables_type", LM)], [("offset", "constant energy", LM)])
prop("C06", "Merging two models adds their energies",
     "Merging a model into another of the same type gives a model whose converted form is the term-wise sum of both (interactions, constraints and offsets), whose "
     "variable arrays have the element-wise maximum of both shapes, and in which every interaction keeps its values and attributes under a name of its own, however many models are merged. When the dimensions of a shared array "
     "or the labels of constraints conflict, the merge is rejected and the receiving model is unchanged. The other model, when of the same type, is not changed by a merge, and later edits of "
     "interactions, offset, deleted or fixed variables in one of the two do not show in the other.",
     ["inputs", "configurations"], "all coefficients, scales and offsets; all patterns of shared and distinct names, attributes, array shapes and constraints within the bounds",
     "Tests merge a handful of concrete models and look at stored lists.",
     [LM], [("merge", LM), ("append", LM)], [("interactions array", "merged columns", LM)])
prop("C07", "Constraint penalties match their definition",
     "A constraint in a model adds strength times its penalty to the energy, up to a constant: (sum - n)^2 for an n-hot constraint, (sum of first set - sum of second set)^2 for an "
     "equality constraint of disjoint sets, and twice the number of selected pairs for a zero-or-one-hot constraint, in the 0/1 reading of its variables. "
     "This holds for every strength, n and set of variables, in QUBO and in Ising models, together with other constraints and interactions on the same variables.",
     ["inputs", "configurations"], "all strengths, all positive n, all sets of up to 5 variables, both model types, combinations of constraints and interactions",
     "Tests look at generated coefficients for strength 1 or 10 and a few variables, mostly one constraint at a time.",
     [NH, EQ, ZO, LM], [("to_model (three kinds)", NH), ("to_physical merges constraint models", LM)])
prop("C08", "Constraint membership follows the calls made",
     "After any sequence of adding and removing single variables, lists, sets or arrays, a constraint's variables are exactly those added and not later removed, each counted once; removing a "
     "variable that is not a member is rejected and changes nothing. Neither building nor changing a constraint alters collections passed by the caller, and constraints never share members by accident.",
     ["histories", "inputs"], "all sequences of up to 4 membership calls over 4 variables, all argument forms, three constraint kinds; invalid n, label, strength rejected",
     "Tests perform one or two calls in fixed order.",
     [AC, NH, EQ, ZO], [("_check_variables_and_to_set", AC), ("add_variable / remove_variable", NH)])
prop("C09", "Converting to a physical model does not change the logical model",
     "Converting a logical model, with or without constraints and placeholders, leaves its live interactions, attributes, variables, offset, constraints, deleted and fixed "
     "variables as they were, so converting again gives the same result and later edits act as if no conversion had happened; only interactions already removed may be discarded. "
     "This also holds when the conversion is rejected, for example because a placeholder value is missing.",
     ["histories", "inputs", "fault_sequences"], "all coefficients and strengths; every removed subset; constraint combinations; failed conversions; edit/convert interleavings",
     "Tests convert once or twice for one fixed model; failing conversions with constraints are not looked at.",
     [LM], [("to_physical save/restore", LM)], [("interactions array", "restored after constraints were merged", LM)])
prop("C10", "Variables of a physical model get dense, consistent indices",
     "Every variable that occurs in a converted model has exactly one index, indices are 0..n-1 without gaps, both directions of the mapping agree, and no unused variable gets one (a deleted or fixed one only when it is used again). The integer-indexed "
     "polynomial lists exactly one entry per term, with the indices of its variables and the negated coefficient.",
     ["inputs", "histories"], "all coefficients including those that cancel; all subsets of live variables of several arrays within the bounds",
     "Tests check mappings for fully used arrays.",
     [LM, PM], [("label_to_index construction", LM), ("to_polynomial", PM)], [("label/index maps", "bijection", PM)])
prop("C11", "The BQM handed to samplers has the model's energy",
     "Converting a physical model to a binary quadratic model gives the same variable type and a model whose energy for every assignment equals -(sum of pair terms) - (sum of single terms) + offset. With an explicit sign, "
     "coefficients are multiplied by that sign and the offset is kept; the physical model is not changed.",
     ["inputs"], "all coefficients, offsets and signs, all assignments of up to 4 variables, both types",
     "Tests compare one small model per type, and fail in this environment.",
     [PM], [("to_bqm", PM)])
prop("C12", "A model imported from a PyQUBO expression has that expression's energy",
     "Importing a PyQUBO expression or compiled model over a model's binary variables gives a model whose energy equals the value of the expression for every assignment, including its constant, and that converts to the matching physical model.",
     ["inputs"], "all real coefficients in expressions of degree up to 2 over up to 4 variables of one- and two-dimensional arrays, both argument forms",
     "Tests import two fixed expressions and compare strings.",
     [LM], [("from_pyqubo", LM)])
prop("C13", "Placeholders resolve to the values given at conversion",
     "A coefficient, scale or offset that contains placeholders converts as if the numbers given for them had been written there from the start, different values at each conversion give each time the result for those values, and the logical model keeps its placeholders.",
     ["inputs", "histories"], "all real placeholder values and constants; placeholders in coefficient, scale and offset; repeated conversions with different values",
     "Tests use one value per placeholder.",
     [LM], [("to_physical placeholder resolution", LM)])
prop("C14", "The annealing solver reports each sample's true energy",
     "For every sample returned by the built-in annealing solver, the reported energy equals the model's energy of that sample, offset included, for every model, sweep count, temperature setting, pick-up mode, reverse option and random outcome. Samples assign "
     "each variable of the model a value of the model's type.",
     ["inputs", "schedules"], "all coefficients and offsets; every accept/reject outcome and pick-up order; up to 3 variables, 2 sweeps, 2 reads; both types",
     "Tests run a few seeds and compare rounded energies of particular models.",
     [SS], [("annealing", SS), ("calc_energy_diff", SS)], [("running energy", "incrementally updated energy", SS)])
prop("C15", "Annealing follows the documented schedule and the Metropolis rule",
     "Each sweep visits every variable exactly once and flips it always when the energy does not rise, otherwise exactly when the random draw is below exp(-rise/temperature). The temperature starts at the given value and is multiplied by the cooling rate after each sweep; with reverse "
     "options it starts near zero, rises towards the reverse temperature for the reverse period, then cools; the recorded energy, temperature and acceptance histories have one entry per sweep and match what happened.",
     ["inputs", "schedules"], "all coefficients and draws; temperatures and rates from a grid; up to 3 variables and 3 sweeps",
     "Tests check a few recorded numbers for fixed seeds.",
     [SS], [("annealing", SS), ("is_acceptable", SS)])
prop("C16", "Solver reads, initial states and seeds are honoured",
     "The built-in annealing solver makes exactly the requested number of independent reads, starts each read from the initial state given for it (with zero sweeps it returns exactly these states), does not modify the caller's initial states, reverse options or model, and gives equal results for equal seeds of any value. Empty models, unknown pick-up "
     "modes, incomplete reverse options and a wrong number of initial states are rejected.",
     ["inputs", "configurations"], "all coefficients; all initial states of up to 3 variables; reads 1..3; seeds 0 and positive; both types",
     "Tests use one or two initial states and seeds and do not look at the arguments afterwards.",
     [SS], [("solve", SS)])
prop("C17", "Sampler-backed solvers submit the model unchanged and return its result",
     "The local and D-Wave solvers hand the underlying sampler a binary quadratic model with exactly the energies of the given physical model together with the caller's options (exact mode takes none), and return the sampler's samples and energies unchanged. The default beta range is the one the sampler derives from that same model, and empty models and arguments that are not physical models are rejected before anything is submitted.",
     ["inputs", "configurations"], "all coefficients and offsets, both types, exact and annealing modes, option sets",
     "Tests run the real samplers on a few models and look at the best sample, or mock the sampler's answer.",
     ["sawatabi/solver/local_solver.py", "sawatabi/solver/dwave_solver.py", PM], [("solve", "sawatabi/solver/local_solver.py"), ("solve", "sawatabi/solver/dwave_solver.py")])
prop("C18", "Optigan requests carry the model and answers map back to its variables",
     "A request sent to the Optigan service carries exactly the model's polynomial, options, endpoint and token, compressed or not as asked, and each returned spin vector is mapped to the variables by index, keeping its energy. Empty models, Ising models and failed responses are rejected.",
     ["inputs", "configurations"], "all coefficients and energies; models of up to 4 variables with unused indices removed; option combinations; all status codes",
     "Tests mock one fixed answer and do not check the request's contents.",
     ["sawatabi/solver/optigan_solver.py", PM], [("solve", "sawatabi/solver/optigan_solver.py")])
prop("C19", "Each window's incoming and outgoing elements are exactly its differences",
     "For every sequence of windows with increasing event times, each callback receives the window's elements in event-time order, together with exactly the elements new since the previous window as incoming and exactly those no longer present as outgoing, both in event-time order too. For the incremental algorithm the elements are everything seen so far and nothing is outgoing; for the "
     "partial algorithm they are the previously kept elements that pass the filter plus the new window.",
     ["inputs", "histories"], "all event times and window contents: up to 3 windows of up to 3 elements, in any arrival order, all algorithms",
     "Tests run a few pipelines over fixed streams with regular timestamps.",
     [AA], [("resolve_outgoing / resolve_incoming", AA)], [("elements state", "previous window's elements", AA)])
prop("C20", "Window processing survives outdated windows and failing callbacks",
     "Over any sequence of windows, the model, sample set and elements handed to callbacks are those produced by the last window that completed the respective step, starting from an empty model of the configured type; a window older than the last processed one is reported and changes nothing. An exception "
     "raised by a callback yields one failure message for that window, and later windows are still processed.",
     ["histories", "fault_sequences", "inputs"], "all window times and failure points (map, solve, unmap) over sequences of up to 3 windows",
     "Tests inject one failure per callback in a single window.",
     [AA], [("SolveDoFn.process", AA)], [("timestamp/elements/model/sampleset state", "carried between windows", AA)])
prop("C21", "Attenuation scales interactions linearly with their age",
     "Before solving, the attenuation algorithm sets every live interaction's scale to grow linearly in its reference value from the minimum scale for the oldest to 1 for the newest interaction, and leaves scales alone when all references are equal or there are no live interactions. Coefficients, other fields and interaction order by age are preserved and removed interactions do not take part.",
     ["inputs"], "all reference values and minimum scales for up to 4 interactions, any order, removed subsets",
     "Tests check one stream with equidistant timestamps.",
     [AA], [("attenuation branch of process", AA)])
prop("C22", "Pipelines assemble the documented stages",
     "For every algorithm and option set, the pipeline numbers inputs consecutively from zero, optionally uses that number as event time, groups elements by the configured window size and period, solves each window with the given callbacks, solver and model type under that algorithm's rule, and applies timestamp, prefix and suffix to each output in that order. Invalid model types are rejected.",
     ["configurations", "inputs"], "all five algorithms, all combinations of options, all window sizes, periods and event times within the bounds",
     "Tests run real pipelines for a few option sets and compare printed output.",
     [AA, "sawatabi/algorithm/window.py", "sawatabi/algorithm/delta.py", "sawatabi/algorithm/incremental.py", "sawatabi/algorithm/attenuation.py", "sawatabi/algorithm/partial.py"],
     [("_create_pipeline", AA), ("create_pipeline", "sawatabi/algorithm/window.py")])
prop("C23", "The number-partitioning solver returns optimal partitions",
     "For every list of positive integers the dynamic-programming partitioner returns two disjoint index lists covering the input whose sums differ by the least possible amount, says whether they are equal, and, when asked for all, lists every optimal choice of the smaller side exactly once.",
     ["inputs"], "all lists of up to 4 positive integers (5 in the thorough run) within the value bound",
     "Tests check a few lists.",
     ["sawatabi/utils/npp.py"], [("solve_npp_with_dp", "sawatabi/utils/npp.py")])
prop("C24", "Number inputs keep exactly the lines that are decimal numbers",
     "Reading a stream as numbers passes on exactly the messages that consist of ASCII decimal digits, in order, as the integers they denote, and drops every other message (a number followed by one line feed may be kept or dropped). Message bytes are decoded as UTF-8 first when they come from Pub/Sub, outputs are encoded as UTF-8 when they go there, and resource paths name exactly the given project, topic or subscription.",
     ["inputs", "configurations"], "all strings up to the length bound",
     "Tests read two files and mock Pub/Sub.",
     ["sawatabi/algorithm/io.py"], [("_read_as_number", "sawatabi/algorithm/io.py")])
prop("C25", "Variable arrays and size counts stay consistent",
     "Creating an array gives variables of the model's type with labels made of name and indices for every index of the shape; appending adds the given amounts to each dimension (or creates the array) and keeps existing variables' labels. The total size is the number of variables of all arrays, and the live size is that number minus the distinct variables "
     "deleted or fixed.",
     ["histories", "inputs"], "all shapes up to 3 dimensions within bounds, sequences of create/append/delete/fix",
     "Tests check a few shapes and never delete and fix the same variable.",
     [LM, "sawatabi/utils/functions.py"], [("variables / append", LM), ("get_size family", LM), ("elementwise_add", "sawatabi/utils/functions.py")])
prop("C26", "Models and constraints compare equal exactly when their contents agree",
     "Two logical models, physical models or constraints are equal exactly when they have the same kind and agree in every content field (type, variables, interactions with all values, attributes, offset, constraints, deleted and fixed variables; members, n, strength and label); inequality is the opposite, and comparison with anything else is false.",
     ["inputs"], "all values of every field, one field differing at a time and independent copies, all kinds",
     "Tests compare models differing in a few fields by fixed amounts.",
     [LM, PM, NH, EQ, ZO], [("__eq__ / __ne__", LM)])
prop("C27", "An incrementally maintained model equals one rebuilt from the window",
     "When a stream callback adds interactions for incoming elements and deletes those of outgoing elements on the carried-over model, then after every window, under the window and delta algorithms, the converted model equals the one built from scratch from that window's elements.",
     ["histories", "inputs"], "all element values and event times, up to 3 windows of up to 3 elements",
     "Tests run the number-partitioning example on fixed streams and compare solutions, not models.",
     [AA, LM], [("SolveDoFn.process", AA), ("delete_variable / to_physical", LM)])

prop("C28", "Queries report the model as it is and change nothing",
     "Selecting interactions by a query returns, in either format, exactly the interactions whose current values satisfy it, with those values; selecting by variable gives exactly the names of the interactions it takes part in (removed ones that are still recorded included), and attribute queries give each interaction's own attributes, "
     "all of them following every edit made before. Selecting, reading attributes, sizes, offset, variables or constraints, comparing and printing change neither the model nor what it later converts to, and changing what a query returned does not change the model.",
     ["inputs", "histories"], "all coefficients, scales and attribute values; edits before the query, nested names, all readers",
     "Tests query fixed models once with fixed numbers.",
     [LM], [("select_interaction", LM), ("select_interactions_by_variable", LM), ("get_attributes / get_attribute", LM), ("__repr__ / __str__", LM)])
prop("C29", "JSON inputs deliver every message's value",
     "Reading a stream as JSON passes on, in order, exactly one element per message, equal to the value its text denotes (null, false, zero and empty values included), for text lines and for Pub/Sub messages decoded as UTF-8. Text that is not JSON (unescaped control characters included; Python's NaN and Infinity literals aside) is an error, never another value and never silently dropped.",
     ["inputs"], "13 forms of JSON text with any digits and Unicode characters, every text of up to 2 characters, several messages",
     "Tests read one file of objects.",
     ["sawatabi/algorithm/io.py"], [("_read_as_json", "sawatabi/algorithm/io.py")])
prop("C30", "Helper functions compute exactly what they name",
     "The element-wise helpers return, position by position, the sum, difference, maximum or minimum of two equally long tuples or lists as a new sequence of that kind, and reject any other combination of arguments. The time helpers give the current time in their unit, the integer ones its whole part, and a profiled function is called once with "
     "its arguments, its result and elapsed time are returned and its exceptions propagate.",
     ["inputs"], "all numbers, sequences of up to 4 elements, any clock values",
     "Tests use a few fixed small tuples and the real clock.",
     ["sawatabi/utils/functions.py", "sawatabi/utils/time.py", "sawatabi/utils/profile.py"],
     [("elementwise_*", "sawatabi/utils/functions.py"), ("current_time*", "sawatabi/utils/time.py"), ("profile", "sawatabi/utils/profile.py")])

json_lines = "\n".join(json.dumps(p) for p in P) + "\n"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
open("properties.jsonl", "w").write(json_lines)
