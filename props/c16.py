"""C16: solver reads, initial states and seeds are honoured."""
import copy

from sawatabi.model import PhysicalModel
from sawatabi.solver import SawatabiSolver

from vp import Unit
from vp.annealing import energy, plant, randomness, rows
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, attempt, clocked, raw, same

ASSUMPTIONS = ["random generator replaced by one whose outcomes are symbolic: equal seeds give the same stream from its start, no seed gives a fresh stream",
               "an empty list of initial states counts as none given"]


def model(sx, mtype, n=2):
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    a = m.variables("a", shape=(1,))
    m.add_interaction((x[2], a[0]), coefficient=sx.real("J", nonzero=True))
    if n > 1:
        m.add_interaction(x[2], coefficient=sx.real("h"))
    m.offset(sx.real("off"))
    return m.to_physical()


def phys(p):
    lin, quad, off = raw(p)
    return {"t": p.get_mtype(), "l": lin, "q": {str(k): v for k, v in quad.items()}, "o": off, "i": dict(p._label_to_index), "v": sorted(p._variables_set)}


def flat(ss):
    out = []
    for s, e, occ in rows(ss):
        out += [(tuple(sorted(s.items())), e)] * occ
    return out


@clocked
def initial_states(sx):
    """zero sweeps return exactly the given states; nothing of the caller's is modified"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    p = model(sx, mtype)
    labels = sorted(p._label_to_index)
    reads = sx.choice("reads", [1, 2, 3])
    order = sx.choice("key order", [1, -1])
    states = [{v: (1 if sx.flag(f"i{r}{v}") else lo) for v in labels[::order]} for r in range(reads)]
    if sx.choice("extra", [False, True]):
        for s in states:
            s["x[0]"] = 1  # a variable the model does not use
    kw = {}
    rev = sx.choice("reverse", [None, {}, {"reverse_period": 2, "reverse_temperature": 4.0}])
    if rev is not None:
        kw["reverse_options"] = rev
    before = copy.deepcopy(states)
    rev0 = copy.deepcopy(rev)
    pb = phys(p)
    with randomness(sx):
        ss = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=0, initial_states=states, pickup_mode=sx.choice("pickup", ["random", "sequential"]), **kw)
    got = flat(ss)
    sx.check("reads", len(got) == reads)
    want = sorted(tuple(sorted((v, s[v]) for v in labels)) for s in before)
    sx.check("initial-states", sorted(g[0] for g in got) == want, f"{[g[0] for g in got]} want {want}")
    sx.check_all([("energy", sx.eq(e, energy(p, dict(s)))) for s, e in got])
    sx.check("caller-states", states == before)
    sx.check("caller-options", rev == rev0)
    sx.check("caller-model", same(sx, pb, phys(p)))


@clocked
def untouched(sx):
    """with sweeps: the caller's objects stay as they were"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    p = model(sx, mtype, 1)
    labels = sorted(p._label_to_index)
    states = [{v: (1 if sx.flag(f"i{v}") else lo) for v in labels}]
    rev = sx.choice("reverse", [None, {"reverse_period": 1, "reverse_temperature": 4.0}])
    before, rev0, pb = copy.deepcopy(states), copy.deepcopy(rev), phys(p)
    given = sx.choice("given", [True, False])
    with randomness(sx):
        SawatabiSolver().solve(p, num_sweeps=2, initial_states=states if given else None, reverse_options=rev, pickup_mode="sequential", initial_temperature=1.0)
    sx.check("caller-states", states == before)
    sx.check("caller-options", rev == rev0)
    sx.check("caller-model", same(sx, pb, phys(p)))


@clocked
def seeds(sx):
    """equal seeds give equal results, on the same and on another solver object"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = model(sx, mtype, 1)
    seed = sx.choice("seed", [0, 1, 12345, 2**40])
    pick = sx.choice("pickup", ["random", "sequential"])
    reads = sx.choice("reads", [1, 2]) if pick == "sequential" else 1
    s1 = SawatabiSolver()
    s2 = s1 if sx.choice("same object", [True, False]) else SawatabiSolver()
    kw = dict(num_sweeps=1, num_reads=reads, pickup_mode=pick, initial_temperature=1.0)
    with randomness(sx) as rng:
        a = flat(s1.solve(p, seed=seed, **kw))
        b = flat(s2.solve(p, seed=seed, **kw))
        sx.check("generator-per-solve", len(rng.seeds) >= 1)
    sx.check("same-samples", [x[0] for x in a] == [x[0] for x in b], f"{a} {b}")
    sx.check_all([("same-energies", sx.eq(x[1], y[1])) for x, y in zip(a, b)])


@clocked
def any_seed(sx):
    """every integer seed reaches the generator as given"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = model(sx, mtype, 1)
    seed = sx.int("seed", lo=0)
    with randomness(sx) as rng:
        SawatabiSolver().solve(p, seed=seed, num_sweeps=0)
    sx.check("seed-used", len(rng.seeds) > 0 and all(s is not None for s in rng.seeds), str(rng.seeds))
    sx.check_all([("seed-exact", sx.eq(s, seed)) for s in rng.seeds])


@clocked
def reads_count(sx):
    """exactly the requested number of reads, each with its own random start"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    p = model(sx, mtype, 1)
    reads = sx.choice("reads", [1, 2, 3])
    with randomness(sx) as rng:
        r = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=0, seed=7, need_stats=True)
    got = flat(r[0])
    sx.check("reads", len(got) == reads and len(r[1]) == reads)
    ints = [sx.int(f"s7i{k + 1}", lo=0, hi=1) for k in range(2 * reads)]
    ones = 0
    for k in ints:
        ones = ones + k
    # each start spin is one of the drawn ones: as many ones as drawn, over all reads together
    n1 = sum(1 for s, _ in got for _, v in s if v == 1)
    sx.check("independent-starts", sx.Or(sx.eq(ones, n1), sx.eq(ones, 2 * reads - n1)), f"{got}")
    per = sorted(tuple(sorted(v for _, v in s)) for s, _ in got)
    drawn = sorted(tuple(sorted(1 if int(ints[2 * r + i]) == 1 else lo for i in range(2))) for r in range(reads))
    flipped = sorted(tuple(sorted(lo if int(ints[2 * r + i]) == 1 else 1 for i in range(2))) for r in range(reads))
    sx.check("start-per-read", per in (drawn, flipped), f"{per} drawn {drawn}")


@clocked
def rejects(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = model(sx, mtype)
    ok = {v: 1 for v in p._label_to_index}
    V, T = ValueError, TypeError
    offset_only = PhysicalModel(mtype=mtype)
    offset_only._offset = sx.real("only")
    cases = [
        ("empty", V, PhysicalModel(mtype=mtype), {}),
        ("empty with states", V, PhysicalModel(mtype=mtype), {"initial_states": [{}]}),
        ("offset only", V, offset_only, {}),
        ("empty converted", V, LogicalModel(mtype=mtype).to_physical(), {"num_reads": 2}),
        ("logical", T, LogicalModel(mtype=mtype), {}),
        ("none", T, None, {}),
        ("pickup", V, p, {"pickup_mode": "other"}),
        ("pickup none", V, p, {"pickup_mode": None}),
        ("pickup case", V, p, {"pickup_mode": "Random"}),
        ("few states", V, p, {"initial_states": [ok], "num_reads": 2}),
        ("many states", V, p, {"initial_states": [ok, ok, ok], "num_reads": 2}),
        ("empty states", V, p, {"initial_states": [{}], "num_reads": 3}),
        ("many empty states", V, p, {"initial_states": [{}, {}, {}], "num_reads": 2}),
        ("states default reads", V, p, {"initial_states": [ok, ok]}),
        ("no period", V, p, {"reverse_options": {"reverse_temperature": 1.0}}),
        ("no temperature", V, p, {"reverse_options": {"reverse_period": 1}}),
        ("other keys", V, p, {"reverse_options": {"period": 1, "temperature": 2}}),
        ("not a dict", T, p, {"reverse_options": [1, 2]}),
    ]
    label, exc, mm, kw = cases[sx.choice("case", range(len(cases)))]
    with randomness(sx):
        e, _ = attempt(SawatabiSolver().solve, mm, **{"num_sweeps": 1, **kw})
    sx.check("rejected", isinstance(e, exc), f"{label}: {e!r}")


def wide(sx, mtype, n=13):
    m = LogicalModel(mtype=mtype)
    y = m.variables("name with space", shape=(2, 2))
    x = m.variables("x", shape=(n,))
    vs = [x[(i * 5 + 7) % n] for i in range(n)] + [y[0, 1], y[1, 0]]
    for i in range(len(vs) - 1):
        m.add_interaction((vs[i], vs[i + 1]), coefficient=sx.real(f"J{i}", nonzero=True))
    m.offset(sx.real("off"))
    return m.to_physical()


@clocked
def many(sx):
    """many variables, many reads: each read returns the state given for it"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    p = wide(sx, mtype)
    labels = sorted(p._label_to_index)
    reads = sx.choice("reads", [1, 5, 25])
    order = sx.choice("key order", [1, -1])
    states = [{v: (1 if (i * i + r * (i + 3)) % 7 < 3 else lo) for i, v in enumerate(labels[::order])} for r in range(reads)]
    before, pb = copy.deepcopy(states), phys(p)
    with randomness(sx, plan=lambda k: k % 2):
        ss, stats = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=0, initial_states=states, seed=sx.choice("seed", [None, 3]), need_stats=True)
    got = flat(ss)
    sx.check("reads", len(got) == reads and len(stats) == reads)
    sx.check("initial-states", sorted(g[0] for g in got) == sorted(tuple(sorted(s.items())) for s in before))
    sx.check_all([("energy", sx.eq(e, energy(p, dict(s)))) for s, e in got])
    sx.check("caller-states", states == before)
    sx.check("caller-model", same(sx, pb, phys(p)))


@clocked
def starts(sx):
    """many variables, many reads: every read starts where its own draws say"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    p = wide(sx, mtype, 11)
    n = 13
    reads = 8
    bit = lambda k: (k * k // 3 + k // 5) % 2  # noqa: E731
    with randomness(sx, plan=bit):
        ss = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=0, seed=7)
    got = flat(ss)
    sx.check("reads", len(got) == reads)
    labels = [p._index_to_label[i] for i in range(n)]
    drawn = sorted(tuple(sorted(zip(labels, [1 if bit(r * n + i + 1) else lo for i in range(n)]))) for r in range(reads))
    flipped = sorted(tuple(sorted(zip(labels, [lo if bit(r * n + i + 1) else 1 for i in range(n)]))) for r in range(reads))
    count = lambda ss: sorted(sorted(v for _, v in s) for s in ss)  # noqa: E731
    have = count(g[0] for g in got)
    sx.check("start-per-read", have in (count(drawn), count(flipped)), f"{have}")
    sx.check_all([("energy", sx.eq(e, energy(p, dict(s)))) for s, e in got])


@clocked
def long_seed(sx):
    """equal seeds give equal results over many variables, sweeps and reads"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = plant(sx, mtype, 8, (1,))
    sx.exp_pairs = 0
    u = sx.real("u", lo=0.375, hi=0.39)
    reads = sx.choice("reads", [1, 6])
    kw = dict(num_sweeps=5, num_reads=reads, pickup_mode=sx.choice("pickup", ["random", "sequential"]), initial_temperature=2.0**16)
    rev = sx.choice("reverse", [None, {"reverse_period": 3, "reverse_temperature": 2.0**16}])
    rev0 = copy.deepcopy(rev)
    s = SawatabiSolver()
    with randomness(sx, common=u, plan=lambda k: (k * k // 3) % 2):
        a = flat(s.solve(p, seed=11, reverse_options=rev, **kw))
        s.solve(p, seed=12, **kw)
        b = flat(s.solve(p, seed=11, reverse_options=rev, **kw))
    sx.check("caller-options", rev == rev0)
    sx.check("same-samples", [x[0] for x in a] == [x[0] for x in b], f"{a} {b}")
    sx.check_all([("same-energies", sx.eq(x[1], y[1])) for x, y in zip(a, b)])


@clocked
def same_solver(sx):
    """solves on one solver object do not influence one another"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p, q = wide(sx, mtype, 7), wide(sx, mtype, 6)
    reads = sx.choice("reads", [1, 5])
    rev = sx.choice("reverse", [None, {"reverse_period": 3, "reverse_temperature": 16.0}])
    lo = -1 if mtype == "ising" else 0
    states = [{v: (1 if (i + r) % 3 else lo) for i, v in enumerate(sorted(p._label_to_index))} for r in range(reads)]
    between = sx.choice("between", ["other seed", "other model", "given states", "more reads", "rejected"])
    kw = {} if rev is None else {"reverse_options": rev}
    s = SawatabiSolver()
    with randomness(sx, plan=lambda k, key: (k * k // 3 + sum(map(ord, key)) * k // 2) % 2):
        a = flat(s.solve(p, seed=11, num_sweeps=0, num_reads=reads, **kw))
        if between == "other seed":
            s.solve(p, seed=12, num_sweeps=0, num_reads=reads, **kw)
        elif between == "other model":
            s.solve(q, seed=11, num_sweeps=0, num_reads=reads, **kw)
        elif between == "given states":
            s.solve(p, seed=13, num_sweeps=0, num_reads=reads, initial_states=states, **kw)
        elif between == "more reads":
            s.solve(p, seed=13, num_sweeps=0, num_reads=reads + 2, **kw)
        else:
            e, _ = attempt(s.solve, p, seed=14, num_sweeps=0, num_reads=0, **kw)
        b = flat(s.solve(p, seed=11, num_sweeps=0, num_reads=reads, **kw))
        c = flat(SawatabiSolver().solve(p, seed=11, num_sweeps=0, num_reads=reads, **kw))
    for other in (b, c):
        sx.check("same-samples", [x[0] for x in a] == [x[0] for x in other])
        sx.check_all([("same-energies", sx.eq(x[1], y[1])) for x, y in zip(a, other)])
    sx.check("reads", len(a) == len(b) == len(c) == reads)


UNITS = [
    Unit("initial-states", initial_states, "1-3 reads, every initial state, zero sweeps, reverse options or not", ["initial-states", "caller-states", "caller-options", "caller-model", "reads", "energy"]),
    Unit("untouched", untouched, "2 sweeps, every state and draw", ["caller-states", "caller-options", "caller-model"]),
    Unit("seeds", seeds, "4 seeds including 0, same and other solver object, 1-2 reads, every random stream", ["same-samples", "same-energies"]),
    Unit("any-seed", any_seed, "every non-negative integer seed", ["seed-used", "seed-exact"]),
    Unit("reads", reads_count, "1-3 reads, every random start", ["reads", "independent-starts", "start-per-read"]),
    Unit("rejects", rejects, "18 kinds of invalid call", ["rejected"]),
    Unit("many", many, "15 variables in two arrays, up to 25 reads, states from a pattern; all coefficients and offsets", ["initial-states", "caller-states", "caller-model", "reads", "energy"]),
    Unit("starts", starts, "13 variables, 8 reads, draws from a pattern; all coefficients", ["reads", "start-per-read", "energy"]),
    Unit("long-seed", long_seed, "8 variables, 5 sweeps, 1 or 6 reads, another seed in between", ["same-samples", "same-energies", "caller-options"]),
    Unit("same-solver", same_solver, "one solver object, another solve in between (seed, model, given states, reads, rejected), zero sweeps, reverse options or not; all coefficients", ["same-samples", "same-energies"]),
]
