"""C14: the annealing solver reports each sample's true energy."""
from sawatabi.solver import SawatabiSolver

from vp import Unit
from vp.annealing import energy, plant, randomness, rows
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, NHotConstraint, clocked

ASSUMPTIONS = ["random generator replaced by one whose outcomes are symbolic (any initial spins, any permutation, any draws in [2^-53, 1))",
               "exp is an uninterpreted function with its basic laws (positivity, monotonicity, exp(x) >= 1+x)",
               "dimod runs for real (object dtype while symbolic); temperatures and cooling rates are from a list"]


def verify(sx, p, ss, mtype, reads, label="energy"):
    vals = (1, -1) if mtype == "ising" else (1, 0)
    used = set(p._label_to_index)
    items = []
    n = 0
    for s, e, occ in rows(ss):
        n += occ
        items.append(("complete", set(s) == used, str(s)))
        items.append(("values", all(v in vals for v in s.values()), str(s)))
        items.append((label, sx.eq(e, energy(p, s)), f"{s}"))
    items.append(("reads", n == reads))
    items.append(("vartype", ss.vartype.name == ("SPIN" if mtype == "ising" else "BINARY")))
    sx.check_all(items)
    sx.observe("ss", [[sorted(s.items()), e, o] for s, e, o in rows(ss)])


def model(sx, mtype, kind):
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    if kind == "one":
        m.add_interaction(x[1], coefficient=sx.real("h", nonzero=True))
    elif kind == "pair":
        m.add_interaction((x[2], x[0]), coefficient=sx.real("J", nonzero=True))
        m.add_interaction(x[2], coefficient=sx.real("h"))
    elif kind == "two arrays":
        a = m.variables("a", shape=(1,))
        m.add_interaction((x[1], a[0]), coefficient=sx.real("J", nonzero=True))
        m.add_interaction(a[0], coefficient=sx.real("h"))
    elif kind == "three":
        m.add_interaction((x[0], x[2]), coefficient=sx.real("J", nonzero=True))
        m.add_interaction((x[1], x[2]), coefficient=sx.real("K", positive=True))
        m.add_interaction(x[1], coefficient=2.0)
    elif kind == "constraint":
        m.add_constraint(NHotConstraint([x[0], x[1]], strength=sx.real("s", positive=True)))
        m.add_interaction(x[0], coefficient=sx.real("h", nonzero=True))
    m.offset(sx.real("off"))
    return m.to_physical()


def run(sx, kind, sweeps, reads, pickups=("random",), reverse=(None,), temps=(100.0,), initial=(False,), mtypes=("ising", "qubo")):
    mtype = sx.choice("mtype", mtypes)
    p = model(sx, mtype, sx.choice("model", kind) if isinstance(kind, list) else kind)
    kw = {"num_sweeps": sx.choice("sweeps", sweeps), "num_reads": sx.choice("reads", reads), "pickup_mode": sx.choice("pickup", pickups),
          "initial_temperature": sx.choice("temperature", temps), "cooling_rate": 0.5}
    r = sx.choice("reverse", reverse)
    if r:
        kw["reverse_options"] = dict(r)
    if sx.choice("initial", initial):
        lo = -1 if mtype == "ising" else 0
        kw["initial_states"] = [{v: (1 if sx.flag(f"init{k}{v}") else lo) for v in p._label_to_index} for k in range(kw["num_reads"])]
    stats = sx.choice("stats", [False, True]) if sx.choices.get("sweeps") == 1 and not sx.choices.get("model") else False
    with randomness(sx):
        r = SawatabiSolver().solve(p, need_stats=stats, **kw)
    ss = r[0] if stats else r
    verify(sx, p, ss, mtype, kw["num_reads"])
    if stats:
        sx.check("stats-per-read", len(r[1]) == kw["num_reads"])


@clocked
def small(sx):
    run(sx, ["one", "pair", "two arrays"], [0, 1], [1])


@clocked
def two_sweeps(sx):
    run(sx, "pair", [2], [1], pickups=("sequential", "random"), temps=(1.0,))


@clocked
def three(sx):
    run(sx, "three", [1], [1], pickups=("sequential",), temps=(1.0,))


@clocked
def reads(sx):
    run(sx, ["one", "two arrays"], [1], [2], pickups=("sequential",))


@clocked
def reverse(sx):
    run(sx, "pair", [1, 2], [1], pickups=("sequential",), initial=(True,),
        reverse=({"reverse_period": 1, "reverse_temperature": 8.0}, {"reverse_period": 5, "reverse_temperature": 2.0}, {"reverse_period": 0, "reverse_temperature": 1.0}))


@clocked
def constrained(sx):
    run(sx, "constraint", [1], [1], pickups=("sequential",), temps=(2.0,))


@clocked
def initial(sx):
    run(sx, ["pair", "two arrays"], [0, 1], [1, 2], pickups=("sequential",), initial=(True,))


def run_big(sx, n, sweeps, reads, near=(1, 3)):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = plant(sx, mtype, n, near)
    sx.exp_pairs = 0
    hot = sx.choice("temperature", ["hot", "cold"]) == "hot"
    lo = -1 if mtype == "ising" else 0
    u = sx.real("u", lo=0.375, hi=0.39)
    kw = {}
    if sx.choice("initial", [True, False]):
        kw["initial_states"] = [{v: (1 if (i * 7 + r * 3) % 4 < 2 else lo) for i, v in enumerate(sorted(p._label_to_index))} for r in range(reads)]
    with randomness(sx, common=u, plan=lambda k: (k * 5 // 3) % 2):
        ss, stats = SawatabiSolver().solve(p, num_sweeps=sweeps, num_reads=reads, initial_temperature=2.0**16 if hot else 2.0**-6, cooling_rate=0.75 if not hot else 1.0,
                                           pickup_mode=sx.choice("pickup", ["sequential", "random"]), seed=3, need_stats=True, **kw)
    verify(sx, p, ss, mtype, reads)
    items = []
    for st in stats:
        items.append(("stats-per-read", len(st["energy_history"]) == sweeps))
    sx.check_all(items)


@clocked
def big(sx):
    run_big(sx, 14, 4, 2)


@clocked
def many_reads(sx):
    run_big(sx, 6, 2, 14, near=(1,))


@clocked
def long(sx):
    run_big(sx, 6, 40, 1, near=(1,))


@clocked
def dense(sx):
    run_big(sx, 14, 2, 1, near=(1, 2, 3, 4, 5, 6))


@clocked
def hub(sx):
    """one variable coupled to forty others, flipped back and forth"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(41,))
    m.add_interaction(x[20], coefficient=sx.real("h", lo=100, hi=101))
    for i in range(41):
        if i != 20:
            m.add_interaction((x[20], x[i]), coefficient=sx.real(f"J{i}", lo=0.125, hi=1) * (1 if i % 3 == 1 else -1))
    m.offset(sx.real("off"))
    p = m.to_physical()
    sx.exp_pairs = 0
    u = sx.real("u", lo=0.375, hi=0.39)
    sweeps, reads = 2, 2
    init = [{v: (1 if (i * 7 + r * 3) % 4 < 2 else lo) for i, v in enumerate(sorted(p._label_to_index))} for r in range(reads)]
    with randomness(sx, common=u):
        ss = SawatabiSolver().solve(p, num_sweeps=sweeps, num_reads=reads, initial_temperature=2.0**16, cooling_rate=1.0, initial_states=init, pickup_mode=sx.choice("pickup", ["sequential", "random"]), seed=3)
    verify(sx, p, ss, mtype, reads)


UNITS = [
    Unit("small", small, "1-2 variables, 0-1 sweeps, random order; all coefficients, offsets, initial spins and draws", ["energy", "complete", "values", "reads"]),
    Unit("two-sweeps", two_sweeps, "2 variables, 2 sweeps, both pick-up modes", ["energy"]),
    Unit("three", three, "3 variables, 1 sweep", ["energy"]),
    Unit("reads", reads, "2 reads (equal samples aggregated)", ["energy", "reads"]),
    Unit("reverse", reverse, "reverse options with period 0, 1 and beyond the sweeps, given initial states", ["energy"]),
    Unit("constrained", constrained, "a constraint's penalty in the model", ["energy"]),
    Unit("initial", initial, "every initial state, 0-1 sweeps, 1-2 reads", ["energy"]),
    Unit("big", big, "14 densely coupled variables, 4 sweeps, 2 reads, very hot or very cold: all coefficients within a range that fixes the direction of each flip, all offsets", ["energy", "complete", "values", "reads"]),
    Unit("many-reads", many_reads, "6 variables, 2 sweeps, 14 reads, as big", ["energy", "reads"]),
    Unit("long", long, "6 variables, 40 sweeps, as big", ["energy", "reads"]),
    Unit("dense", dense, "14 variables with 12 couplings each, 2 sweeps, as big", ["energy", "reads"]),
    Unit("hub", hub, "one variable coupled to 40 others, 2 sweeps, 2 reads, very hot; all coefficients within ranges", ["energy", "reads"]),
]
