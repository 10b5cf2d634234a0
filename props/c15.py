"""C15: annealing follows the documented schedule and the Metropolis rule."""
import itertools

from sawatabi.solver import SawatabiSolver

from vp import Unit
from vp.annealing import energy, exp, plant, randomness, rows
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, clocked

ASSUMPTIONS = ["random generator replaced by one whose outcomes are symbolic; where the order of consumption must not matter, every acceptance draw is the same symbol u in [2^-53, 1)",
               "exp is an uninterpreted function with its basic laws; temperatures and cooling rates are dyadic numbers from a list (one unit: every initial temperature)",
               "the starting temperature of reverse annealing counts as near zero when in (0, 1e-6]"]


def model(sx, mtype, kind, off=None):
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    if kind == "one":
        m.add_interaction(x[1], coefficient=sx.real("h", nonzero=True))
    elif kind == "two":
        m.add_interaction(x[0], coefficient=sx.real("h", nonzero=True))
        m.add_interaction((x[1], x[0]), coefficient=sx.real("J", nonzero=True))
    elif kind == "three":
        m.add_interaction(x[0], coefficient=sx.real("h", nonzero=True))
        m.add_interaction((x[2], x[1]), coefficient=sx.real("J", nonzero=True))
        m.add_interaction((x[0], x[2]), coefficient=1.5)
    m.offset(sx.real("off") if off is None else off)
    return m.to_physical()


def schedule(sx, temps, n, T0, c, rev):
    """the documented temperatures"""
    items = [("temperature-count", len(temps) == n)]
    if len(temps) == n and n:
        if rev is None:
            items += [("temperature", sx.eq(t, T0 * c**k), f"{k}: {t}") for k, t in enumerate(temps)]
        else:
            P, R = rev["reverse_period"], rev["reverse_temperature"]
            items.append(("reverse-start", 0 < temps[0] <= 1e-6, str(temps[0])))
            for k in range(1, n):
                if k <= P:
                    items.append(("reverse-rises", sx.eq(temps[k], R * (1 - c**k)), f"{k}: {temps[k]}"))
                else:
                    items.append(("reverse-cools", sx.eq(temps[k], temps[P] * c ** (k - P)), f"{k}: {temps[k]}"))
    sx.check_all(items)


class Sim:
    """reference annealing by the definition of the energy"""

    def __init__(self, p, state, lo, u):
        self.p, self.s, self.lo, self.u = p, dict(state), lo, u
        self.E = energy(p, self.s)

    def copy(self):
        o = Sim.__new__(Sim)
        o.__dict__.update(self.__dict__)
        o.s = dict(self.s)
        return o

    def sweep(self, order, T):
        acc = 0
        for v in order:
            t = dict(self.s)
            t[v] = self.lo if t[v] == 1 else 1
            e = energy(self.p, t)
            rise = e - self.E
            if rise <= 0 or self.u < exp(-rise / T):
                self.s, self.E, acc = t, e, acc + 1
        return acc


def run(sx, kinds, sweeps, pickups=("sequential",), temps=(1.0,), cool=(0.5,), reverse=(None,), mtypes=("ising", "qubo"), symT=False, given=True, off=None):
    mtype = sx.choice("mtype", mtypes)
    lo = -1 if mtype == "ising" else 0
    p = model(sx, mtype, sx.choice("model", kinds), off)
    T0 = sx.real("T0", positive=True) if symT else sx.choice("temperature", temps)
    c = sx.choice("cooling", cool)
    rev = sx.choice("reverse", reverse)
    pick = sx.choice("pickup", pickups)
    n = sx.choice("sweeps", sweeps)
    labels = [p._index_to_label[i] for i in range(len(p._index_to_label))]
    init = {v: sx.choice("init" + v, [1, lo]) for v in labels}
    u = sx.real("u", lo=2.0**-53)
    sx.assume(u < 1)
    kw = {}
    if rev is not None:
        kw["reverse_options"] = dict(rev)
    with randomness(sx, common=u) as rng:
        ss, stats = SawatabiSolver().solve(p, num_sweeps=n, cooling_rate=c, initial_temperature=T0, initial_states=[dict(init)], pickup_mode=pick, seed=3,
                                           need_stats=True, **kw)
    sx.check("one-read", len(stats) == 1)
    st = stats[0]
    schedule(sx, st["temperature_history"], n, T0, c, rev)
    eh, ah = st["energy_history"], st["acceptance_history"]
    sx.check("history-lengths", len(eh) == n and len(ah) == n, f"{len(eh)} {len(ah)}")
    (final, fe, occ), = rows(ss)
    orders = [labels]
    given = None
    if pick == "random":
        orders = [list(o) for o in itertools.permutations(labels)]
        given = [[labels[i] for i in o] for r in rng.made for o in r.orders]

    def attempt_orders(orders_per_sweep):
        """follow the visits; None unless acceptance counts and the final state agree"""
        s = Sim(p, init, lo, u)
        conds = []
        for k, o in enumerate(orders_per_sweep):
            conds.append(("energy-history", sx.eq(eh[k], s.E), f"sweep {k}"))
            if s.sweep(o, st["temperature_history"][k]) != int(ah[k]):
                return None
        if s.s != final:
            return None
        conds.append(("final-energy", sx.eq(fe, s.E)))
        return conds

    tried = []
    if given is not None and len(given) == n:
        tried.append(given)
    elif pick != "random":
        tried.append(orders * n)
    conds = None
    for t in tried:
        conds = attempt_orders(t)
    if conds is None and pick == "random":
        for t in itertools.product(orders, repeat=n):
            conds = attempt_orders(t)
            if conds is not None:
                break
    sx.check("metropolis", conds is not None, f"start {init} end {final} accepted {list(ah)}")
    sx.check_all(conds)
    sx.observe("r", [sorted(final.items()), fe, [int(a) for a in ah], list(eh)])


@clocked
def one(sx):
    run(sx, ["one"], [1, 2, 3], pickups=("sequential", "random"), temps=(1.0, 8.0), cool=(0.5, 1.0))


@clocked
def two(sx):
    run(sx, ["two"], [1, 2], temps=(1.0, 4.0), cool=(0.5,))


@clocked
def three(sx):
    run(sx, ["three"], [1], temps=(2.0,))


@clocked
def rand(sx):
    run(sx, ["two"], [1, 2], pickups=("random",), off=0.5)


@clocked
def rand3(sx):
    run(sx, ["three"], [1], pickups=("random",), mtypes=("ising",), off=0.5)


REV = ({"reverse_period": 0, "reverse_temperature": 4.0}, {"reverse_period": 1, "reverse_temperature": 4.0}, {"reverse_period": 2, "reverse_temperature": 1.0},
       {"reverse_period": 9, "reverse_temperature": 2.0})


@clocked
def reverse(sx):
    run(sx, ["one"], [1, 3, 4], reverse=REV, cool=(0.5, 0.25))


@clocked
def reverse2(sx):
    run(sx, ["two"], [2], reverse=REV[1:3], mtypes=("ising",))


@clocked
def any_temperature(sx):
    run(sx, ["one"], [1, 2], symT=True, off=0.0)


@clocked
def fresh_draws(sx):
    """every decision uses its own draw: independent variables at the bottom of their wells, one sweep"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    n = sx.choice("n", [1, 2, 3])
    reads = sx.choice("reads", [1, 2])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    sign = sx.choice("sign", [1, -1])
    hs = []
    for i in range(n):
        h = sx.real(f"h{i}", positive=True)
        hs.append(h)
        m.add_interaction(x[i], coefficient=sign * h)
    p = m.to_physical()
    s0 = 1 if sign == 1 else lo
    T = 2.0
    with randomness(sx) as rng:
        ss, stats = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=1, initial_temperature=T, initial_states=[{f"x[{i}]": s0 for i in range(n)}] * reads,
                                           pickup_mode="sequential", seed=5, need_stats=True)
    sx.check("reads-count", len(stats) == reads)
    us = [sx.real(f"s5u{k + 1}", lo=2.0**-53) for k in range(n * reads)]
    d = 2 if mtype == "ising" else 1
    want = []
    for r in range(reads):
        s = []
        for i in range(n):
            s.append((lo if s0 == 1 else 1) if us[r * n + i] < exp(-(hs[i] * d) / T) else s0)
        want.append(tuple(s))
        sx.check("own-draw-count", int(stats[r]["acceptance_history"][0]) == sum(1 for a in s if a != s0), f"read {r}")
    got = []
    for s, _, occ in rows(ss):
        got += [tuple(s[f"x[{i}]"] for i in range(n))] * occ
    sx.check("own-draw", sorted(got) == sorted(want), f"{sorted(got)} want {sorted(want)}")


def run_big(sx, n, sweeps, temps, cool, reverse=(None,), reads=1, near=(1,)):
    """many variables or sweeps; fields dominate couplings, so that each decision is the same for all values of the coefficients"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    p = plant(sx, mtype, n, near)
    sx.exp_pairs = 0
    labels = [p._index_to_label[i] for i in range(n)]
    T0, c, rev = sx.choice("temperature", temps), sx.choice("cooling", cool), sx.choice("reverse", reverse)
    pick = sx.choice("pickup", ["sequential", "random"])
    init = [{v: (1 if (i * 7 + r * 3) % 4 < 2 else lo) for i, v in enumerate(labels)} for r in range(reads)]
    u = sx.real("u", lo=0.375, hi=0.39)
    kw = {} if rev is None else {"reverse_options": dict(rev)}
    with randomness(sx, common=u) as rng:
        ss, stats = SawatabiSolver().solve(p, num_sweeps=sweeps, num_reads=reads, cooling_rate=c, initial_temperature=T0, initial_states=[dict(s) for s in init],
                                           pickup_mode=pick, seed=3, need_stats=True, **kw)
    orders = [[labels[i] for i in o] for r in rng.made for o in r.orders] if pick == "random" else [labels] * (sweeps * reads)
    sx.check("one-stat-per-read", len(stats) == reads)
    finals = []
    for r, st in enumerate(stats):
        schedule(sx, st["temperature_history"], sweeps, T0, c, rev)
        eh, ah = st["energy_history"], st["acceptance_history"]
        sx.check("history-lengths", len(eh) == sweeps and len(ah) == sweeps)
        if len(orders) != sweeps * reads:
            continue  # the visiting order is not observable
        sim = Sim(p, init[r], lo, u)
        items = []
        for k in range(sweeps):
            items.append(("energy-history", sx.eq(eh[k], sim.E), f"read {r} sweep {k}"))
            got = sim.sweep(orders[r * sweeps + k], st["temperature_history"][k])
            items.append(("acceptances", got == int(ah[k]), f"read {r} sweep {k}: {ah[k]} want {got}"))
        finals.append(tuple(sorted(sim.s.items())))
        sx.check_all(items)
    got = []
    for s, e, occ in rows(ss):
        got += [tuple(sorted(s.items()))] * occ
        sx.check("final-energy", sx.eq(e, energy(p, s)))
    if len(finals) == reads:
        sx.check("metropolis", sorted(got) == sorted(finals))
    sx.observe("r", [[int(a) for st in stats for a in st["acceptance_history"]], sorted(got)])


@clocked
def big(sx):
    run_big(sx, 13, 3, [2.0**16, 2.0**-6], [0.75], near=(1, 3))


@clocked
def long(sx):
    run_big(sx, 6, 24, [2.0**16], [0.25, 0.5, 1.0])


@clocked
def long_reverse(sx):
    run_big(sx, 6, 20, [1.0], [0.5], reverse=[{"reverse_period": P, "reverse_temperature": 2.0**20} for P in (0, 3, 12, 20, 50)])


@clocked
def reads(sx):
    run_big(sx, 6, 3, [2.0**16, 2.0**-6], [0.5], reverse=[None, {"reverse_period": 2, "reverse_temperature": 2.0**20}], reads=6)


@clocked
def many_draws(sx):
    """as fresh-draws, with many variables: draws from a pattern that never repeats, fields such that a low draw accepts and a high one rejects"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    n, reads, sweeps = sx.choice("size", [(150, 2, 1), (5, 60, 1), (1, 300, 1)])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(n,))
    for i in range(n):
        m.add_interaction(x[i], coefficient=sx.real(f"h{i}", lo=2, hi=4) * (1 if i % 3 else -1))
    p = m.to_physical()
    sx.exp_pairs = 0
    start = {f"x[{i}]": 1 if i % 3 else lo for i in range(n)}
    low = lambda k: bin(k * 2654435761 & 0xFFFFFFFF).count("1") % 2 == 1  # noqa: E731
    with randomness(sx, draws=lambda k: 0.0625 if low(k) else 0.9375):
        ss, stats = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=sweeps, initial_temperature=16.0, initial_states=[dict(start) for _ in range(reads)], pickup_mode="sequential", seed=5, need_stats=True)
    labels = [p._index_to_label[i] for i in range(n)]
    want = []
    for r in range(reads):
        flips = [low(r * n + i + 1) for i in range(n)]
        want.append(tuple((lo if start[v] == 1 else 1) if f else start[v] for v, f in zip(labels, flips)))
        sx.check("own-draw-count", int(stats[r]["acceptance_history"][0]) == sum(flips), f"read {r}")
    got = []
    for s, _, occ in rows(ss):
        got += [tuple(s[v] for v in labels)] * occ
    sx.check("own-draw", sorted(got) == sorted(want))


@clocked
def visits(sx):
    """each sweep visits every variable once: independent variables, so hot that each visit is a flip; whatever the order is"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    lo = -1 if mtype == "ising" else 0
    n, sweeps = sx.choice("size", [(12, 3), (70, 2), (6, 9)])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(n,))
    for i in range(n):
        m.add_interaction(x[i], coefficient=sx.real(f"h{i}", lo=2, hi=4) * (1 if i % 3 else -1))
    p = m.to_physical()
    sx.exp_pairs = 0
    c = sx.choice("cooling", [0.75, 1.0, 1.5])
    rev = sx.choice("reverse", [None, {"reverse_period": 1, "reverse_temperature": 2.0**16}]) if c < 1 and n == 12 else None
    start = {f"x[{i}]": 1 if i % 2 else lo for i in range(n)}
    reads = sx.choice("reads", [1, 2])
    kw = {} if rev is None else {"reverse_options": dict(rev)}
    with randomness(sx, draws=lambda k: 0.0625 if k % 2 else 0.5, plan=lambda k: 0):
        ss, stats = SawatabiSolver().solve(p, num_reads=reads, num_sweeps=sweeps, cooling_rate=c, initial_temperature=2.0**16, initial_states=[dict(start) for _ in range(reads)],
                                           pickup_mode=sx.choice("pickup", ["sequential", "random"]), seed=5, need_stats=True, **kw)
    sx.check("reads-count", len(stats) == reads)
    for st in stats:
        schedule(sx, st["temperature_history"], sweeps, 2.0**16, c, rev)
        acc = [int(a) for a in st["acceptance_history"]]
        sx.check("all-visited", acc[0 if rev is None else 1:] == [n] * (sweeps - (rev is not None)), f"{acc}")
    if rev is not None:
        return
    for s, e, occ in rows(ss):
        sx.check("once-each", all((s[v] == w) == (sweeps % 2 == 0) for v, w in start.items()), f"{s}")
        sx.check("final-energy", sx.eq(e, energy(p, s)))


UNITS = [
    Unit("one", one, "1 variable, 1-3 sweeps, both pick-up modes, 2 temperatures x 2 cooling rates", ["metropolis", "temperature", "energy-history", "history-lengths", "final-energy"]),
    Unit("two", two, "2 coupled variables, 1-2 sweeps, sequential", ["metropolis", "energy-history"]),
    Unit("three", three, "3 variables, 1 sweep", ["metropolis"]),
    Unit("random", rand, "2 variables, 1-2 sweeps, every visiting order", ["metropolis"]),
    Unit("random3", rand3, "3 variables, 1 sweep, every visiting order", ["metropolis"]),
    Unit("reverse", reverse, "1 variable, up to 4 sweeps, periods 0, 1, 2 and beyond", ["reverse-start", "reverse-rises", "reverse-cools", "metropolis"]),
    Unit("reverse2", reverse2, "2 variables, 2 sweeps", ["metropolis"]),
    Unit("any-temperature", any_temperature, "1 variable, 1-2 sweeps, every positive initial temperature", ["metropolis", "temperature"]),
    Unit("fresh-draws", fresh_draws, "1-3 independent variables, 1-2 reads, distinct draws", ["own-draw", "own-draw-count"]),
    Unit("big", big, "13 coupled variables, 3 sweeps, very hot or very cold, a fixed visiting order per sweep: all coefficients within a range that fixes each decision", ["metropolis", "acceptances", "energy-history"]),
    Unit("long", long, "6 variables, 24 sweeps from very hot to very cold, 3 cooling rates, as big", ["metropolis", "acceptances", "temperature", "energy-history"]),
    Unit("long-reverse", long_reverse, "6 variables, 20 sweeps, reverse periods 0 to 50, as big", ["metropolis", "reverse-rises", "reverse-cools", "acceptances"]),
    Unit("reads", reads, "6 variables, 3 sweeps, 6 reads, as big: each read starts the schedule anew", ["metropolis", "temperature", "reverse-start", "acceptances"]),
    Unit("many-draws", many_draws, "150 variables and 2 reads, 5 and 60, 1 and 300: 300 distinct draws; all fields within a range that fixes each decision", ["own-draw", "own-draw-count"]),
    Unit("visits", visits, "6, 12 and 70 independent variables, 2-9 sweeps, so hot that each visit is a flip, cooling rates up to 1.5; all fields within a range", ["all-visited", "once-each", "temperature"]),
]
