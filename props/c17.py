"""C17: sampler-backed solvers submit the model unchanged and return its result."""
import itertools

import dimod
import neal
import numpy as np
from dwave.system.composites import EmbeddingComposite
from dwave.system.samplers import DWaveSampler
from sawatabi.model import PhysicalModel
from sawatabi.solver import DWaveSolver, LocalSolver

from vp import Unit
from vp.annealing import energy, rows
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, NHotConstraint, attempt, clocked, patched, raw, same

ASSUMPTIONS = ["neal's and D-Wave's samplers are replaced, at class level, by a recorder that answers with a fixed sample set with symbolic energies; dimod (BQM, ExactSolver, SampleSet) runs for real, with object dtype while symbolic",
               "exact mode takes no options (the code documents and passes none)"]


def build(sx, mtype, kind):
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    a = m.variables("a", shape=(1,))
    c = [sx.real(n) for n in ("c0", "c1", "c2")]
    for v in c:
        sx.assume(sx.Or(v > 0, v < 0))
    if kind == "linear":
        m.add_interaction(x[2], coefficient=c[0])
        m.add_interaction(a[0], coefficient=c[1])
    elif kind == "one quadratic":
        m.add_interaction((x[2], a[0]), coefficient=c[0])
    elif kind == "mixed":
        m.add_interaction((x[1], x[0]), coefficient=c[0])
        m.add_interaction(x[1], coefficient=c[1])
        m.add_interaction(x[1], name="again", coefficient=c[2])
    elif kind == "triangle":
        m.add_interaction((x[0], a[0]), coefficient=c[0])
        m.add_interaction((x[2], x[0]), coefficient=c[1])
        m.add_interaction(a[0], coefficient=c[2])
        m.add_interaction(x[1], coefficient=1.0)
    elif kind == "constraint":
        m.add_interaction(x[0], coefficient=c[0])
        m.add_constraint(NHotConstraint([x[0], x[1]], n=1, strength=2.0))
    elif kind == "cancelled":
        m.add_interaction(x[0], coefficient=c[0])
        m.add_interaction(x[0], name="minus", coefficient=-c[0])
        m.add_interaction((x[0], x[1]), coefficient=c[1])
    elif kind == "direct":
        p = PhysicalModel(mtype=mtype)
        p.add_interaction("b", body=1, coefficient=c[0])
        p.add_interaction(("b", "a"), body=2, coefficient=c[1])
        p._offset = sx.real("off")
        return p
    m.offset(sx.real("off"))
    return m.to_physical()


KINDS = ["linear", "one quadratic", "mixed", "triangle", "constraint", "cancelled", "direct"]


def state(p):
    lin, quad, off = raw(p)
    return {"t": p.get_mtype(), "l": lin, "q": {str(k): v for k, v in quad.items()}, "o": off}


def check_bqm(sx, b, p, mtype):
    sx.check("vartype", b.vartype is (dimod.SPIN if mtype == "ising" else dimod.BINARY))
    lin, quad, _ = raw(p)
    used = set(lin) | {a for k in quad for a in k}
    sx.check("variables", set(b.variables) == used, str(list(b.variables)))
    vs = sorted(used)
    vals = (1, -1) if mtype == "ising" else (1, 0)
    items = []
    for bits in itertools.product(vals, repeat=len(vs)):
        a = dict(zip(vs, bits))
        g = b.offset
        for v in vs:
            g = g + b.linear[v] * a[v]
        for (u, v), w in b.quadratic.items():
            g = g + w * (a[u] * a[v])
        items.append(("submitted-energy", sx.eq(g, energy(p, a)), f"{a}: {g} want {energy(p, a)}"))
    sx.check_all(items)


class Recorder:
    """stand-in for a sampler: records what it is given, answers with a sample set"""

    def __init__(self, sx, answers):
        self.sx, self.answers = sx, answers
        self.calls = []
        self.made = []
        self.given = None

    def sample(self, _self, bqm, **kw):
        self.calls.append((bqm, kw))
        vs = list(bqm.variables)
        vals = (1, -1) if bqm.vartype is dimod.SPIN else (1, 0)
        alls = list(itertools.product(vals, repeat=len(vs)))
        k = self.answers
        smp = [alls[(3 * i + 1) % len(alls)] for i in range(k)]
        es = [self.sx.real(f"e{i}") for i in range(k)]
        occ = [1 + (i % 2) for i in range(k)]
        extra = {"chain_break_fraction": np.array([0.25 * i for i in range(k)])}
        en = np.empty(k, dtype=object) if self.sx.symbolic else np.empty(k)
        for i, e in enumerate(es):
            en[i] = e
        ss = dimod.SampleSet.from_samples((np.array(smp, dtype=np.int8).reshape(k, len(vs)), vs), vartype=bqm.vartype, energy=en, num_occurrences=np.array(occ), info={"origin": "recorder"}, **extra)
        self.given = [(dict(zip(vs, s)), e, o) for s, e, o in zip(smp, es, occ)]
        return ss


def key(row):
    return (sorted(row[0].items()), row[2])


def check_result(sx, rec, ss, mtype):
    got = rows(ss)
    sx.check("result-samples", [key(r) for r in got] == [key(r) for r in rec.given], f"{got} {rec.given}")
    sx.check_all([("result-energies", sx.eq(g[1], w[1])) for g, w in zip(got, rec.given)])
    sx.check("result-type", ss.vartype.name == ("SPIN" if mtype == "ising" else "BINARY"))
    sx.check("result-fields", "chain_break_fraction" in ss.record.dtype.names and [float(v) for v in ss.record.chain_break_fraction] == [0.25 * i for i in range(len(got))])
    sx.check("result-info", ss.info.get("origin") == "recorder")


def options(sx):
    n = sx.int("opt")
    f = sx.real("optf")
    return sx.choice("options", [
        {}, {"num_reads": n}, {"seed": n}, {"seed": 0}, {"num_sweeps": n, "num_reads": 1, "beta_range": [f, 4.0]},
        {"beta_schedule_type": "linear", "initial_states": None}, {"num_reads": 0, "other_option": False}, {"chain_strength": f, "annealing_time": n, "label": ""},
        {"answer_mode": "raw", "num_reads": n, "auto_scale": False, "chain_break_fraction": False}, {"answer_mode": "histogram", "reduce_intersample_correlation": True, "time_limit": f}])


@clocked
def local(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = build(sx, mtype, sx.choice("model", KINDS))
    rec = Recorder(sx, sx.choice("answers", [1, 2]))
    kw = options(sx)
    before, kb = state(p), dict(kw)
    with patched(neal.SimulatedAnnealingSampler, sample=lambda s, b, **k: rec.sample(s, b, **k)):
        with patched(dimod.ExactSolver, sample=lambda s, b, **k: sx.check("annealing-mode", False)):
            solver = LocalSolver() if sx.choice("exact arg", [False, True]) else LocalSolver(exact=False)
            ss = solver.solve(p, **kw)
    sx.check("one-submission", len(rec.calls) == 1)
    check_bqm(sx, rec.calls[0][0], p, mtype)
    sx.check("options", same(sx, rec.calls[0][1], kb), f"{rec.calls[0][1]} {kb}")
    check_result(sx, rec, ss, mtype)
    sx.check("model-unchanged", same(sx, before, state(p)))


@clocked
def exact(sx):
    """exact mode, with dimod's real exhaustive sampler: all assignments with their true energies"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = build(sx, mtype, sx.choice("model", ["linear", "one quadratic", "mixed", "direct", "triangle"]))
    before = state(p)
    with patched(neal.SimulatedAnnealingSampler, sample=lambda s, b, **k: sx.check("exact-mode", False)):
        ss = LocalSolver(exact=True).solve(p)
    got = rows(ss)
    lin, quad, _ = raw(p)
    used = sorted(set(lin) | {a for k in quad for a in k})
    vals = (1, -1) if mtype == "ising" else (1, 0)
    want = sorted(sorted(zip(used, b)) for b in itertools.product(vals, repeat=len(used)))
    sx.check("all-assignments", sorted(sorted(r[0].items()) for r in got) == want)
    sx.check_all([("exact-energy", sx.eq(r[1], energy(p, r[0]))) for r in got])
    sx.check("model-unchanged", same(sx, before, state(p)))
    if len(used) > 2:
        return  # the order of 16 energies is not explored
    best = ss.first
    sx.check_all([("lowest-first", best.energy <= energy(p, r[0])) for r in got])


@clocked
def exact_submission(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = build(sx, mtype, sx.choice("model", KINDS))
    rec = Recorder(sx, 2)
    with patched(dimod.ExactSolver, sample=lambda s, b, **k: rec.sample(s, b, **k)):
        ss = LocalSolver(exact=True).solve(p)
    sx.check("one-submission", len(rec.calls) == 1)
    check_bqm(sx, rec.calls[0][0], p, mtype)
    check_result(sx, rec, ss, mtype)


def dwave_stubs(rec):
    def s_init(self, *a, **k):
        rec.made.append(("sampler", self, a, k))

    def c_init(self, child_sampler=None, *a, **k):
        rec.made.append(("composite", child_sampler, a, k))

    return (patched(DWaveSampler, __init__=s_init), patched(EmbeddingComposite, __init__=c_init, sample=lambda s, b, **k: rec.sample(s, b, **k)))


@clocked
def dwave(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = build(sx, mtype, sx.choice("model", KINDS))
    rec = Recorder(sx, sx.choice("answers", [1, 2]))
    kw = options(sx)
    before, kb = state(p), dict(kw)
    a, b = dwave_stubs(rec)
    with a, b:
        ss = DWaveSolver().solve(p, **kw)
    sx.check("one-submission", len(rec.calls) == 1)
    check_bqm(sx, rec.calls[0][0], p, mtype)
    sx.check("options", same(sx, rec.calls[0][1], kb), f"{rec.calls[0][1]} {kb}")
    check_result(sx, rec, ss, mtype)
    sx.check("model-unchanged", same(sx, before, state(p)))


@clocked
def dwave_settings(sx):
    """endpoint, token, solver name and embedding parameters reach D-Wave's classes"""
    p = build(sx, "ising", "one quadratic")
    rec = Recorder(sx, 1)
    kw, want = {}, {"solver": "Advantage_system1.1"}
    if sx.choice("auth", [False, True]):
        kw.update(endpoint="https://host/sapi", token="tok")
        want.update(kw)
    if sx.choice("name", [False, True]):
        kw["solver"] = want["solver"] = sx.choice("which", ["DW_2000Q_6", "Advantage_system4.1"])
    n = sx.int("timeout")
    emb = sx.choice("embedding", [None, {"timeout": n}, {"random_seed": 0, "tries": n}])
    if emb is not None:
        kw["embedding_parameters"] = emb
    a, b = dwave_stubs(rec)
    with a, b:
        DWaveSolver(**kw).solve(p)
    samplers = [m for m in rec.made if m[0] == "sampler"]
    comps = [m for m in rec.made if m[0] == "composite"]
    sx.check("one-sampler", len(samplers) == 1 and len(comps) == 1 and comps[0][1] is samplers[0][1])
    got = {k: v for k, v in samplers[0][3].items() if v is not None}
    sx.check("settings", same(sx, got, want), f"{got} {want}")
    g = comps[0][3].get("embedding_parameters")
    sx.check("embedding", (g in (None, {})) if emb is None else same(sx, g, emb), f"{g}")


@clocked
def beta_range(sx):
    """the default beta range is the sampler's own choice for this model: from the largest and smallest spin-form bias"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = build(sx, mtype, sx.choice("model", ["linear", "one quadratic", "mixed", "cancelled", "direct"]))
    before = state(p)
    got = LocalSolver(exact=sx.choice("exact", [False, True])).default_beta_range(p)
    lin, quad, _ = raw(p)
    h = {v: 0 for v in set(lin) | {a for k in quad for a in k}}
    J = {}
    for v, c in lin.items():
        h[v] = h[v] + (c if mtype == "ising" else c / 2)
    for (u, v), c in quad.items():
        J[u, v] = c if mtype == "ising" else c / 4
        if mtype == "qubo":
            h[u], h[v] = h[u] + c / 4, h[v] + c / 4
    gaps = [abs(b) for b in list(h.values()) + list(J.values()) if b != 0]
    tot = {v: abs(b) for v, b in h.items()}
    for (u, v), c in J.items():
        tot[u], tot[v] = tot[u] + abs(c), tot[v] + abs(c)
    small, large = gaps[0], 0
    for g in gaps[1:]:
        small = sx.If(g < small, g, small)
    for t in tot.values():
        large = sx.If(t > large, t, large)
    sx.check("hot-beta", sx.eq(got[0] * large, float(np.log(2))), f"{got}")
    sx.check("cold-beta", sx.eq(got[1] * small, float(np.log(100))), f"{got}")
    sx.check("model-unchanged", same(sx, before, state(p)))


@clocked
def rejects(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    kind = sx.choice("solver", ["local", "exact", "dwave", "beta range"])
    off = PhysicalModel(mtype=mtype)
    off._offset = sx.real("off")
    lm = LogicalModel(mtype=mtype)
    x = lm.variables("x", shape=(2,))
    lm.add_interaction(x[0], coefficient=1.0)
    b = PhysicalModel(mtype=mtype)
    b.add_interaction("v", body=1, coefficient=1.0)
    cases = [("empty", ValueError, PhysicalModel(mtype=mtype)), ("offset only", ValueError, off), ("logical", TypeError, lm), ("none", TypeError, None),
             ("empty logical", TypeError, LogicalModel(mtype=mtype)), ("bqm", TypeError, b.to_bqm()), ("string", TypeError, "model"), ("dict", TypeError, {}),
             ("empty converted", ValueError, LogicalModel(mtype=mtype).to_physical())]
    label, exc, m = cases[sx.choice("case", range(len(cases)))]
    rec = Recorder(sx, 1)
    a, c = dwave_stubs(rec)
    with a, c, patched(neal.SimulatedAnnealingSampler, sample=lambda s, b, **k: rec.sample(s, b, **k)), patched(dimod.ExactSolver, sample=lambda s, b, **k: rec.sample(s, b, **k)):
        s = DWaveSolver() if kind == "dwave" else LocalSolver(exact=kind == "exact")
        e, _ = attempt(s.default_beta_range if kind == "beta range" else s.solve, m)
    sx.check("rejected", isinstance(e, exc), f"{label}: {e!r}")
    sx.check("nothing-submitted", not rec.calls)


RES = ["one-submission", "submitted-energy", "vartype", "variables", "options", "result-samples", "result-energies", "model-unchanged"]


def wide(sx, mtype, n=15):
    m = LogicalModel(mtype=mtype)
    y = m.variables("two words", shape=(2, 2))
    x = m.variables("x", shape=(n + 3,))
    vs = [x[(i * 4 + 2) % n + 3] for i in range(n)] + [y[1, 0], y[0, 1]]
    for i, v in enumerate(vs):
        if i % 3:
            m.add_interaction(v, coefficient=sx.real(f"h{i}", nonzero=True))
        for d in (1, 4):
            m.add_interaction((v, vs[(i + d) % len(vs)]), coefficient=sx.real(f"J{i}.{d}", nonzero=True))
    m.offset(sx.real("off"))
    return m.to_physical()


def check_poly(sx, b, p, mtype):
    """as check_bqm for many variables: equal polynomials, coefficient by coefficient"""
    sx.check("vartype", b.vartype is (dimod.SPIN if mtype == "ising" else dimod.BINARY))
    lin, quad, off = raw(p)
    used = set(lin) | {a for k in quad for a in k}
    sx.check("variables", set(b.variables) == used, str(list(b.variables)))
    q = {frozenset(k): v for k, v in quad.items()}
    g = {frozenset(k): v for k, v in b.quadratic.items()}
    sx.check_all([("submitted-energy", sx.eq(b.linear[v], -lin.get(v, 0)), v) for v in used]
                 + [("submitted-energy", sx.eq(g.get(k, 0), -q.get(k, 0)), str(k)) for k in set(q) | set(g)] + [("submitted-energy", sx.eq(b.offset, off), "offset")])


class Many(Recorder):
    def sample(self, _self, bqm, **kw):
        self.calls.append((bqm, kw))
        vs = list(bqm.variables)
        vals = (1, -1) if bqm.vartype is dimod.SPIN else (1, 0)
        k = self.answers
        smp = [tuple(vals[(i * j + i // 3 + j) % 2] for j in range(len(vs))) for i in range(k)]
        es = [self.sx.real(f"e{i}") for i in range(k)]
        occ = [1 + (i % 4) for i in range(k)]
        en = np.empty(k, dtype=object) if self.sx.symbolic else np.empty(k)
        for i, e in enumerate(es):
            en[i] = e
        self.given = [(dict(zip(vs, s)), e, o) for s, e, o in zip(smp, es, occ)]
        return dimod.SampleSet.from_samples((np.array(smp, dtype=np.int8).reshape(k, len(vs)), vs), vartype=bqm.vartype, energy=en, num_occurrences=np.array(occ), info={"origin": "recorder"},
                                            chain_break_fraction=np.array([0.25 * i for i in range(k)]))


@clocked
def big(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    p = wide(sx, mtype, sx.choice("n", [15, 61]))
    rec = Many(sx, sx.choice("answers", [1, 40, 130]))
    before = state(p)
    which = sx.choice("solver", ["local", "exact", "dwave"])
    kw = {} if which == "exact" else {"num_reads": 40, "seed": 0}
    a, b = dwave_stubs(rec)
    rs = lambda s, b, **k: rec.sample(s, b, **k)  # noqa: E731
    with a, b, patched(neal.SimulatedAnnealingSampler, sample=rs), patched(dimod.ExactSolver, sample=rs):
        s = DWaveSolver() if which == "dwave" else LocalSolver(exact=which == "exact")
        ss = s.solve(p, **kw)
    sx.check("one-submission", len(rec.calls) == 1)
    check_poly(sx, rec.calls[0][0], p, mtype)
    if which != "exact":
        sx.check("options", same(sx, rec.calls[0][1], kw))
    check_result(sx, rec, ss, mtype)
    sx.check("model-unchanged", same(sx, before, state(p)))


@clocked
def exact_big(sx):
    """exact mode, really: 9 variables, all 512 assignments"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(12,))
    vs = [x[(i * 5 + 1) % 12] for i in range(9)]
    for i in range(8):
        m.add_interaction((vs[i], vs[i + 1]), coefficient=sx.real(f"J{i}", nonzero=True))
    m.add_interaction(vs[4], coefficient=sx.real("h", nonzero=True))
    m.offset(sx.real("off"))
    p = m.to_physical()
    got = rows(LocalSolver(exact=True).solve(p))
    sx.check("all-assignments", len(got) == 512 and len({tuple(sorted(r[0].items())) for r in got}) == 512)
    sx.check_all([("exact-energy", sx.eq(r[1], energy(p, r[0]))) for r in got])


UNITS = [
    Unit("local", local, "7 model shapes of 1-4 variables, any coefficients and offset, 10 option sets with any numbers, 1-2 answers with any energies", RES),
    Unit("exact", exact, "5 model shapes, any coefficients: every assignment is returned", ["all-assignments", "exact-energy", "lowest-first"]),
    Unit("exact-submission", exact_submission, "7 model shapes, exact mode", ["submitted-energy", "result-energies"]),
    Unit("dwave", dwave, "7 model shapes of 1-4 variables, any coefficients and offset, 8 option sets with any numbers, 1-2 answers with any energies", RES),
    Unit("dwave-settings", dwave_settings, "with and without authentication, solver name, embedding parameters", ["settings", "embedding", "one-sampler"]),
    Unit("beta-range", beta_range, "5 model shapes of 1-3 variables, any coefficients", ["hot-beta", "cold-beta"]),
    Unit("rejects", rejects, "9 kinds of invalid argument, 4 entry points", ["rejected", "nothing-submitted"]),
    Unit("big", big, "17 and 63 variables in two arrays, 45 and 180 interactions, 1, 40 or 130 answers (with repeated samples), three solvers; any coefficients, offset and energies", RES),
    Unit("exact-big", exact_big, "9 variables: all 512 assignments with their energies", ["all-assignments", "exact-energy"]),
]
