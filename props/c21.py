"""C21: attenuation scales interactions linearly with their age."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, clocked, phys_poly, pairkey, same
from vp.streams import Row, processing, seconds, ts

ASSUMPTIONS = ["Beam's state cells are replaced by stand-ins; the steps behind the windowing are the real pipeline's",
               "every interaction carries the reference attribute, as the option requires"]


def table(m):
    a = m._interactions_array
    return [{k: a[k][i] for k in a if k not in ("dirty", "interacts")} for i in range(len(a["name"]))]


def expected(sx, rows, ref, min_scale):
    """-> condition that rows' scales are as documented, given the scales before"""
    refs = [r[ref] for r in rows]
    lo = hi = refs[0]
    for t in refs[1:]:
        lo = sx.If(t < lo, t, lo)
        hi = sx.If(t > hi, t, hi)
    items = []
    for r in rows:
        # scale = min + (1 - min) * (t - lo) / (hi - lo), multiplied out
        lin = sx.eq((r["scale"] - min_scale) * (hi - lo), (1 - min_scale) * (r[ref] - lo))
        items.append((sx.eq(lo, hi), lin))
    return items


def run(sx, n, key, kinds, remove=True, windows=1, mtypes=("ising",), constraint=(None,), shapes=("mixed",), share=True, coeffs=True, refs=None, gone=()):
    mtype = sx.choice("mtype", mtypes)
    ms = sx.real("min_scale") if refs is None else sx.real("min_scale", lo=0.01, hi=1)
    ref = key
    con = sx.choice("constraint", constraint)
    shape = sx.choice("shape", shapes)
    name = key[len("attributes."):] if key.startswith("attributes.") else None
    seen = {"n": 0}

    def build(m, w):
        x = m.variables("x", shape=(3,)) if w == 0 else m.get_variables_by_name("x")
        targets = [x[0], (x[0], x[1]), x[2], (x[1], x[2]), x[1]] if shape == "mixed" else [x[0], x[0], x[0], x[0], x[0]]
        for i in range(n):
            t = sx.real(f"t{w}_{i}") if refs is None else refs[(i + 7 * w) % len(refs)]
            kw = {"coefficient": sx.real(f"c{w}_{i}") if coeffs else 1.5 + i, "name": f"i{w}_{i}"}
            if kinds == "scaled":
                kw["scale"] = sx.real(f"s{w}_{i}", positive=refs is not None)
            if name is None:
                kw["timestamp"] = t
            else:
                kw["attributes"] = {name: t, "other": float(i)}
            m.add_interaction(targets[(i + w) % 5], **kw)
        if con == "nhot" and w == 0:
            m.add_constraint(NHotConstraint([x[0], x[1]], n=1))
        for i in gone:
            m.remove_interaction(name=f"i{w}_{i}")
        if remove:
            for i in range(n):
                if sx.choice(f"remove{w}_{i}", [False, True]):
                    m.remove_interaction(name=f"i{w}_{i}")
        return m

    before = {}

    def map_fn(model, sampleset, elements, incoming, outgoing):
        w = seen["n"]
        m = build(model if w else LogicalModel(mtype=mtype), w)
        before["rows"] = [r for r in table(m) if not r["removed"]]
        before["rest"] = (m.get_mtype(), m.get_offset(), sorted(m.get_constraints()), sorted(m.get_variables()))
        return m

    got = {}

    def solve_fn(solver, model, sampleset, elements, incoming, outgoing):
        rows = table(model)
        live = [r for r in rows if not r["removed"]]
        want = before["rows"]
        got["live"] = len(live)
        sx.check("interactions", [r["name"] for r in live] == [r["name"] for r in want], f"{[r['name'] for r in live]}")
        sx.check("preserved", sx.And(*[same(sx, {k: v for k, v in a.items() if k != "scale"}, {k: v for k, v in b.items() if k != "scale"}) for a, b in zip(live, want)]))
        sx.check("rest", same(sx, before["rest"], (model.get_mtype(), model.get_offset(), sorted(model.get_constraints()), sorted(model.get_variables()))))
        if live:
            items = []
            for (flat, lin), a, b in zip(expected(sx, live, ref, ms), live, want):
                items.append(("scale", sx.Or(flat, lin), f"{a['name']}"))
                items.append(("equal-ages", sx.Or(sx.Not(flat), sx.eq(a["scale"], b["scale"]))))
            sx.check_all(items)
        # what the solver sees
        if con is None and coeffs:
            wantp = {}
            for r in live:
                k = r["key"]
                k = pairkey(*k) if isinstance(k, tuple) else k
                v = r["coefficient"] * r["scale"]
                wantp[k] = wantp[k] + v if k in wantp else v
            p = phys_poly(model.to_physical())
            sx.check_all([("solved-model", sx.eq(p.get(k, 0.0), wantp.get(k, 0.0))) for k in sorted(set(p) | set(wantp), key=repr)])
        return "s"

    chain = processing(sx, "attenuation", {"window.size": 4, "window.period": 2, "attenuation.key": key, "attenuation.min_scale": ms},
                       {"map_fn": map_fn, "solve_fn": solve_fn, "unmap_fn": lambda *a: "done"}, mtype=mtype, share=share)
    for w in range(windows):
        seen["n"] = w
        out = [r.value for r in chain.feed(Row([(float(w), (w, 1))], ts(sx, f"w{w}", lo=10 * w, hi=10 * w)))]
        sx.check("processed", out == ["done"], f"{out}")


@clocked
def attributes(sx):
    run(sx, 3, "attributes.ts", "plain", mtypes=("ising", "qubo"))


@clocked
def timestamps(sx):
    run(sx, 2, "timestamp", "scaled", shapes=("mixed", "same"))


@clocked
def four(sx):
    run(sx, 4, "attributes.my key", "plain", remove=False, coeffs=False)


@clocked
def scaled(sx):
    run(sx, 3, "attributes.ts", "scaled", remove=False, shapes=("mixed", "same"), constraint=(None, "nhot"))


@clocked
def two_windows(sx):
    run(sx, 2, "attributes.ts", "plain", windows=2, share=sx.choice("state shared", [True, False]), coeffs=False)


@clocked
def nothing(sx):
    run(sx, 0, "attributes.ts", "plain", windows=2, constraint=(None, "nhot"), mtypes=("ising", "qubo"))


@clocked
def many(sx):
    """many interactions with references in any order, equal, negative and large ones"""
    refs = sx.choice("refs", [[float(i * 7 % 24) for i in range(24)], [-5, 3, 3, -5, 0, 12, 12, 7, 1, 1, 1, 2] * 2, [1.5e9 + i for i in (5, 0, 1, 1, 9, 3)] * 4])
    run(sx, 24, sx.choice("key", ["attributes.ts", "timestamp"]), "scaled", remove=False, windows=2, coeffs=False, refs=refs, gone=sx.choice("gone", [(), (0, 5, 23), tuple(range(12))]), mtypes=("ising", "qubo"))


@clocked
def five(sx):
    run(sx, 5, "attributes.ts", "scaled", remove=False)


@clocked
def four_removed(sx):
    run(sx, 4, "attributes.ts", "scaled", remove=True)


L = ["interactions", "preserved", "scale", "equal-ages", "solved-model", "processed"]


@clocked
def constrained(sx):
    """constraints and removed interactions together"""
    run(sx, 3, sx.choice("key", ["attributes.ts", "timestamp"]), "plain", constraint=("nhot",), coeffs=False, mtypes=("ising", "qubo"))


UNITS = [
    Unit("attributes", attributes, "3 interactions, any references and minimum scale, any removed subset", L),
    Unit("timestamps", timestamps, "2 interactions with any scales, reference = timestamp", L),
    Unit("four", four, "4 interactions, any references and minimum scale", L[:4]),
    Unit("scaled", scaled, "3 interactions with any scales, with and without a constraint", L),
    Unit("two-windows", two_windows, "model carried over two windows of 2 interactions, any removed subset", L[:4]),
    Unit("nothing", nothing, "models without interactions, with and without constraint", ["processed"]),
    Unit("many", many, "two windows of 24 interactions with given references, any positive scales and minimum scale in [0.01, 1]", L[:3] + L[5:]),
    Unit("five", five, "5 interactions", L, tier="thorough"),
    Unit("four-removed", four_removed, "4 interactions, any removed subset", L, tier="thorough"),
    Unit("constrained", constrained, "3 interactions and a constraint, any references and minimum scale, any removed subset", L[:4] + L[5:]),
]
