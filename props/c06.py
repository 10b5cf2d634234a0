"""C06: merging two models adds their energies."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import (EqualityConstraint, LogicalModel, NHotConstraint, ZeroOrOneHotConstraint, attempt, clocked, con_state, live_poly, pairkey,
                    poly_diff_checks, raw, same, snapshot)

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in"]


def padd(*ps):
    out = {}
    for p in ps:
        for k, v in p.items():
            out[k] = out[k] + v if k in out else v
    return out


def rows_by_ts(m):
    return {r["timestamp"]: r for r in snapshot(m)["rows"]}


def verify_rows(sx, m, before):
    """every record of both models survives with its values and attributes (identified by unique timestamps)"""
    now = rows_by_ts(m)
    items = [("records-count", m._interactions_length == sum(len(b["rows"]) for b in before))]
    names = list(m._interactions_array["name"])
    items.append(("names-unique", len(set(names)) == len(names)))
    for col, v in m._interactions_array.items():
        items.append(("columns", len(v) == len(names), col))
    keys = set()
    for b in before:
        for r in b["rows"]:
            keys |= {k for k in r if k.startswith("attributes.")}
    for b in before:
        for r in b["rows"]:
            n = now.get(r["timestamp"])
            if n is None:
                items.append(("record-lost", False, r["name"]))
                continue
            for c in ("key", "body", "coefficient", "scale", "removed"):
                items.append(("record", same(sx, n[c], r[c]), f"{r['name']}.{c}"))
            for k in keys:
                v = n.get(k, "absent")
                if k in r:
                    items.append(("record-attributes", same(sx, v, r[k]), f"{r['name']}.{k}"))
                else:
                    items.append(("record-attributes", isinstance(v, float) and type(v) is float and v != v, f"{r['name']}.{k}"))
            items.append(("record-name", str(n["name"]).startswith(str(r["name"])), r["name"]))
            got = m.get_attributes(name=n["name"])
            for k in keys:
                if k in r and not (type(r[k]) is float and r[k] != r[k]):
                    items.append(("attributes-readable", k in got and same(sx, got[k], r[k]), f"{r['name']}.{k}"))
    sx.check_all(items)


@clocked
def energies(sx):
    """two models over the same arrays: shared and distinct names, removed records, attributes on either side"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype=mtype)
    xa, xb = A.variables("x", shape=(2,)), B.variables("x", shape=(2,))
    ts = [100]

    def add(m, t, name, i, attr):
        ts[0] += 1
        m.add_interaction(t, name=name, coefficient=sx.real(f"c{i}", nonzero=True), scale=sx.real(f"s{i}", nonzero=True) if i in (1, 4) else 2.0,
                          attributes=attr, timestamp=ts[0])

    attrs = sx.choice("attrs", ["none", "left", "right", "both same", "both differ"])
    la = {"k": 5} if attrs in ("left", "both same", "both differ") else None
    ra = {"k": 6} if attrs in ("right", "both same") else ({"j": 7} if attrs == "both differ" else None)
    add(A, xa[0], "", 0, la)
    add(A, (xa[0], xa[1]), "", 1, None)
    nb = sx.choice("right", ["empty", "same names", "other names", "mixed"])
    if nb != "empty":
        if nb == "same names":
            add(B, xb[0], "", 3, ra)
            add(B, (xb[1], xb[0]), "", 4, None)
        elif nb == "other names":
            add(B, xb[0], "b1", 3, ra)
            add(B, xb[1], "", 4, None)
        else:
            add(B, xb[1], "x[0]", 3, ra)
            add(B, (xb[1], xb[0]), "other", 4, None)
        if sx.choice("removed right", [False, True]):
            B.remove_interaction(name=B._interactions_array["name"][0])
    if sx.choice("removed left", [False, True]):
        A.remove_interaction(target=xa[0])
    oa, ob = sx.real("oa"), sx.real("ob")
    A.offset(oa)
    B.offset(ob)
    sa, sb = snapshot(A), snapshot(B)
    want = padd(live_poly(A), live_poly(B))
    A.merge(B)
    verify_rows(sx, A, [sa, sb])
    sx.check("offset-sum", sx.eq(A.get_offset(), oa + ob))
    sx.check("other-unchanged", same(sx, sb, snapshot(B)))
    lin, quad, off = raw(A.to_physical())
    sx.check_all(poly_diff_checks(sx, "energy-sum", {**lin, **quad}, want) + [("converted-offset", sx.eq(off, oa + ob))])
    sx.observe("e", sorted([str(k), v] for k, v in {**lin, **quad}.items()))
    # the merged model is a normal model: it can still be edited and extended
    A.add_interaction(A.get_variables_by_name("x")[1], name="late", coefficient=1.0, attributes={"k": 1})
    A.update_interaction(name="late", coefficient=sx.real("late"))
    verify = live_poly(A)
    sx.check("editable", sx.eq(verify["x[1]"] - want.get("x[1]", 0.0), sx.real("late") if False else A._interactions_array["coefficient"][-1]))


@clocked
def shapes(sx):
    """variable arrays: element-wise maximum of shapes, distinct arrays added, dimension conflicts rejected"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype=mtype)
    sh = [(2, 3), (1, 4), (3, 1), (2,), (5,), (1, 1, 2)]
    s1 = sx.choice("s1", sh)
    s2 = sx.choice("s2", sh + [None])
    A.variables("x", shape=s1)
    A.variables("onlyA", shape=(2,))
    if s2:
        B.variables("x", shape=s2)
    yb = B.variables("onlyB", shape=(1, 2))
    c, d = sx.real("c", nonzero=True), sx.real("d", nonzero=True)
    A.add_interaction(A.get_variables_by_name("onlyA")[1], coefficient=c)
    B.add_interaction(yb[0, 1], coefficient=d)
    A.offset(sx.real("oa"))
    B.offset(sx.real("ob"))
    before, bb = snapshot(A), snapshot(B)
    e, _ = attempt(A.merge, B)
    if s2 and len(s1) != len(s2):
        sx.check("dimension-conflict-rejected", isinstance(e, ValueError), repr(e))
        sx.check("rejected-unchanged", same(sx, before, snapshot(A)))
        return
    sx.check("accepted", e is None, repr(e))
    mx = tuple(max(a, b) for a, b in zip(s1, s2)) if s2 else s1
    got = {k: tuple(int(i) for i in v.shape) for k, v in A.get_variables().items()}
    sx.check("shape-max", got == {"x": mx, "onlyA": (2,), "onlyB": (1, 2)}, str(got))
    last = A.get_variables_by_name("x")[tuple(i - 1 for i in mx) if len(mx) > 1 else mx[0] - 1]
    sx.check("labels", last.label == "x" + "".join(f"[{i - 1}]" for i in mx))
    lin, quad, _ = raw(A.to_physical())
    sx.check_all(poly_diff_checks(sx, "shape-energy", {**lin, **quad}, {"onlyA[1]": c, "onlyB[0][1]": d}))
    sx.check("other-shapes-unchanged", same(sx, bb, snapshot(B)))


def mkcon(kind, v, label, strength):
    if kind == "n":
        return NHotConstraint([v[0], v[1]], n=1, label=label, strength=strength)
    if kind == "z1":
        return ZeroOrOneHotConstraint(v[0], label=label, strength=strength)
    if kind == "n0":
        return NHotConstraint(n=2, label=label, strength=strength)
    if kind == "z":
        return ZeroOrOneHotConstraint([v[0], v[1]], label=label, strength=strength)
    return EqualityConstraint([v[0]], [v[1]], label=label, strength=strength)


@clocked
def constraints(sx):
    """constraints of both models are kept; label conflicts are rejected with nothing changed"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype=mtype)
    xa, xb = A.variables("x", shape=(2,)), B.variables("x", shape=(3,))
    A.add_interaction(xa[0], coefficient=sx.real("c0", nonzero=True), attributes={"k": 1})
    B.add_interaction(xb[0], coefficient=sx.real("c1", nonzero=True), attributes={"j": 1})
    A.offset(sx.real("oa"))
    ka, kb = sx.choice("ka", ["n", "z", "e"]), sx.choice("kb", ["none", "n", "e", "z1", "n0"])
    A.add_constraint(mkcon(ka, xa, "L", sx.real("sa", nonzero=True)))
    la = sx.choice("label", ["M", "L"])
    if kb != "none":
        B.add_constraint(mkcon(kb, xb, la, sx.real("sb", nonzero=True)))
    before = snapshot(A)
    pa, pb = raw(A.to_physical()), raw(B.to_physical())
    cb = {k: con_state(c) for k, c in list(A.get_constraints().items()) + list(B.get_constraints().items())}
    e, _ = attempt(A.merge, B)
    if kb != "none" and la == "L":
        sx.check("label-conflict-rejected", isinstance(e, ValueError), repr(e))
        sx.check("rejected-unchanged", same(sx, before, snapshot(A)))
        return
    sx.check("accepted", e is None, repr(e))
    sx.check("constraints-kept", same(sx, {k: con_state(c) for k, c in A.get_constraints().items()}, cb))
    lin, quad, off = raw(A.to_physical())
    sx.check_all(poly_diff_checks(sx, "constraint-energy", {**lin, **quad}, padd(pa[0], pa[1], pb[0], pb[1])) + [("constraint-offset", sx.eq(off, pa[2] + pb[2]))])
    if kb in ("z1", "n0"):
        # a constraint without terms gains members later
        A.get_constraints_by_label(la).add_variable([xb[1], xb[2]])
        lin, quad, _ = raw(A.to_physical())
        sx.check("constraint-later", ("x[1]", "x[2]") in quad, str(quad))


@clocked
def chain(sx):
    """three models merged one after another; deleted and fixed variables carry over"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    ms = []
    want, off = {}, 0.0
    for i in range(3):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(2 + i,))
        a = {"a": i} if sx.choice(f"at{i}", [False, True]) else None
        m.add_interaction(x[0], coefficient=sx.real(f"c{i}", positive=True), attributes=a, timestamp=10 + i)
        m.add_interaction((x[0], x[1]), name=f"p{i % 2}", coefficient=sx.real(f"d{i}", positive=True), timestamp=20 + i)
        o = sx.real(f"o{i}")
        m.offset(o)
        off = off + o
        want = padd(want, live_poly(m))
        ms.append(m)
    snaps = [snapshot(m) for m in ms]
    if sx.choice("assoc", ["left", "right"]) == "left":
        ms[0].merge(ms[1])
        ms[0].merge(ms[2])
    else:
        ms[1].merge(ms[2])
        ms[0].merge(ms[1])
    verify_rows(sx, ms[0], snaps)
    lin, quad, o = raw(ms[0].to_physical())
    sx.check_all(poly_diff_checks(sx, "chain-energy", {**lin, **quad}, want) + [("chain-offset", sx.eq(o, off))])
    sx.check("chain-shape", tuple(ms[0].get_variables_by_name("x").shape) == (4,))


@clocked
def states(sx):
    """deleted and fixed variables of both models"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype=mtype)
    xa, xb = A.variables("x", shape=(3,)), B.variables("y", shape=(3,))
    for m, x, n in ((A, xa, "a"), (B, xb, "b")):
        for i in range(3):
            m.add_interaction(x[i], coefficient=sx.real(f"{n}{i}", nonzero=True))
        m.add_interaction((x[0], x[2]), coefficient=sx.real(f"{n}q", nonzero=True))
        op = sx.choice("op" + n, ["none", "delete", "fix"])
        if op == "delete":
            m.delete_variable(x[0])
        elif op == "fix":
            m.fix_variable(x[0], 1)
    pa, pb = raw(A.to_physical()), raw(B.to_physical())
    d, f = A.get_deleted_array() + B.get_deleted_array(), A.get_fixed_array() + B.get_fixed_array()
    A.merge(B)
    lin, quad, off = raw(A.to_physical())
    sx.check_all(poly_diff_checks(sx, "state-energy", {**lin, **quad}, padd(pa[0], pa[1], pb[0], pb[1])) + [("state-offset", sx.eq(off, pa[2] + pb[2]))])
    sx.check("deleted-fixed", sorted(A.get_deleted_array()) == sorted(d) and sorted(A.get_fixed_array()) == sorted(f))
    e, _ = attempt(A.merge, sx.choice("bad", [None, 3, "m"]))
    sx.check("not-a-model", isinstance(e, TypeError))


@clocked
def big(sx):
    """seven models with the same names merged one after another"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    ms, snaps, want, off = [], [], {}, 0.0
    ts = 1000
    for i in range(7):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(4 + i % 3,))
        y = m.variables(f"y{i % 2}", shape=(1 + i % 2, 11 - i))
        for j in range(4):
            ts += 1
            m.add_interaction(x[j], coefficient=sx.real(f"c{i}.{j}", positive=True), timestamp=ts, attributes={f"a{(i + j) % 3}": ts} if j % 2 else None)
            ts += 1
            m.add_interaction((x[j], x[(j + 1) % 4]), coefficient=sx.real(f"d{i}.{j}", positive=True), scale=2.0, timestamp=ts)
            ts += 1
            m.add_interaction((y[0, j], x[j]), name=f"pair {j}", coefficient=sx.real(f"e{i}.{j}", positive=True), timestamp=ts)
        m.remove_interaction(name=f"pair {i % 4}")
        m.add_constraint(mkcon("nze"[i % 3], x, f"con {i}", 1.0 + i))
        o = sx.real(f"o{i}")
        m.offset(o)
        off = off + o
        want = padd(want, live_poly(m))
        ms.append(m)
        snaps.append(snapshot(m))
    cons = {}
    for s in snaps:
        cons.update(s["constraints"])
    if sx.choice("grouping", ["left", "tree"]) == "left":
        for m in ms[1:]:
            ms[0].merge(m)
    else:
        for a, b in ((0, 1), (2, 3), (4, 5), (4, 6), (2, 4), (0, 2)):
            ms[a].merge(ms[b])
    verify_rows(sx, ms[0], snaps)
    sx.check("big-constraints", same(sx, {k: con_state(c) for k, c in ms[0].get_constraints().items()}, cons))
    got = {k: tuple(int(i) for i in v.shape) for k, v in ms[0].get_variables().items()}
    sx.check("big-shapes", got == {"x": (6,), "y0": (1, 11), "y1": (2, 10)}, str(got))
    p = live_poly(ms[0])
    sx.check_all(poly_diff_checks(sx, "big-energy", p, want) + [("big-offset", sx.eq(ms[0].get_offset(), off))])
    for k in list(ms[0].get_constraints()):
        ms[0].remove_constraint(k)
    lin, quad, _ = raw(ms[0].to_physical())
    sx.check_all(poly_diff_checks(sx, "big-energy", {**lin, **quad}, want))


@clocked
def again(sx):
    """models merged repeatedly, into themselves and into each other; the result converts and edits like any model"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    ms = []
    for i in range(4):
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(2,))
        m.add_interaction(x[0], coefficient=sx.real(f"c{i}", positive=True), attributes={"k": i})
        m.add_interaction((x[1], x[0]), coefficient=sx.real(f"d{i}", positive=True))
        m.offset(sx.real(f"o{i}"))
        ms.append(m)
    polys, offs = [live_poly(m) for m in ms], [m.get_offset() for m in ms]
    plan = sx.choice("plan", [[(0, 0)], [(0, 1), (0, 1)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 0)], [(0, 1), (2, 3), (0, 2), (0, 0)]])
    for a, b in plan:
        polys[a], offs[a] = padd(polys[a], polys[b]), offs[a] + offs[b]
        ms[a].merge(ms[b])
    t = plan[-1][0]
    m = ms[t]
    names = list(m._interactions_array["name"])
    sx.check("again-names", len(set(names)) == len(names), str(names))
    lin, quad, off = raw(m.to_physical())
    sx.check_all(poly_diff_checks(sx, "again-energy", {**lin, **quad}, polys[t]) + [("again-offset", sx.eq(off, offs[t]))])
    other = 1 if t == 0 else 0
    sx.check_all(poly_diff_checks(sx, "again-other", live_poly(ms[other]), polys[other]))
    # each record can be edited on its own
    w = sx.choice("edit", [0, 1, -1, -2])
    v = sx.real("v", positive=True)
    old, key = m._interactions_array["coefficient"][w], m._interactions_array["key"][w]
    m.update_interaction(name=names[w], coefficient=v)
    want = dict(polys[t])
    want[key] = want[key] - old + v
    sx.check_all(poly_diff_checks(sx, "again-edited", live_poly(m), want))


def converted(p, mtype):
    """interaction polynomial in the variables of the other type (constant dropped): bit = (spin+1)/2 towards spins, spin = 2*bit-1 towards bits"""
    one, half = (0.5, 0.25) if mtype == "ising" else (2, 4)
    lin = 0.25 if mtype == "ising" else -2
    out = {}
    for k, v in p.items():
        if isinstance(k, tuple):
            out = padd(out, {k: v * half}, {k[0]: v * lin}, {k[1]: v * lin})
        else:
            out = padd(out, {k: v * one})
    return out


@clocked
def mixed(sx):
    """the other model has the other type: it is converted first"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype="qubo" if mtype == "ising" else "ising")
    xa, xb = A.variables("x", shape=(2,)), B.variables("x", shape=(3,))
    A.add_interaction(xa[0], coefficient=sx.real("c0", nonzero=True), attributes={"k": 1})
    A.add_interaction((xa[0], xa[1]), coefficient=sx.real("c1", nonzero=True))
    B.add_interaction(xb[0], coefficient=sx.real("d0", nonzero=True), scale=2.0, attributes={"j": 1})
    B.add_interaction((xb[2], xb[0]), coefficient=sx.real("d1", nonzero=True), scale=sx.choice("scale", [1.0, 0.5]))
    B.add_interaction((xb[1], xb[0]), name="gone", coefficient=3.0)
    B.remove_interaction(name="gone")
    conflict = sx.choice("conflict", ["none", "label", "dimension"])
    if sx.choice("constraint", [False, True]) or conflict == "label":
        B.add_constraint(mkcon("n", xb, "L", 2.0))
    if conflict == "label":
        A.add_constraint(mkcon("n", xa, "L", 1.0))
    if conflict == "dimension":
        A.variables("y", shape=(2,))
        B.variables("y", shape=(2, 2))
    before = snapshot(A)
    want = padd(live_poly(A), converted(live_poly(B), mtype))
    e, _ = attempt(A.merge, B)
    if conflict != "none":
        sx.check("mixed-rejected", isinstance(e, ValueError), repr(e))
        sx.check("rejected-unchanged", same(sx, before, snapshot(A)))
        return
    sx.check("mixed-accepted", e is None, repr(e))
    sx.check("mixed-type", A.get_mtype() == mtype and all(type(v).__name__ == ("Spin" if mtype == "ising" else "Binary") for v in A.get_variables_by_name("x")))
    sx.check_all(poly_diff_checks(sx, "mixed-energy", live_poly(A), want))
    if A.get_constraints():
        # 2*(x0+x1-1)^2 in 0/1 reading, sawatabi sign
        pen = {"x[0]": 2.0, "x[1]": 2.0, ("x[0]", "x[1]"): -4.0} if mtype == "qubo" else {("x[0]", "x[1]"): -1.0}
        want = padd(want, pen)
    lin, quad, _ = raw(A.to_physical())
    sx.check_all(poly_diff_checks(sx, "mixed-converted", {**lin, **quad}, want))


@clocked
def rejected(sx):
    """a merge that is refused, for any of the reasons and with anything else new in the other model, changes neither model"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    why = sx.choice("why", ["label", "dimensions", "label and dimensions", "last of three labels"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype=mtype if sx.choice("type", ["same", "other"]) == "same" else ("qubo" if mtype == "ising" else "ising"))
    xa = A.variables("x", shape=(2,))
    A.variables("only left", shape=(1,))
    before_x = sx.choice("new array", ["first", "last"])
    if before_x == "first":
        w = B.variables("w", shape=(2, 2))
    xb = B.variables("x", shape=(2, 2) if "dimensions" in why else (4,))
    if before_x == "last":
        w = B.variables("w", shape=(2, 2))
    u = xb[1, 1] if "dimensions" in why else xb[3]
    A.add_interaction(xa[0], coefficient=sx.real("c0", nonzero=True), attributes={"k": 1}, timestamp=1)
    A.add_interaction((xa[0], xa[1]), coefficient=sx.real("c1", nonzero=True), timestamp=2)
    B.add_interaction((w[1, 1], u), coefficient=sx.real("c2", nonzero=True), attributes={"j": 1}, timestamp=3)
    B.add_interaction(w[0, 1], coefficient=sx.real("c3", nonzero=True), timestamp=4)
    A.offset(sx.real("oa"))
    B.offset(sx.real("ob"))
    for i in range(2):
        op = sx.choice(f"op{i}", ["none", "delete", "fix"])
        m, v = ((A, xa[1]), (B, w[0, 1]))[i]
        if op == "delete":
            m.delete_variable(v)
        elif op == "fix":
            m.fix_variable(v, 1)
    A.add_constraint(NHotConstraint([xa[0], xa[1]], n=1, label="L", strength=1.5))
    if why == "last of three labels":
        B.add_constraint(NHotConstraint([w[0, 0], u], n=1, label="M", strength=1.5))
        B.add_constraint(ZeroOrOneHotConstraint([w[0, 0], u], label="N", strength=1.5))
    if why != "dimensions":
        B.add_constraint(EqualityConstraint([w[0, 0]], [w[1, 0]], label="L", strength=1.5))
    sa, sb = snapshot(A), snapshot(B)
    for _ in range(2):
        e, _r = attempt(A.merge, B)
        sx.check("refused", isinstance(e, ValueError), repr(e))
        sx.check("refused-unchanged", same(sx, sa, snapshot(A)))
        if sb["mtype"] == mtype:  # a model of the other type is converted first
            sx.check("refused-other-unchanged", same(sx, sb, snapshot(B)))


@clocked
def independent(sx):
    """after a merge the two models are edited independently (their constraint objects are shared, as documented in the design)"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    A, B = LogicalModel(mtype=mtype), LogicalModel(mtype=mtype)
    left = sx.choice("left", ["empty", "arrays", "full"])
    if left != "empty":
        xa = A.variables("x", shape=(3,))
    xb = B.variables("x", shape=(3,))
    if left == "full":
        A.add_interaction(xa[0], name="mine", coefficient=sx.real("c0", nonzero=True), attributes={"j": 1}, timestamp=1)
    for i, t in enumerate([xb[0], (xb[0], xb[1]), xb[2], (xb[1], xb[2])]):
        B.add_interaction(t, coefficient=sx.real(f"d{i}", nonzero=True), scale=2.0, attributes={"k": i} if i % 2 else None, timestamp=10 + i)
    pre = sx.choice("before", ["none", "delete", "fix"])
    if pre == "delete":
        B.delete_variable(xb[0])
    elif pre == "fix":
        B.fix_variable(xb[0], 1)
    con = sx.choice("constraint", [False, True])
    if con:
        B.add_constraint(NHotConstraint([xb[1], xb[2]], n=1, label="M", strength=1.5))
    B.offset(sx.real("ob"))
    A.merge(B)
    who, other = (A, B) if sx.choice("edited", ["receiver", "other"]) == "receiver" else (B, A)
    kept = snapshot(other)
    x = who.get_variables_by_name("x")
    v = sx.real("v", nonzero=True)
    edit = sx.choice("edit", ["add", "update", "remove", "fix", "delete", "delete again", "constraint", "offset", "append", "new array", "physical", "convert"])
    if edit == "add":
        who.add_interaction(x[1], name="late", coefficient=v, attributes={"k": 9, "new": 1})
    elif edit == "update":
        who.update_interaction(name="x[1]*x[2]", coefficient=v, scale=v, attributes={"k": 9, "new": 1}, timestamp=99)
    elif edit == "remove":
        who.remove_interaction(name="x[1]*x[2]")
    elif edit == "fix":
        who.fix_variable(x[1], 1)
    elif edit in ("delete", "delete again"):
        if con and edit == "delete":
            return  # deleting a member edits the shared constraint object
        who.delete_variable(x[0])
    elif edit == "constraint":
        who.add_constraint(ZeroOrOneHotConstraint([x[0], x[1]], label="new", strength=v))
    elif edit == "offset":
        who.offset(v)
    elif edit == "append":
        who.append("x", shape=(2,))
    elif edit == "new array":
        who.variables("y", shape=(2,))
    elif edit == "physical":
        who.to_physical()
    elif not con:
        who.to_qubo() if mtype == "ising" else who.to_ising()
    sx.check("other-model-untouched", same(sx, kept, snapshot(other)), edit)
    sx.check("other-model-rows", all(len(c) == other._interactions_length for c in other._interactions_array.values()))


UNITS = [
    Unit("energies", energies, "2+2 interactions, all listed patterns of shared/distinct names, attributes and removals; all non-zero reals (2 symbolic scales), any offsets; both types",
         ["energy-sum", "record", "record-attributes", "offset-sum", "attributes-readable", "other-unchanged", "editable"], budget=200),
    Unit("shapes", shapes, "all pairs of 6 shapes (1-3 dims) plus absent", ["shape-max", "dimension-conflict-rejected", "rejected-unchanged"]),
    Unit("constraints", constraints, "three constraint kinds, equal and different labels; all non-zero reals", ["constraint-energy", "label-conflict-rejected", "rejected-unchanged"]),
    Unit("chain", chain, "three models, both groupings", ["chain-energy", "record-attributes"]),
    Unit("states", states, "deleted/fixed variables on both sides", ["state-energy", "deleted-fixed"]),
    Unit("big", big, "seven models of 12 interactions each with equal names, a constraint and a removed interaction each, merged left to right and as a tree; all positive coefficients, any offsets",
         ["big-energy", "big-constraints", "big-shapes"]),
    Unit("again", again, "up to 4 models of 2 equally named interactions merged repeatedly, into themselves and into each other, then one record edited; all positive reals", ["again-names", "again-energy", "again-edited"]),
    Unit("mixed", mixed, "an Ising and a QUBO model, 2 + 2 interactions, a constraint, conflicts; all non-zero reals (constants not compared)", ["mixed-energy", "mixed-converted", "mixed-rejected"]),
    Unit("rejected", rejected, "4 reasons for refusal x deleted/fixed variables, new arrays and either type in the other model (itself compared when of the same type), tried twice; all non-zero reals", ["refused", "refused-unchanged", "refused-other-unchanged"]),
    Unit("independent", independent, "an empty, bare or filled model merged with one of 4 interactions (deleted/fixed variable, constraint), then one of 12 edits of either; all non-zero reals", ["other-model-untouched"]),
]
