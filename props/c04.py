"""C04: deleting a variable removes it everywhere and nothing else."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import (EqualityConstraint, LogicalModel, NHotConstraint, ZeroOrOneHotConstraint, attempt, clocked, con_state, poly_diff_checks, raw,
                    same, snapshot)

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in"]


def build(sx, mtype, cfg, skip=None, pos=False):
    """the same model; with `skip`, as if that variable had never been used"""
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    y = m.variables("y", shape=(1, 12))
    vs = {"a": x[0], "b": x[1], "c": y[0, 1], "d": y[0, 10]}
    V = cfg["vals"]
    spec = [("l0", ("a",)), ("q0", ("b", "a")), ("l1", ("b",)), ("q1", ("a", "d")), ("q2", ("b", "c")), ("l2", ("a",)), ("l3", ("d",))]
    for n, t in spec:
        if skip in t:
            continue
        tg = tuple(vs[i] for i in t)
        m.add_interaction(tg if len(tg) > 1 else tg[0], name=n, coefficient=V[n], attributes={"src": n})
    for n in cfg["removed"]:
        if not any(skip in t for k, t in spec if k == n):
            m.remove_interaction(name=n)
    cons = {}
    for label, kind, members in cfg["cons"]:
        mem = [[vs[i] for i in g if i != skip] for g in members]
        if kind == "n":
            c = NHotConstraint(variables=mem[0] or None, n=cfg.get("n", 2), label=label, strength=V[label])
        elif kind == "z":
            c = ZeroOrOneHotConstraint(variables=mem[0] or None, label=label, strength=V[label])
        else:
            c = EqualityConstraint(variables_1=mem[0] or None, variables_2=mem[1] or None, label=label, strength=V[label])
        m.add_constraint(c)
        cons[label] = c
    m.offset(V["off"])
    return m, vs, cons


def verify(sx, m, ref, label_gone, before, cons, cons_before, deleted):
    # stored interactions: exactly those on the variable are removed; the rest untouched
    rows = {r["name"]: r for r in snapshot(m)["rows"]}
    old = {r["name"]: r for r in before["rows"]}
    sx.check("same-records", sorted(rows) == sorted(old))
    items = []
    for n, r in old.items():
        ks = r["key"] if isinstance(r["key"], tuple) else (r["key"],)
        want = dict(r)
        if label_gone in ks:
            want["removed"] = True
        items.append(("records", same(sx, rows[n], want), n))
    items.append(("offset-kept", sx.eq(m.get_offset(), before["offset"])))
    items.append(("deleted-listed", m.get_deleted_array() == deleted))
    for k, c in cons.items():
        want = dict(cons_before[k])
        for f in ("_variables", "_variables_1", "_variables_2"):
            if f in want:
                want[f] = [v for v in want[f] if v != label_gone]
        items.append(("members", same(sx, con_state(c), want), k))
    sx.check_all(items)


@clocked
def constraints(sx):
    """every membership pattern of the deleted variable in the three constraint kinds"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    nm = sx.choice("nhot", [("a", "b", "c"), ("b", "c"), ("a",)])
    zm = sx.choice("zero-or-one", [None, ("a", "d"), ("b", "d")])
    em = sx.choice("equality", [None, (("a",), ("b", "c")), (("c", "d"), ("b", "a")), (("b",), ("d",))])
    cons = [("N", "n", (nm,))]
    if zm:
        cons.append(("Z", "z", (zm,)))
    if em:
        cons.append(("E", "e", em))
    if sx.choice("order", ["fwd", "rev"]) == "rev":
        cons = cons[::-1]
    vals = {}
    for k in ("l0", "q0", "l1", "q1", "q2", "l2", "l3", "N", "Z", "E", "off"):
        vals[k] = sx.real(k, nonzero=(k != "off"))
    run(sx, mtype, {"vals": vals, "removed": [], "cons": cons, "n": len(nm)}, "a")


def run(sx, mtype, cfg, who):
    m, vs, cons = build(sx, mtype, cfg)
    ref, _, _ = build(sx, mtype, cfg, skip=who)
    lab = vs[who].label
    before = snapshot(m)
    cb = {k: con_state(c) for k, c in cons.items()}
    m.delete_variable(vs[who])
    verify(sx, m, ref, lab, before, cons, cb, [lab])
    p, q = m.to_physical(), ref.to_physical()
    (l1, q1, o1), (l2, q2, o2) = raw(p), raw(q)
    sx.check_all(poly_diff_checks(sx, "as-if-never-used", {**l1, **q1}, {**l2, **q2}) + [("converted-offset", sx.eq(o1, o2))])
    sx.check("no-index", lab not in p._label_to_index and lab not in p._index_to_label.values())
    sx.observe("p", sorted([str(k), v] for k, v in {**l1, **q1}.items()))


@clocked
def interactions(sx):
    """no constraints: every variable, every removed subset, converted before or not, deleting two in a row"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    names = ("l0", "q0", "l1", "q1", "q2", "l2", "l3")
    vals = {k: sx.real(k, nonzero=True) for k in names}
    vals["off"] = sx.real("off")
    removed = [n for n in ("l0", "q1", "l1") if sx.choice("rm " + n, [False, True])]
    cfg = {"vals": vals, "removed": removed, "cons": []}
    who = sx.choice("who", ["a", "b", "c", "d"])
    run(sx, mtype, cfg, who)


@clocked
def twice(sx):
    """two deletions, with edits between them"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(4,))
    vals = {}
    want = {}
    for i in range(4):
        c = sx.real(f"c{i}", nonzero=True)
        m.add_interaction(x[i], coefficient=c)
        want[f"x[{i}]"] = c
        for j in range(i):
            c = sx.real(f"c{i}{j}", nonzero=True)
            m.add_interaction((x[i], x[j]), coefficient=c)
            want[(f"x[{j}]", f"x[{i}]")] = c
    con = NHotConstraint([x[0], x[1], x[2]], n=1, label="h", strength=sx.real("s", nonzero=True))
    if sx.choice("constraint", [False, True]):
        m.add_constraint(con)
    i, j = sx.choice("ij", [(0, 1), (1, 0), (3, 0), (2, 2)])
    m.delete_variable(x[i])
    if sx.choice("convert", [False, True]):
        m.to_physical()
    m.delete_variable(x[j])
    gone = {f"x[{i}]", f"x[{j}]"}
    lin, quad, _ = raw(m.to_physical())
    left = {k: v for k, v in want.items() if not (gone & set(k if isinstance(k, tuple) else (k,)))}
    if m.get_constraints():
        mem = [v.label for v in con.get_variables()]
        sx.check("members-left", sorted(mem) == sorted(v for v in ("x[0]", "x[1]", "x[2]") if v not in gone))
        for k in set(lin) | set(quad):
            ks = set(k if isinstance(k, tuple) else (k,))
            sx.check("gone", not (ks & gone))
    else:
        sx.check_all(poly_diff_checks(sx, "two-gone", {**lin, **quad}, left))
    sx.check("deleted-list", sorted(m.get_deleted_array()) == sorted(gone))


@clocked
def lookalikes(sx):
    """labels and names that contain one another; every variable deleted in turn"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(12,))
    ax = m.variables("ax", shape=(2,))
    x2 = m.variables("x[1]", shape=(2,))
    xx = m.variables("x x", shape=(2, 2))
    X = m.variables("X", shape=(2,))
    vs = [x[1], x[10], x[11], ax[1], ax[0], x2[1], xx[1, 1], X[1]]
    who = sx.choice("who", range(len(vs)))
    gone = vs[who].label
    want = {}
    for i, v in enumerate(vs):
        c = sx.real(f"l{i}", positive=True)
        m.add_interaction(v, coefficient=c, name=f"own {gone}" if i == who else gone if i == (who + 1) % len(vs) else "" if i % 2 else f"n {gone} {i}")
        want[v.label] = c
        for j in ((i + 1) % len(vs), (i + 3) % len(vs)):
            c = sx.real(f"q{i}.{j}", positive=True)
            m.add_interaction((v, vs[j]), coefficient=c, name="" if (i + j) % 3 else f"{gone}*{i}.{j}")
            k = tuple(sorted((v.label, vs[j].label)))
            want[k] = c
    con = NHotConstraint(vs[:4] + [vs[who]], n=1, label=gone, strength=1.0)
    m.delete_variable(vs[who])
    lin, quad, _ = raw(m.to_physical())
    left = {k: v for k, v in want.items() if gone not in (k if isinstance(k, tuple) else (k,))}
    sx.check_all(poly_diff_checks(sx, "lookalike-kept", {**lin, **quad}, left))
    m.add_constraint(con)
    others = [c for c in vs if c.label != gone]
    z = ZeroOrOneHotConstraint(others, label="z", strength=1.0)
    m.add_constraint(z)
    m.delete_variable(vs[who])
    sx.check("lookalike-members", sorted(v.label for v in con.get_variables()) == sorted({v.label for v in vs[:4]} - {gone})
             and sorted(v.label for v in z.get_variables()) == sorted(v.label for v in others))


@clocked
def bad_target(sx):
    m = LogicalModel(mtype="ising")
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=sx.real("c"))
    m.add_constraint(NHotConstraint([x[0]], label="h", strength=sx.real("s")))
    bad = sx.choice("bad", [(None, ValueError), ("x[0]", TypeError), ((x[0], x[1]), TypeError), ([x[0]], TypeError)])
    before = snapshot(m)
    e, _ = attempt(m.delete_variable, bad[0])
    sx.check("bad-call-rejected", isinstance(e, bad[1]), repr(e))
    sx.check("bad-call-unchanged", same(sx, before, snapshot(m)))


@clocked
def big(sx):
    """many variables, interactions and constraints; several deletions"""
    mtype = sx.choice("mtype", ["ising", "qubo"])

    def make(skip=()):
        m = LogicalModel(mtype=mtype)
        x, y = m.variables("x", shape=(25,)), m.variables("y", shape=(2, 13))
        vs = [x[i] for i in range(25)] + [y[i, j] for i in range(2) for j in range(13)]
        n = len(vs)
        keep = lambda g: [v for v in g if v.label not in skip]  # noqa: E731
        for i, v in enumerate(vs):
            for t in ((v,), (vs[(i * 3 + 1) % n], v), (v, vs[(i + 1) % n])):
                if len(t) == 2 and t[0].label == t[1].label or len(keep(t)) < len(t):
                    continue
                k = "/".join(sorted(a.label for a in t))
                if k not in val:
                    val[k] = sx.real(k, lo=1000, hi=10**6)  # no sum can cancel
                if m._has_name(f"n {k}"):
                    continue
                m.add_interaction(t if len(t) > 1 else t[0], name=f"n {k}", coefficient=val[k])
        m.add_constraint(NHotConstraint(keep(vs[:14]), n=3, label="N", strength=st[0]))
        m.add_constraint(ZeroOrOneHotConstraint(keep(vs[10:24]), label="Z", strength=st[1]))
        m.add_constraint(EqualityConstraint(keep(vs[20:30]), keep(vs[30:41]), label="E", strength=st[2]))
        return m, vs

    val = {}
    st = [1.0, 2.0, 0.5]
    m, vs = make()
    gone = [vs[i] for i in sx.choice("gone", [(0, 12, 22, 35, 50), (12, 13, 14, 11, 10), (40, 24, 1)])]
    if sx.choice("convert", [False, True]):
        m.to_physical()
    for v in gone:
        m.delete_variable(v)
    labels = {v.label for v in gone}
    ref, _ = make(labels)
    (l1, q1, o1), (l2, q2, o2) = raw(m.to_physical()), raw(ref.to_physical())
    sx.check("big-no-key", not any(labels & set(k if isinstance(k, tuple) else (k,)) for k in list(l1) + list(q1)))
    sx.check_all(poly_diff_checks(sx, "big-as-if-never-used", {**l1, **q1}, {**l2, **q2}) + [("converted-offset", sx.eq(o1, o2))])
    sx.check("big-members", same(sx, {k: con_state(c) for k, c in m.get_constraints().items()}, {k: con_state(c) for k, c in ref.get_constraints().items()}))
    sx.check("big-deleted", sorted(m.get_deleted_array()) == sorted(labels))


@clocked
def last_member(sx):
    """constraints that lose their last member stay with the model"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(4,))
    s = [sx.real(f"s{i}", nonzero=True) for i in range(4)]
    cons = {"n": NHotConstraint([x[0]], n=sx.choice("n", [1, 2]), label="n", strength=s[0]), "z": ZeroOrOneHotConstraint([x[0]], label="z", strength=s[1]),
            "e": EqualityConstraint([x[0]], sx.choice("side", [[x[0]], [x[1]]]), label="e", strength=s[2]), "o": NHotConstraint([x[2], x[0], x[3]], label="o", strength=s[3])}
    for k in sx.choice("order", ["nzeo", "oezn"]):
        m.add_constraint(cons[k])
    c, d, o = sx.real("c"), sx.real("d"), sx.real("o")
    m.add_interaction(x[1], coefficient=c)
    m.add_interaction((x[0], x[1]), coefficient=d)
    m.offset(o)
    before = snapshot(m)
    cb = {k: con_state(v) for k, v in cons.items()}
    m.delete_variable(x[0])
    sx.check("constraints-stay", dict(m.get_constraints()) == cons and all(m.get_constraints()[k] is cons[k] for k in cons))
    verify(sx, m, None, "x[0]", before, cons, cb, ["x[0]"])
    for k, v in cons.items():
        sx.check("found-by-label", m.get_constraints_by_label(k) is v)


@clocked
def after_fix(sx):
    """a variable deleted after another was fixed: the records the fix left behind and the ones it made"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(4,))
    q = {}
    with_cons = sx.choice("constraints", [False, True])
    wide, near = (dict(lo=10**5, hi=10**6), dict(lo=10, hi=1000)) if with_cons else (dict(positive=True),) * 2  # with constraints, no sum can cancel
    for i in range(4):
        q[i] = sx.real(f"l{i}", **wide)
        m.add_interaction(x[i], coefficient=q[i])
        for j in range(i):
            q[j, i] = sx.real(f"q{j}{i}", **near)
            m.add_interaction((x[i], x[j]), coefficient=q[j, i], name="" if (i + j) % 2 else f"pair {i} {j} (before fixed)")
    m.offset(sx.real("o"))
    cons = {"n": NHotConstraint([x[1], x[0], x[2]], label="n", strength=sx.real("sn", lo=0.01, hi=0.5)), "e": EqualityConstraint([x[1], x[3]], [x[0], x[2]], label="e")}
    if with_cons:
        for c in cons.values():
            m.add_constraint(c)
    f, d = sx.choice("fixed, deleted", [(0, 1), (1, 0), (3, 2), (2, 3), (1, 1), (0, 3)])
    m.fix_variable(x[f], sx.choice("value", [1, -1 if mtype == "ising" else 0]))
    if sx.choice("convert", [False, True]):
        m.to_physical()
    if with_cons and sx.choice("other type", [False, True]):
        m.to_qubo() if mtype == "ising" else m.to_ising()  # the constraints keep their members of the old type
        x = m.get_variables_by_name("x")
    before = snapshot(m)
    e, _ = attempt(m.delete_variable, x[d])
    sx.check("deleted", e is None)
    sx.check("listed", m.get_deleted_array() == [x[d].label])
    for c in cons.values() if with_cons else ():
        for got in ([c.get_variables()] if c is cons["n"] else [c.get_variables_1(), c.get_variables_2()]):
            sx.check("member-gone", x[d].label not in {v.label for v in got})
    after = snapshot(m)
    rows = {r["name"]: r for r in after["rows"]}
    items = [("same-records", sorted(rows) == sorted(r["name"] for r in before["rows"]))]
    for r in before["rows"]:
        ks = r["key"] if isinstance(r["key"], tuple) else (r["key"],)
        items.append(("records", same(sx, rows[r["name"]], {**r, "removed": True if x[d].label in ks else r["removed"]}), r["name"]))
    sx.check_all(items)
    sx.check("offset-kept", sx.eq(after["offset"], before["offset"]))
    lin, quad, _ = raw(m.to_physical())
    for k in list(lin) + list(quad):
        sx.check("gone", x[d].label not in (k if isinstance(k, tuple) else (k,)))


UNITS = [
    Unit("constraints", constraints, "7 interactions over 4 variables, N-hot/zero-or-one-hot/equality constraint with every membership pattern listed, both orders; all non-zero real coefficients and strengths",
         ["as-if-never-used", "members", "records", "no-index"], budget=200),
    Unit("interactions", interactions, "7 interactions over 4 variables, each variable deleted, 3 of 7 interactions possibly removed before; all non-zero reals", ["as-if-never-used", "records"]),
    Unit("twice", twice, "complete graph on 4 variables, two deletions (same or different variable), with and without a constraint and a conversion in between", ["two-gone", "members-left"]),
    Unit("lookalikes", lookalikes, "8 variables of 5 arrays whose names and labels contain one another, each deleted; 24 interactions with default and misleading names; all positive reals",
         ["lookalike-kept", "lookalike-members"]),
    Unit("bad_target", bad_target, "invalid targets", ["bad-call-rejected"]),
    Unit("big", big, "51 variables, about 150 interactions, three constraints of 14-21 members, 3-5 deletions; all coefficients in [10^3, 10^6]", ["big-as-if-never-used", "big-members"]),
    Unit("last-member", last_member, "N-hot, zero-or-one-hot and equality constraints of one member, that member deleted; all non-zero strengths", ["constraints-stay", "members"]),
    Unit("after-fix", after_fix, "complete graph on 4 variables with default and misleading names, one fixed, one (the same or another) deleted, with and without a conversion between, with and without two constraints that share members, with and without a change of the model type; all positive reals (with constraints: ranges where no sum cancels)", ["records", "gone", "listed", "member-gone"]),
]
