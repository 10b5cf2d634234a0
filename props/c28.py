"""C28: queries report the model as it is and change nothing."""
import copy

import pandas as pd
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, attempt, clocked, pairkey, same, snapshot

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in"]
NAN = float("nan")


def build(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(12,))
    y = m.variables("x[1]", shape=(2,))
    ref = {}

    def put(t, name="", attrs=None, scale=None):
        i = len(ref)
        c = sx.real(f"c{i}")
        s = sx.real(f"s{i}") if scale is None else scale
        m.add_interaction(t, name=name, coefficient=c, scale=s, attributes=attrs, timestamp=float(10 * i))
        ls = [v.label for v in t] if isinstance(t, tuple) else [t.label]
        n = name or (ls[0] if len(ls) == 1 else "*".join(pairkey(*ls)))
        ref[n] = {"labels": ls, "coefficient": c, "scale": s, "timestamp": float(10 * i), "removed": False, "attrs": attrs or {}, "body": len(ls)}
        return n

    put(x[1])
    put((x[1], x[11]), attrs={"who": "a", "v": sx.real("v")}, scale=2.0)
    put(x[11], name="x[1]*x[1]", scale=1.0)
    put((y[1], x[1]), attrs={"who": "b"}, scale=1.0)
    put(y[1], attrs={"v": sx.real("w")}, scale=2.0)
    return m, x, y, ref


QUERIES = [
    ("removed == False", lambda sx, n, r: not r["removed"]),
    ("body == 2", lambda sx, n, r: r["body"] == 2),
    ("name == 'x[1]'", lambda sx, n, r: n == "x[1]"),
    ("coefficient > 1.5", lambda sx, n, r: r["coefficient"] > 1.5),
    ("coefficient <= 0 and removed == False", lambda sx, n, r: sx.And(r["coefficient"] <= 0, not r["removed"])),
    ("scale != 2", lambda sx, n, r: sx.Not(sx.eq(r["scale"], 2))),
    ("timestamp >= 20 and timestamp < 40", lambda sx, n, r: sx.And(r["timestamp"] >= 20, r["timestamp"] < 40)),
    ("key_0 == 'x[11]' or key_1 == 'x[11]'", lambda sx, n, r: "x[11]" in r["labels"]),
    ("`attributes.who` == 'b'", lambda sx, n, r: r["attrs"].get("who") == "b"),
]


def edits(sx, m, x, y, ref):
    """one edit between queries: answers must follow it"""
    e = sx.choice("edit", ["none", "update", "remove", "add", "attribute"])
    if e == "update":
        c = sx.real("c'")
        m.update_interaction(name="x[1]*x[1]", coefficient=c, timestamp=35.0)
        ref["x[1]*x[1]"].update(coefficient=c, timestamp=35.0)
    elif e == "remove":
        m.remove_interaction(target=x[1])
        ref["x[1]"]["removed"] = True
    elif e == "add":
        c = sx.real("c'")
        m.add_interaction((x[11], y[1]), coefficient=c, timestamp=25.0)
        ref["x[11]*x[1][1]"] = {"labels": ["x[11]", "x[1][1]"], "coefficient": c, "scale": 1.0, "timestamp": 25.0, "removed": False, "attrs": {}, "body": 2}
    elif e == "attribute":
        m.update_interaction(target=x[1], attributes={"who": "b"}, timestamp=22.0)
        ref["x[1]"]["attrs"] = {"who": "b"}
        ref["x[1]"]["timestamp"] = 22.0


def rows_match(sx, rows, ref):
    items = []
    for r in rows:
        w = ref.get(r["name"])
        if w is None:
            items.append(("query-values", False, r["name"]))
            continue
        items.append(("query-values", sx.And(sx.eq(r["coefficient"], w["coefficient"]), sx.eq(r["scale"], w["scale"]), sx.eq(r["timestamp"], w["timestamp"]),
                                             bool(r["removed"]) == w["removed"], r["body"] == w["body"]), r["name"]))
    return items


@clocked
def by_query(sx):
    """select with a query before and after an edit, both formats"""
    m, x, y, ref = build(sx)
    if sx.choice("queried before", [False, True]):
        m.select_interaction("body == 1")
    edits(sx, m, x, y, ref)
    q, pred = sx.choice("query", QUERIES)
    fmt = sx.choice("fmt", ["series", "dict"])
    before = snapshot(m)
    got = m.select_interaction(q, fmt=fmt)
    rows = list(got.values()) if fmt == "dict" else got.to_dict(orient="records")
    names = [r["name"] for r in rows]
    sx.check("query-once", len(set(names)) == len(names) and set(names) <= set(ref), f"{names}")
    sx.check_all([("query-exact", pred(sx, n, r) if n in names else sx.Not(pred(sx, n, r)), f"{q}: {n}") for n, r in ref.items()] + rows_match(sx, rows, ref))
    # both formats tell the same
    other = m.select_interaction(q, fmt="series" if fmt == "dict" else "dict")
    d, s = (got, other) if fmt == "dict" else (other, got)
    sx.check("formats-agree", sorted(d) == sorted(s.index) and all(set(r) == set(s.columns) for r in d.values()), f"{list(d)} {list(s.index)}")
    sx.check("formats-complete", set(s.columns) >= {"name", "key", "coefficient", "scale", "timestamp", "removed", "attributes.who", "attributes.v"}, str(list(s.columns)))
    if fmt == "dict":
        for r in rows:
            r["coefficient"] = 77.0
            r["name"] = "changed"
    else:
        sx.check("series-format", isinstance(got, pd.DataFrame))
        got["coefficient"] = 77.0
    sx.check("query-unchanged", same(sx, before, snapshot(m)))


@clocked
def by_variable(sx):
    """select by variable: exactly the names of the interactions it takes part in"""
    m, x, y, ref = build(sx)
    edits(sx, m, x, y, ref)
    for i, n in enumerate([" blank", "blank ", "Blank", "", "x[1] ", "blank\t"]):
        n = n or "\u00a0"
        m.add_interaction(x[1] if i % 2 else (x[11], x[2]), name=n, coefficient=1.0)
        ref[n] = {"labels": ["x[1]"] if i % 2 else ["x[11]", "x[2]"]}
    v = sx.choice("v", [0, 1, 2, 3, 4])
    v = [x[1], x[11], y[1], y[0], x[2]][v]
    before = snapshot(m)
    got = list(m.select_interactions_by_variable(v))
    sx.check("by-variable", sorted(got) == sorted(n for n, r in ref.items() if v.label in r["labels"]), f"{v.label}: {got}")
    sx.check("query-unchanged", same(sx, before, snapshot(m)))
    bad = sx.choice("bad", [None, "x[1]", (x[1], x[11]), 1])
    e, _ = attempt(m.select_interactions_by_variable, bad)
    sx.check("bad-variable", isinstance(e, TypeError), repr(e))
    e, _ = attempt(m.select_interaction, "body == 1", sx.choice("badfmt", ["", "list", "DICT"]))
    sx.check("bad-format", isinstance(e, ValueError), repr(e))
    sx.check("query-unchanged", same(sx, before, snapshot(m)))


@clocked
def attributes(sx):
    """attributes by target and by name, after an edit"""
    m, x, y, ref = build(sx)
    edits(sx, m, x, y, ref)
    tgt = {"x[1]": x[1], "x[1]*x[11]": (x[11], x[1]), "x[1]*x[1][1]": (x[1], y[1]), "x[1][1]": y[1]}
    items = []
    before = snapshot(m)
    for n, r in ref.items():
        ways = [{"name": n}] + ([{"target": tgt[n]}] if n in tgt else [])
        for w in ways:
            got = m.get_attributes(**w)
            items.append(("attribute-keys", sorted(got) == ["attributes.v", "attributes.who"], f"{n}: {sorted(got)}"))
            for k in ("v", "who"):
                v1, v2 = got.get("attributes." + k), m.get_attribute(key="attributes." + k, **w)
                want = r["attrs"].get(k, NAN)
                items.append(("attribute-value", sx.And(same(sx, v1, want), same(sx, v2, want)), f"{n}.{k}: {v1!r} {v2!r}"))
            got["attributes.v"] = 99.0
            got["attributes.new"] = 1
    sx.check_all(items)
    sx.check("query-unchanged", same(sx, before, snapshot(m)))
    e, _ = attempt(m.get_attributes, name="unknown")
    sx.check("unknown-attributes", e is not None)


@clocked
def readers(sx):
    """every reader leaves model, constraints and later conversions as they were"""
    m, x, y, ref = build(sx)
    strength, off = sx.real("strength"), sx.real("off")
    h = NHotConstraint([x[2], x[3]], n=1, label="h", strength=strength)
    q = EqualityConstraint([x[4]], [x[5]], label="q", strength=strength)
    m.add_constraint(h)
    m.add_constraint(q)
    m.offset(off)
    m.delete_variable(x[7])
    m.remove_interaction(target=x[1])
    twin = copy.deepcopy(m)
    before = snapshot(m)
    reader = sx.choice("reader", range(9))
    sx.texts_on = False  # which numbers print alike does not matter here
    if reader == 0:
        repr(m)
    elif reader == 1:
        str(m)
    elif reader == 2:
        sx.check("equal-to-copy", m == twin)
    elif reader == 3:
        sx.check("sizes", (m.get_size(), m.get_deleted_size(), m.get_fixed_size(), m.get_all_size()) == (13, 1, 0, 14))
    elif reader == 4:
        sx.check("constraints", m.get_constraints_by_label("h") is h and list(m.get_constraints().values()) == [h, q])
        sx.check("strengths", sx.And(sx.eq(h.get_strength(), strength), sx.eq(q.get_strength(), strength)))
    elif reader == 5:
        str(h), repr(h), str(q), repr(q)
    elif reader == 6:
        sx.check("variables", sorted(m.get_variables()) == ["x", "x[1]"] and m.get_variables_by_name("x") is x and m.get_variables_by_name("x[1]") is y)
    elif reader == 7:
        sx.check("offset", sx.eq(m.get_offset(), off))
        sx.check("deleted", m.get_deleted_array() == ["x[7]"] and m.get_fixed_array() == [])
    elif reader == 8:
        p = m.to_physical()
        str(p), repr(p), p.to_polynomial()
        sx.check("polynomial-unchanged", p == m.to_physical())
        # a conversion forgets removed interactions (C09)
        before["rows"] = [r for r in before["rows"] if not r["removed"]]
        before["lens"] = [len(before["rows"])]
    sx.check("reader-unchanged", same(sx, before, snapshot(m)))
    a, b = m.to_physical(), twin.to_physical()
    sx.check_all([("same-conversion", sx.eq(a._raw_interactions[d].get(k, 0), b._raw_interactions[d].get(k, 0)), str(k)) for d in (1, 2)
                  for k in set(a._raw_interactions[d]) | set(b._raw_interactions[d])] + [("same-conversion", sx.eq(a.get_offset(), b.get_offset()))])


@clocked
def big(sx):
    """many interactions on many variables"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(25,))
    ref, lab = {}, {}
    for i in range(25):
        for t in ((x[i],), (x[i], x[(i * 3 + 1) % 25])):
            if len({v.label for v in t}) < len(t) or (len(t) == 2 and "*".join(pairkey(t[0].label, t[1].label)) in ref):
                continue
            c = sx.real(f"c{len(ref)}", lo=10 * (len(ref) % 7), hi=10 * (len(ref) % 7) + 5)
            m.add_interaction(t if len(t) == 2 else t[0], coefficient=c, scale=float(i), timestamp=float(i), attributes={"a": float(i)} if i % 4 == 0 else {"b": "t"})
            n = t[0].label if len(t) == 1 else "*".join(pairkey(t[0].label, t[1].label))
            ref[n] = {"labels": [v.label for v in t], "coefficient": c, "scale": float(i), "timestamp": float(i), "removed": False, "attrs": {"a": float(i)} if i % 4 == 0 else {"b": "t"}, "body": len(t)}
    for i, n in enumerate(list(ref)):
        if i % 6 == 5:
            m.remove_interaction(name=n)
            ref[n]["removed"] = True
        elif i % 6 == 2:
            c = sx.real(f"d{i}", lo=33, hi=34)
            m.update_interaction(name=n, coefficient=c, timestamp=99.0)
            ref[n].update(coefficient=c, timestamp=99.0)
    before = snapshot(m)
    how = sx.choice("how", ["query", "variable", "attributes"])
    if how == "query":
        q, pred = sx.choice("query", QUERIES[:2] + [("coefficient > 28.5 and removed == False", lambda sx, n, r: sx.And(r["coefficient"] > 28.5, not r["removed"])),
                                                    ("timestamp >= 20 and timestamp < 40", lambda sx, n, r: 20 <= r["timestamp"] < 40), ("`attributes.b` == 't'", lambda sx, n, r: "b" in r["attrs"])])
        got = m.select_interaction(q, fmt="dict")
        names = [r["name"] for r in got.values()]
        sx.check("query-once", len(set(names)) == len(names) and set(names) <= set(ref), f"{names}")
        sx.check_all([("query-exact", pred(sx, n, r) if n in names else sx.Not(pred(sx, n, r)), f"{q}: {n}") for n, r in ref.items()] + rows_match(sx, list(got.values()), ref))
    elif how == "variable":
        for i in range(25):
            got = list(m.select_interactions_by_variable(x[i]))
            sx.check("by-variable", sorted(got) == sorted(n for n, r in ref.items() if f"x[{i}]" in r["labels"]), f"{i}: {got}")
    else:
        items = []
        for n, r in ref.items():
            got = m.get_attributes(name=n)
            items += [("attribute-value", same(sx, got.get("attributes." + k), r["attrs"].get(k, NAN)), f"{n}.{k}") for k in "ab"]
        sx.check_all(items)
    sx.check("query-unchanged", same(sx, before, snapshot(m)))


UNITS = [
    Unit("by_query", by_query, "5-6 interactions with real coefficients, scales and attributes; 9 queries, both formats, 5 edits before", ["query-exact", "query-values", "query-unchanged"]),
    Unit("by_variable", by_variable, "5 variables of arrays with nested names, 5 edits before", ["by-variable", "bad-variable", "bad-format"]),
    Unit("attributes", attributes, "attributes of 5-6 interactions by name and target, 5 edits before; all reals", ["attribute-value", "attribute-keys"]),
    Unit("readers", readers, "9 groups of reading calls on a model with constraints, a deleted variable and a removed interaction; all reals", ["reader-unchanged", "same-conversion"]),
    Unit("big", big, "about 50 interactions on 25 variables, some removed and updated: 5 queries, every variable, every attribute", ["query-exact", "query-values", "by-variable", "attribute-value"]),
]
