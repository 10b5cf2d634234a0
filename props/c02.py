"""C02: editing interactions behaves like a map from names to records."""
import functools

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.symstr import any_text
from vp.lib import LogicalModel, attempt, clocked, same, snapshot

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in"]
NAN = float("nan")


class Ref:
    """Independent record map."""

    def __init__(self):
        self.d = {}

    def add(self, name, key, c, s, attrs, ts):
        self.d[name] = {"key": key, "c": c, "s": s, "attrs": dict(attrs), "ts": ts, "removed": False}


def compare(sx, m, ref, keys, full=False):
    a = m._interactions_array
    names = list(a["name"])
    items = [("names", sorted(names) == sorted(ref.d) and m._interactions_length == len(names), f"{sorted(names)} vs {sorted(ref.d)}")]
    if sorted(names) != sorted(ref.d):
        sx.check_all(items)
        return
    for col, v in a.items():
        items.append(("columns", len(v) == len(names), col))
    for i, n in enumerate(names):
        r = ref.d[n]
        items.append(("target", a["key"][i] == r["key"] and a["body"][i] == (2 if isinstance(r["key"], tuple) else 1), n))
        items.append(("coefficient", sx.eq(a["coefficient"][i], r["c"]), n))
        items.append(("scale", sx.eq(a["scale"][i], r["s"]), n))
        items.append(("removed", a["removed"][i] == r["removed"], n))
        ts = a["timestamp"][i]
        if isinstance(r["ts"], tuple):
            items.append(("timestamp-now", sx.And(r["ts"][0] < ts, ts <= r["ts"][1]), n))
        else:
            items.append(("timestamp", sx.eq(ts, r["ts"]), n))
        got = m.get_attributes(name=n)
        for k in keys:
            kk = "attributes." + k
            if k in r["attrs"]:
                items.append(("attribute", sx.eq(got[kk], r["attrs"][k]) if kk in got else False, f"{n}.{k}"))
                items.append(("attribute-get", sx.eq(m.get_attribute(name=n, key=kk), r["attrs"][k]) if kk in got else False, f"{n}.{k}"))
            else:
                v = got.get(kk, NAN)
                items.append(("attribute-unset", isinstance(v, float) and type(v) is float and v != v, f"{n}.{k}: {v}"))
    sx.check_all(items)
    if full:
        sel = m.select_interaction("removed == False", fmt="dict")
        live = sorted(n for n in ref.d if not ref.d[n]["removed"])
        sx.check("select-live", sorted(v["name"] for v in sel.values()) == live)
        sx.check_all([("select-values", sx.And(sx.eq(v["coefficient"], ref.d[v["name"]]["c"]), sx.eq(v["scale"], ref.d[v["name"]]["s"])), v["name"])
                      for v in sel.values()])


def rejected(sx, m, label, exc_types, fn, *a, **k):
    """The call must be rejected and leave the model as it was."""
    before = snapshot(m)
    e, _ = attempt(fn, *a, **k)
    sx.check("rejects", e is not None and isinstance(e, exc_types), f"{label}: {e!r}")
    sx.check("rejected-unchanged", same(sx, before, snapshot(m)), label)


# the universe: name -> (target index, by which the default name arises)
def targets(x):
    return {"A": x[0], "B": (x[1], x[0]), "B2": (x[0], x[1]), "C": x[1]}


KEY = {"A": "x[0]", "B": ("x[0]", "x[1]"), "B2": ("x[0]", "x[1]"), "C": "x[1]"}
DEF = {"A": "x[0]", "B": "x[0]*x[1]", "B2": "x[0]*x[1]", "C": "x[1]"}

OPS = ["add A", "add B attr", "add A as n attr", "upd A", "upd B2 attr", "upd n fields", "upd n new attr", "rm A", "rm B", "rm n"]


def apply(sx, m, ref, x, i, op):
    """one edit on both; symbolic field values"""
    T = targets(x)
    t0 = sx.clock.t
    now = lambda: (t0, sx.clock.t)  # noqa: E731
    c = sx.real(f"c{i}")
    if op.startswith("add"):
        tk = op.split()[1]
        name = "n" if " as n" in op else ""
        kw, attrs, ts = {}, {}, None
        if "attr" in op:
            attrs = {"k": sx.real(f"a{i}")}
            if name:
                attrs["p"] = 7
            kw["attributes"] = attrs
        if name:
            kw["scale"] = sx.real(f"s{i}")
            kw["timestamp"] = ts = sx.real(f"ts{i}")
        n = name or DEF[tk]
        call = functools.partial(m.add_interaction, T[tk], name=name, coefficient=c, **kw)
        if n in ref.d:
            rejected(sx, m, op, ValueError, call)
            return
        call()
        ref.add(n, KEY[tk], c, kw.get("scale", 1.0), attrs, ts if ts is not None else now())
    elif op.startswith("upd n"):
        kw = {}
        if "fields" in op:
            kw = {"coefficient": c, "timestamp": sx.real(f"ts{i}")}
        else:
            kw = {"attributes": {"q": sx.real(f"a{i}")}, "scale": sx.int(f"s{i}")}
        call = functools.partial(m.update_interaction, name="n", **kw)
        if "n" not in ref.d:
            rejected(sx, m, op, KeyError, call)
            return
        if ref.d["n"]["removed"]:
            rejected(sx, m, op, ValueError, call)
            return
        call()
        r = ref.d["n"]
        if "coefficient" in kw:
            r["c"] = c
        if "scale" in kw:
            r["s"] = kw["scale"]
        r["attrs"].update(kw.get("attributes", {}))
        r["ts"] = kw.get("timestamp", now())
    elif op.startswith("upd"):
        tk = op.split()[1]
        kw = {"coefficient": c}
        if "attr" in op:
            kw = {"scale": sx.real(f"s{i}"), "attributes": {"k": sx.real(f"a{i}"), "r": 3}}
        n = DEF[tk]
        call = functools.partial(m.update_interaction, target=T[tk], **kw)
        if n in ref.d and ref.d[n]["removed"]:
            rejected(sx, m, op, ValueError, call)
            return
        call()
        if n not in ref.d:
            ref.add(n, KEY[tk], kw.get("coefficient", 0.0), kw.get("scale", 1.0), kw.get("attributes", {}), now())
        else:
            r = ref.d[n]
            r["c"] = kw.get("coefficient", r["c"])
            r["s"] = kw.get("scale", r["s"])
            r["attrs"].update(kw.get("attributes", {}))
            r["ts"] = now()
    elif op.startswith("rm"):
        tk = op.split()[1]
        n = "n" if tk == "n" else DEF[tk]
        call = functools.partial(m.remove_interaction, name="n") if tk == "n" else functools.partial(m.remove_interaction, target=T[tk])
        if n not in ref.d:
            rejected(sx, m, op, KeyError, call)
            return
        call()
        ref.d[n]["removed"] = True


def history(k, ops=OPS):
    @clocked
    def h(sx):
        m = LogicalModel(mtype=sx.choice("mtype", ["ising"]))
        x = m.variables("x", shape=(2,))
        ref = Ref()
        for i in range(k):
            apply(sx, m, ref, x, i, sx.choice(f"op{i}", ops))
            compare(sx, m, ref, ["k", "p", "q", "r"], full=(i == k - 1))
        sx.observe("rows", [[r["name"], r["coefficient"], r["scale"], r["removed"]] for r in snapshot(m)["rows"]])

    return h


@clocked
def isolation(sx):
    """with many interactions present, one edit touches exactly one record"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(12,))
    ref = Ref()
    cs = []
    for i in (0, 1, 2, 10, 11):
        c, s, ts = sx.real(f"c{i}"), sx.real(f"s{i}"), sx.real(f"t{i}")
        at = {"k": sx.real(f"a{i}")} if i % 2 == 0 else {}
        m.add_interaction(x[i], coefficient=c, scale=s, timestamp=ts, attributes=at)
        ref.add(f"x[{i}]", f"x[{i}]", c, s, at, ts)
        cs.append(c)
    for i, j in ((10, 2), (1, 11), (0, 1)):
        c = sx.real(f"c{i}_{j}")
        ts = sx.int(f"t{i}_{j}")
        lo, hi = sorted((f"x[{i}]", f"x[{j}]"))
        m.add_interaction((x[i], x[j]), coefficient=c, timestamp=ts)
        ref.add(f"{lo}*{hi}", (lo, hi), c, 1.0, {}, ts)
    compare(sx, m, ref, ["k"])
    for step in range(2):
        n = sx.choice(f"n{step}", sorted(ref.d))
        how = sx.choice(f"how{step}", ["coefficient", "scale", "attributes", "all", "remove"])
        t0 = sx.clock.t
        v = sx.real(f"v{step}")
        kw = {}
        if how in ("coefficient", "all"):
            kw["coefficient"] = v
        if how in ("scale", "all"):
            kw["scale"] = v + 1
        if how in ("attributes", "all"):
            kw["attributes"] = {"k": v + 2}
        if how == "remove":
            m.remove_interaction(name=n)
            ref.d[n]["removed"] = True
        elif ref.d[n]["removed"]:
            rejected(sx, m, "update removed", ValueError, m.update_interaction, name=n, **kw)
        else:
            m.update_interaction(name=n, **kw)
            r = ref.d[n]
            r["c"], r["s"] = kw.get("coefficient", r["c"]), kw.get("scale", r["s"])
            r["attrs"].update(kw.get("attributes", {}))
            r["ts"] = (t0, sx.clock.t)
        compare(sx, m, ref, ["k"], full=(step == 1))


@clocked
def malformed(sx):
    """malformed calls are rejected and change nothing"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    c = sx.real("c")
    m.add_interaction(x[0], coefficient=c, attributes={"k": 1})
    m.add_interaction((x[0], x[1]), name="pair", coefficient=sx.real("d"))
    m.add_interaction(x[2], coefficient=1.0)
    m.remove_interaction(target=x[2])
    V, T, K = ValueError, TypeError, KeyError
    fresh = lambda u: type(u)(u.label)  # noqa: E731
    v = sx.real("v")
    bad = [
        ("add none", V, m.add_interaction, (None,), {}),
        ("add same pair", V, m.add_interaction, ((x[1], x[1]),), {"coefficient": v}),
        ("add same pair, built anew", V, m.add_interaction, ((fresh(x[1]), x[1]),), {"coefficient": v}),
        ("add duplicate default, built anew", V, m.add_interaction, (fresh(x[0]),), {"coefficient": v}),
        ("update same pair, built anew", V, m.update_interaction, (), {"target": (x[0], fresh(x[0])), "coefficient": v}),
        ("update removed, built anew", V, m.update_interaction, (), {"target": fresh(x[2]), "coefficient": v}),
        ("add triple", T, m.add_interaction, ((x[0], x[1], x[2]),), {"coefficient": v}),
        ("add single tuple", T, m.add_interaction, ((x[0],),), {"coefficient": v}),
        ("add str target", T, m.add_interaction, ("x[1]",), {"coefficient": v}),
        ("add str in pair", T, m.add_interaction, ((x[1], "x[2]"),), {"coefficient": v}),
        ("add bad coefficient", T, m.add_interaction, (x[1],), {"coefficient": "1"}),
        ("add bad scale", T, m.add_interaction, (x[1],), {"scale": "1"}),
        ("add bad attributes", T, m.add_interaction, (x[1],), {"attributes": [1]}),
        ("add bad timestamp", T, m.add_interaction, (x[1],), {"timestamp": "now"}),
        ("add bad name", T, m.add_interaction, (x[1],), {"name": 5}),
        ("add duplicate default", V, m.add_interaction, (x[0],), {"coefficient": v}),
        ("add duplicate name", V, m.add_interaction, (x[1],), {"name": "pair", "coefficient": v}),
        ("add duplicate of label as name", V, m.add_interaction, (x[1],), {"name": "x[0]", "coefficient": v, "attributes": {"z": 1}}),
        ("add removed", V, m.add_interaction, (x[2],), {"coefficient": v}),
        ("add removed by name", V, m.add_interaction, (x[1],), {"name": "x[2]", "coefficient": v}),
        ("update nothing named", V, m.update_interaction, (), {"coefficient": v}),
        ("update both", V, m.update_interaction, (), {"target": x[0], "name": "x[0]", "coefficient": v}),
        ("update unknown name", K, m.update_interaction, (), {"name": "nope", "coefficient": v}),
        ("update removed", V, m.update_interaction, (), {"target": x[2], "coefficient": v}),
        ("update removed by name", V, m.update_interaction, (), {"name": "x[2]", "coefficient": v}),
        ("update bad coefficient", T, m.update_interaction, (), {"target": x[0], "coefficient": "1"}),
        ("update bad scale", T, m.update_interaction, (), {"target": x[0], "coefficient": v, "scale": "1"}),
        ("update bad attributes", T, m.update_interaction, (), {"target": x[0], "coefficient": v, "attributes": 3}),
        ("update bad timestamp", T, m.update_interaction, (), {"target": x[0], "coefficient": v, "timestamp": "now"}),
        ("update same pair", V, m.update_interaction, (), {"target": (x[0], x[0]), "coefficient": v}),
        ("remove nothing", V, m.remove_interaction, (), {}),
        ("remove both", V, m.remove_interaction, (), {"target": x[0], "name": "pair"}),
        ("remove unknown", K, m.remove_interaction, (), {"name": "nope"}),
        ("remove unknown target", K, m.remove_interaction, (), {"target": (x[0], x[1])}),
        ("remove bad target", T, m.remove_interaction, (), {"target": "x[0]"}),
    ]
    i = sx.choice("which", range(len(bad)))
    label, exc, fn, a, k = bad[i]
    rejected(sx, m, label, exc, fn, *a, **k)


@clocked
def big(sx):
    """a long history on many records"""
    m = LogicalModel(mtype=sx.choice("mtype", ["ising", "qubo"]))
    x = m.variables("x", shape=(24,))
    y = m.variables("ab", shape=(3, 12))
    vs = [x[i] for i in range(24)] + [y[i, j] for i in range(3) for j in range(12)]
    n = len(vs)
    ref = Ref()
    spec = [(v,) for v in vs] + [(vs[(i * 7 + 3) % n], vs[i]) for i in range(n) if (i * 7 + 3) % n != i]
    spec += [spec[i] for i in range(0, len(spec), 4)]
    how = []
    for i, t in enumerate(spec):
        key = t[0].label if len(t) == 1 else tuple(sorted((t[0].label, t[1].label)))
        name = key if len(t) == 1 else "*".join(key)
        given = ""
        if name in ref.d or i % 6 == 5:
            name = given = f"record {i}"
        c, ts = sx.real(f"c{i}"), sx.real(f"t{i}")
        at = {"k": sx.real(f"a{i}")} if i % 3 == 0 else {"p": i} if i % 3 == 1 else {}
        m.add_interaction(t if len(t) > 1 else t[0], name=given, coefficient=c, scale=2.0, timestamp=ts, attributes=at)
        ref.add(name, key, c, 2.0, at, ts)
        how.append((name, {"name": given} if given else {"target": t[::-1] if len(t) > 1 else t[0]}))
    for i, (name, sel) in enumerate(how):
        r = ref.d[name]
        t0 = sx.clock.t
        if i % 13 == 7:
            m.remove_interaction(**sel)
            r["removed"] = True
        elif i % 5 == 2:
            v = sx.real(f"u{i}")
            m.update_interaction(**sel, coefficient=v, attributes={"q": i})
            r["c"], r["ts"] = v, (t0, sx.clock.t)
            r["attrs"]["q"] = i
        elif i % 5 == 4:
            v = sx.real(f"w{i}")
            m.update_interaction(**sel, scale=v, timestamp=i)
            r["s"], r["ts"] = v, i
    compare(sx, m, ref, ["k", "p", "q"])
    names = list(ref.d)
    who = [names[sx.choice("who", [0, 7, 59, 61, 100, len(names) - 1])]]
    for i, w in enumerate(who + names[3::29]):
        r = ref.d[w]
        if r["removed"]:
            rejected(sx, m, "update removed", ValueError, m.update_interaction, name=w, coefficient=1.0)
            continue
        v = sx.real(f"z{i}")
        t0 = sx.clock.t
        m.update_interaction(name=w, coefficient=v)
        r["c"], r["ts"] = v, (t0, sx.clock.t)
    compare(sx, m, ref, ["k", "p", "q"])
    sx.check("big-rows", m._interactions_length == len(ref.d))


ODD = ["", " ", " k ", "k.l", "K", "attributes.k", "name", "0", "k\n"]


@clocked
def odd_keys(sx):
    """attribute keys that are blank or look like something else; variables given as objects built anew"""
    m = LogicalModel(mtype=sx.choice("mtype", ["ising", "qubo"]))
    x = m.variables("x", shape=(3,))
    new = (lambda u: type(u)(u.label)) if sx.choice("objects", ["own", "built anew"]) == "built anew" else (lambda u: u)
    ref = Ref()
    k1 = sx.choice("first", range(len(ODD)))
    k2 = (k1 + sx.choice("second", [1, 2, 5])) % len(ODD)
    k1, k2 = ODD[k1], ODD[k2]
    a, b, c, d = (sx.real(n) for n in "abcd")
    t0 = sx.clock.t
    m.add_interaction(new(x[0]), coefficient=c, attributes={k1: a})
    ref.add("x[0]", "x[0]", c, 1.0, {k1: a}, (t0, sx.clock.t))
    t0 = sx.clock.t
    m.add_interaction((new(x[1]), x[0]), coefficient=d, attributes={k2: b, "k": 1})
    ref.add("x[0]*x[1]", ("x[0]", "x[1]"), d, 1.0, {k2: b, "k": 1}, (t0, sx.clock.t))
    compare(sx, m, ref, sorted({*ODD, "k"}))
    t0 = sx.clock.t
    m.update_interaction((new(x[0]), new(x[1])), attributes={k1: d})
    ref.d["x[0]*x[1]"]["attrs"][k1] = d
    ref.d["x[0]*x[1]"]["ts"] = (t0, sx.clock.t)
    compare(sx, m, ref, sorted({*ODD, "k"}))
    m.remove_interaction(new(x[0]))
    ref.d["x[0]"]["removed"] = True
    compare(sx, m, ref, sorted({*ODD, "k"}))
    sx.check("odd-keys", True)


@clocked
def any_name(sx):
    """any text as the name of an interaction and as the name that is looked up"""
    m = LogicalModel(mtype=sx.choice("mtype", ["ising", "qubo"]))
    x = m.variables("x", shape=(3,))
    c = [sx.real(f"c{i}") for i in range(3)]
    m.add_interaction(x[0], coefficient=c[0], timestamp=1.0, attributes={"k": 1})
    m.add_interaction((x[1], x[0]), coefficient=c[1], timestamp=2.0)
    L = sx.choice("length", [1, 4, 9])
    n, k = any_text(sx, "n", L), any_text(sx, "k", L + sx.choice("more", [0, 1]))
    known = ["x[0]", "x[0]*x[1]"]
    if any(bool(n == o) for o in known):
        rejected(sx, m, "add", ValueError, m.add_interaction, x[1], name=n, coefficient=c[2])
        return
    m.add_interaction(x[1], name=n, coefficient=c[2], timestamp=3.0)
    known.append(n)
    hit = [i for i, o in enumerate(known) if bool(k == o)]
    op = sx.choice("op", ["update", "remove", "add", "attributes", "update removed"])
    d = sx.real("d")
    if op == "update removed":
        m.remove_interaction(name=n)
    before = snapshot(m)
    if op == "add":
        if hit:
            rejected(sx, m, op, ValueError, m.add_interaction, x[2], name=k, coefficient=d)
            return
        m.add_interaction(x[2], name=k, coefficient=d, timestamp=9.0)
    elif not hit:
        fn = {"update": m.update_interaction, "update removed": m.update_interaction, "remove": m.remove_interaction, "attributes": m.get_attributes}[op]
        rejected(sx, m, op, KeyError, fn, name=k)
        return
    elif op == "attributes":
        sx.check("any-name-attributes", same(sx, m.get_attributes(name=k), {"attributes.k": 1 if hit[0] == 0 else NAN}))
    elif op == "remove":
        m.remove_interaction(name=k)
    elif op == "update removed" and hit[0] == 2:
        rejected(sx, m, op, ValueError, m.update_interaction, name=k, coefficient=d)
        return
    else:
        m.update_interaction(name=k, coefficient=d, timestamp=9.0)
    after = snapshot(m)
    want = before["rows"]
    if op == "add":
        want.append({**want[0], "name": k, "key": "x[2]", "key_0": "x[2]", "coefficient": d, "scale": 1.0, "timestamp": 9.0, "attributes.k": NAN})
    elif op == "remove":
        want[hit[0]] = {**want[hit[0]], "removed": True}
    elif op != "attributes":
        want[hit[0]] = {**want[hit[0]], "coefficient": d, "timestamp": 9.0}
    rows = after["rows"]
    sx.check("any-name-rows", len(rows) == len(want))
    for r in rows:
        w = [o for o in want if bool(o["name"] == r["name"])]
        sx.check("any-name", len(w) == 1 and same(sx, {**r, "name": 0}, {**w[0], "name": 0}))


VALUES = ["any text", " text ", "", None, True, [1, 2], {"a": [0]}, (1, "b"), 0, "integer", "real"]


@clocked
def fields(sx):
    """every subset of the optional fields, given to an add, to an update of a record and to an update that makes a record; attribute values of any kind"""
    m = LogicalModel(mtype=sx.choice("mtype", ["ising", "qubo"]))
    x = m.variables("x", shape=(3,))
    how = sx.choice("how", ["add", "add named", "update", "update by name", "update new"])
    target = sx.choice("target", ["linear", "pair"])
    T, K, D = (x[1], "x[1]", "x[1]") if target == "linear" else ((x[2], x[1]), ("x[1]", "x[2]"), "x[1]*x[2]")
    ref = Ref()
    c, s, ts = sx.real("c"), sx.real("s"), sx.real("ts")
    m.add_interaction(x[0], coefficient=sx.real("o"), attributes={"k": "other"}, timestamp=5.0)
    ref.add("x[0]", "x[0]", m._interactions_array["coefficient"][0], 1.0, {"k": "other"}, 5.0)
    if how.startswith("update") and how != "update new":
        m.add_interaction(T, coefficient=c, scale=s, attributes={"k": "old", "p": c}, timestamp=7)
        ref.add(D, K, c, s, {"k": "old", "p": c}, 7)
    kind = sx.choice("value", VALUES)
    v = any_text(sx, "v", sx.choice("length", [1, 3])) if kind == "any text" else sx.int("v") if kind == "integer" else sx.real("v") if kind == "real" else kind
    kw = {}
    if sx.choice("coefficient", [False, True]) or how.startswith("add"):
        kw["coefficient"] = sx.int("c2")
    if sx.choice("scale", [False, True]):
        kw["scale"] = sx.real("s2")
    if sx.choice("attributes", [False, True]):
        kw["attributes"] = {"k": v}
    if sx.choice("timestamp", [False, True]):
        kw["timestamp"] = ts
    given = {k: dict(a) if isinstance(a, dict) else a for k, a in kw.items()}
    t0 = sx.clock.t
    n = D
    if how == "add":
        m.add_interaction(T, **kw)
    elif how == "add named":
        n = "n"
        m.add_interaction(T, name=n, **kw)
    elif how == "update by name":
        m.update_interaction(name=D, **kw)
    else:
        m.update_interaction(T, **kw)
    now = (t0, sx.clock.t)
    if n in ref.d:
        r = ref.d[n]
        r["c"], r["s"], r["ts"] = given.get("coefficient", c), given.get("scale", s), given.get("timestamp", now)
        r["attrs"].update(given.get("attributes", {}))
    else:
        ref.add(n, K, given.get("coefficient", 0.0), given.get("scale", 1.0), given.get("attributes", {}), given.get("timestamp", now))
    rows = m._interactions_array
    for col in ("k",) if given.get("attributes") else ():
        got = m.get_attribute(name=n, key="attributes.k")
        exact = bool(got == v) if kind == "any text" else (type(got) is type(v) and same(sx, got, v))
        sx.check("value-kept", exact, f"{kind}: {got!r}")
        if kind not in ("integer", "real"):
            for o in (rows["attributes.k"],):
                o[rows["name"].index(n)] = 0
            ref.d[n]["attrs"]["k"] = 0
    others = {k: a for k, a in ref.d["x[0]"]["attrs"].items()}
    sx.check("other-value", m.get_attribute(name="x[0]", key="attributes.k") == others["k"])
    rows["attributes.k"][rows["name"].index("x[0]")] = 0
    ref.d["x[0]"]["attrs"]["k"] = 0
    if ref.d[n]["attrs"].get("k") == "old":
        sx.check("other-value", m.get_attribute(name=n, key="attributes.k") == "old")
        rows["attributes.k"][rows["name"].index(n)] = 0
        ref.d[n]["attrs"]["k"] = 0
    compare(sx, m, ref, ["k", "p"])


UNITS = [
    Unit("history3", history(3), "every sequence of 3 of 10 edits (add/update/remove by target or name, with and without attributes, scales, timestamps) on 3 names; all real values",
         ["names", "coefficient", "rejects", "rejected-unchanged", "timestamp-now", "attribute", "attribute-unset", "select-live"]),
    Unit("history4", history(4, ["add A", "add A as n attr", "upd A", "upd B2 attr", "upd n new attr", "rm A", "rm n"]),
         "every sequence of 4 of 7 edits; all real values", ["coefficient"]),
    Unit("isolation", isolation, "8 interactions over 6 of 12 variables, two consecutive edits of any record; all real values, integer timestamps on pairs",
         ["coefficient", "scale", "timestamp", "attribute"]),
    Unit("malformed", malformed, "35 kinds of invalid call, all values", ["rejects", "rejected-unchanged"]),
    Unit("history5", history(5, ["add A", "add B attr", "add A as n attr", "upd A", "upd B2 attr", "upd n new attr", "rm n"]),
         "every sequence of 5 of 7 edits", ["coefficient"], tier="thorough"),
    Unit("big", big, "about 150 records over 60 variables, 90 edits by target and by name; all real values", ["big-rows", "coefficient", "attribute"]),
    Unit("odd-keys", odd_keys, "9 blank or odd attribute keys in pairs, targets given as the model's own or new variable objects; all reals", ["odd-keys", "attribute"]),
    Unit("any-name", any_name, "3 interactions, one named by any text of 1, 4 or 9 characters, then one of 5 calls by any text of up to 10 characters; all reals", ["any-name", "any-name-rows", "rejects"]),
    Unit("fields", fields, "5 ways to add or update x every subset of the optional fields x 11 kinds of attribute value (any text of 1 or 3 characters, containers, None, numbers); all reals and integers", ["value-kept", "coefficient", "timestamp", "timestamp-now", "other-value"]),
]
