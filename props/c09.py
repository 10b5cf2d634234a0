"""C09: converting to a physical model does not change the logical model."""
import pyqubo

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, ZeroOrOneHotConstraint, attempt, clocked, raw, same, snapshot

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in", "removed interactions may be discarded by a conversion (as the statement says)"]


def plain(v):
    if isinstance(v, (pyqubo.core.Express, pyqubo.core.Coefficient)):
        return "expr:" + repr(v)
    return v


def live(m):
    s = snapshot(m)
    s["rows"] = [{k: plain(v) for k, v in r.items()} for r in s["rows"] if not r["removed"]]
    s["offset"] = plain(s["offset"])
    s["rows"] = {r["name"]: r for r in s["rows"]}
    del s["lens"]
    return s


def wellformed(m):
    return all(len(v) == m._interactions_length for v in m._interactions_array.values())


def physical(p):
    lin, quad, off = raw(p)
    return {"t": p.get_mtype(), "l": lin, "q": {str(k): v for k, v in quad.items()}, "o": off, "i": dict(p._label_to_index), "j": {str(k): v for k, v in p._index_to_label.items()}}


def build(sx, ph, con, con2, removed, rename):
    """one recipe, built as often as needed with the same values"""
    m = LogicalModel(mtype=sx.mt)
    x = m.variables("x", shape=(3,))
    m.variables("unused", shape=(2,))
    c0, c1, s1, a1 = sx.v["c0"], sx.v["c1"], sx.v["s1"], sx.v["a1"]
    m.add_interaction(x[0], coefficient=c0, attributes={"k": a1}, timestamp=5)
    m.add_interaction((x[2], x[0]), name=rename or "", coefficient=c1 if ph != "coefficient" else pyqubo.Placeholder("p") * 2.0 + 1.0,
                      scale=pyqubo.Placeholder("p") if ph == "scale" else s1, timestamp=6)
    m.add_interaction(x[1], coefficient=3.0, attributes={"j": 2}, timestamp=7)
    if removed:
        m.remove_interaction(target=x[1])
    m.offset(pyqubo.Placeholder("p") + 2.0 if ph == "offset" else sx.v["off"])
    for label, kind in (("A", con), ("B", con2)):
        if kind == "n":
            m.add_constraint(NHotConstraint([x[0], x[1], x[2]], n=2, label=label, strength=sx.v["st"]))
        elif kind == "e":
            m.add_constraint(EqualityConstraint([x[0]], [x[2]], label=label, strength=sx.v["st"]))
        elif kind == "z":
            m.add_constraint(ZeroOrOneHotConstraint(x, label=label, strength=sx.v["st"]))
    return m, x


def inputs(sx, positive=False):
    sx.mt = sx.choice("mtype", ["ising", "qubo"])
    sx.v = {k: sx.real(k, nonzero=not positive, positive=positive) for k in ("c0", "c1", "s1", "a1", "off", "st")}


@clocked
def repeat(sx):
    """convert three times; contents unchanged and results equal"""
    inputs(sx)
    ph = sx.choice("ph", ["none", "coefficient", "scale", "offset"])
    con, con2 = sx.choice("con", ["none", "n", "e", "z"]), sx.choice("con2", ["none", "n"])
    removed = sx.choice("removed", [False, True])
    m, _ = build(sx, ph, con, con2, removed, None)
    feed = {} if ph == "none" else {"p": sx.choice("feed", [2.5, -1.0])}
    feed0 = dict(feed)
    before = live(m)
    p1 = m.to_physical(placeholder=feed)
    r1 = physical(p1)
    sx.check("contents-kept", same(sx, before, live(m)))
    if sx.choice("result changed", [False, True]):
        # what the caller does with the result is the caller's business
        p1.add_interaction("x[0]", body=1, coefficient=7.0)
        p1.add_interaction(("new", "x[1]"), body=2, coefficient=7.0)
        p1._offset = 7.0
        sx.check("contents-kept", same(sx, before, live(m)))
    sx.check("well-formed", wellformed(m))
    r2 = physical(m.to_physical(placeholder=feed))
    sx.check("repeatable", same(sx, r1, r2))
    r3 = physical(m.to_physical(placeholder=feed))
    sx.check("repeatable", same(sx, r1, r3))
    sx.check("contents-kept", same(sx, before, live(m)))
    sx.check("feed-unchanged", feed == feed0)
    sx.observe("r", r1["l"])


EDITS = ["none", "update", "add", "remove", "fix", "delete", "constraint", "offset", "merge", "append", "convert type"]


def edit(sx, m, x, e):
    v = sx.v["v"]
    if e == "update":
        m.update_interaction(x[0], coefficient=v, attributes={"k": 4, "new": 1}, timestamp=20)
    elif e == "add":
        m.add_interaction((x[1], x[2]), coefficient=v, attributes={"j": 3}, timestamp=20)
    elif e == "remove":
        m.remove_interaction(target=x[0])
    elif e == "fix":
        m.fix_variable(x[2], 1)
    elif e == "delete":
        m.delete_variable(x[2])
    elif e == "constraint":
        m.add_constraint(NHotConstraint([x[0], x[1]], label="A", strength=v))
    elif e == "offset":
        m.offset(v)
    elif e == "append":
        y = m.append("x", shape=(1,))
        m.add_interaction(y[3], coefficient=v, timestamp=20)
    elif e == "merge":
        o = LogicalModel(mtype=m.get_mtype())
        w = o.variables("x", shape=(4,))
        o.add_interaction(w[3], coefficient=v, attributes={"z": 1}, timestamp=20)
        m.merge(o)
    elif e == "convert type":
        m.to_qubo() if m.get_mtype() == "ising" else m.to_ising()


def strip_ts(s):
    """drop what legitimately differs between twins: wall clock stamps"""
    for r in s["rows"].values():
        if not (isinstance(r["timestamp"], int) and r["timestamp"] <= 20):
            r["timestamp"] = 0
    s["rows"] = [s["rows"][k] for k in s["rows"]]
    for r in s["rows"]:
        r["name"] = r["name"].split(" (mtype additional")[0]
    return s


@clocked
def later_edits(sx):
    """a converted model and a twin that was never converted stay equal under later edits"""
    inputs(sx)
    sx.v["v"] = sx.real("v", nonzero=True)
    con = sx.choice("con", ["none", "n", "e"])
    removed = sx.choice("removed", [False, True])
    m, x = build(sx, "none", con, "none", removed, None)
    t, y = build(sx, "none", con, "none", removed, None)
    e1 = sx.choice("first", ["none", "fix", "delete", "remove"])
    edit(sx, m, x, e1)
    edit(sx, t, y, e1)
    m.to_physical()
    e2 = sx.choice("then", EDITS)
    ea, _ = attempt(edit, sx, m, x, e2)
    eb, _ = attempt(edit, sx, t, y, e2)
    if eb is not None and ea is None:
        # the twin refuses because a removed name may not be reused; discarding it is allowed
        sx.check("only-removed-forgotten", isinstance(eb, (ValueError, KeyError)))
        return
    sx.check("same-outcome", type(ea) is type(eb) or isinstance(ea, (KeyError, ValueError)) and isinstance(eb, type(None)) and e2 == "remove" and e1 != "none", f"{ea!r} {eb!r}")
    sx.check("twin-contents", same(sx, strip_ts(live(m)), strip_ts(live(t))))
    sx.check("twin-physical", same(sx, physical(m.to_physical()), physical(t.to_physical())))


@clocked
def failure(sx):
    """a conversion without the needed placeholder is rejected and changes nothing"""
    inputs(sx, positive=True)
    ph = sx.choice("ph", ["coefficient", "scale", "offset"])
    con = sx.choice("con", ["none", "n", "e", "z"])
    con2 = sx.choice("con2", ["none", "n"]) if con == "n" else "none"
    feed = sx.choice("feed", [None, {"q": 1.0}])
    removed = sx.choice("removed", [False, True])
    rename = sx.choice("rename", [None, "x[0]*x[2] (A)"])
    m, x = build(sx, ph, con, con2, removed, rename)
    t, _ = build(sx, ph, con, con2, removed, rename)
    before = live(m)
    for _ in range(sx.choice("fails", [1, 2])):
        e, _ = attempt(m.to_physical, placeholder=feed)
        sx.check("rejected", e is not None)
        sx.check("failure-unchanged", same(sx, before, live(m)))
        sx.check("well-formed", wellformed(m))
    r, rt = m.to_physical(placeholder={"p": 1.5}), t.to_physical(placeholder={"p": 1.5})
    sx.check("converts-afterwards", same(sx, physical(r), physical(rt)))
    sx.check("after-conversion", same(sx, before, live(m)))


@clocked
def names(sx):
    """interaction names that look like those of constraints, live or removed"""
    inputs(sx)
    con = sx.choice("con", ["n", "e", "z"])
    nm = sx.choice("name", ["x[0]*x[2] (A)", "x[0] (A)", "x[2] (A)", "x[0]"])
    m = LogicalModel(mtype=sx.mt)
    x = m.variables("x", shape=(3,))
    m.add_interaction((x[0], x[2]), name=nm, coefficient=sx.v["c0"], attributes={"k": 1}, timestamp=3)
    m.add_interaction(x[1], coefficient=sx.v["c1"], timestamp=4)
    if sx.choice("removed", [False, True]):
        m.remove_interaction(name=nm)
    if con == "n":
        m.add_constraint(NHotConstraint([x[0], x[1], x[2]], n=2, label="A", strength=sx.v["st"]))
    elif con == "e":
        m.add_constraint(EqualityConstraint([x[0]], [x[2]], label="A", strength=sx.v["st"]))
    else:
        m.add_constraint(ZeroOrOneHotConstraint(x, label="A", strength=sx.v["st"]))
    before = live(m)
    r1 = physical(m.to_physical())
    sx.check("names-kept", same(sx, before, live(m)))
    sx.check("well-formed", wellformed(m))
    sx.check("names-repeatable", same(sx, r1, physical(m.to_physical())))


@clocked
def big(sx):
    """many interactions and constraints"""
    sx.mt = sx.choice("mtype", ["ising", "qubo"])

    def make():
        m = LogicalModel(mtype=sx.mt)
        x, y = m.variables("x", shape=(20,)), m.variables("y", shape=(2, 11))
        vs = [x[i] for i in range(20)] + [y[i, j] for i in range(2) for j in range(11)]
        for i, v in enumerate(vs):
            m.add_interaction(v, coefficient=val[f"c{i}"], timestamp=i, attributes={"k": i} if i % 3 == 0 else {"j": -i} if i % 3 == 1 else None)
            m.add_interaction((v, vs[(i + 5) % len(vs)]), coefficient=val[f"d{i}"], scale=2.0, timestamp=100 + i, name="" if i % 4 else f"x[0]*x[{i}] (N)")
        for i in range(3, len(vs), 7):
            m.remove_interaction(target=vs[i])
        m.add_constraint(NHotConstraint(vs[:12], n=2, label="N", strength=1.0))
        m.add_constraint(EqualityConstraint(vs[10:14], vs[14:20], label="E", strength=2.0))
        m.add_constraint(ZeroOrOneHotConstraint(vs[30:], label="Z", strength=3.0))
        m.offset(val["off"])
        return m, vs

    val = {f"{a}{i}": sx.real(f"{a}{i}", lo=1000, hi=10**6) for a in "cd" for i in range(42)}
    val["off"] = sx.real("off", positive=True)
    val["late"] = sx.real("late", lo=1000, hi=10**6)
    m, vs = make()
    t, ws = make()
    before = live(m)
    rs = []
    for _ in range(3):
        rs.append(physical(m.to_physical()))
        sx.check("big-kept", same(sx, before, live(m)))
        sx.check("well-formed", wellformed(m))
    sx.check("big-repeatable", sx.And(same(sx, rs[0], rs[1]), same(sx, rs[1], rs[2])))
    for a, v in ((m, vs), (t, ws)):
        a.update_interaction(target=v[25], coefficient=val["late"], timestamp=7)
        a.add_interaction((v[0], v[41]), coefficient=val["late"], timestamp=8, attributes={"k": 9})
    sx.check("big-twin", same(sx, live(m), live(t)))
    sx.check("big-twin", same(sx, physical(m.to_physical()), physical(t.to_physical())))


@clocked
def falsy(sx):
    """zero scales, coefficients, timestamps, attributes and offsets are kept as they are"""
    inputs(sx)
    m = LogicalModel(mtype=sx.mt)
    x = m.variables("x", shape=(3,))
    zero = sx.choice("zero", [0, 0.0])
    which = sx.choice("which", ["scale", "coefficient", "timestamp", "attribute", "offset", "all"])
    at = sx.choice("at", [0, 1, 2])
    for i, t in enumerate([x[0], (x[2], x[0]), x[1]]):
        kw = {"coefficient": sx.v["c0"], "scale": sx.v["s1"], "timestamp": 5, "attributes": {"k": sx.v["a1"]}}
        for f in ("scale", "coefficient", "timestamp"):
            if which in (f, "all") and i == at:
                kw[f] = zero
        if which in ("attribute", "all") and i == at:
            kw["attributes"] = {"k": zero}
        m.add_interaction(t, **kw)
    m.offset(zero if which in ("offset", "all") else sx.v["off"])
    before = live(m)
    r1 = physical(m.to_physical())
    sx.check("falsy-kept", same(sx, before, live(m)))
    r2 = physical(m.to_physical())
    sx.check("repeatable", same(sx, r1, r2))
    sx.check("falsy-kept", same(sx, before, live(m)))
    sx.check("types-kept", [type(m._interactions_array[f][at]) for f in ("scale", "coefficient", "timestamp") if which == f] == [type(zero)] * (which in ("scale", "coefficient", "timestamp")))


@clocked
def bad_feed(sx):
    """placeholders fed with values that are no use: the conversion is rejected and changes nothing"""
    inputs(sx, positive=True)
    ph = sx.choice("ph", ["coefficient", "scale", "offset", "power"])
    con = sx.choice("con", ["none", "n", "e"])
    removed = sx.choice("removed", [False, True])
    m, x = build(sx, ph, con, "none", removed, None)
    t, _ = build(sx, ph, con, "none", removed, None)
    if ph == "power":
        for a in (m, t):
            a.offset(pyqubo.Placeholder("p") * pyqubo.Placeholder("p") ** 2 + 1.0)
    feed = sx.choice("feed", ["text", None, [1.0], {}, 1e200, "raises", "raises all"])
    before = live(m)
    for _ in range(2):
        e, _r = attempt(m.to_physical, placeholder=Bad(feed) if str(feed).startswith("raises") else {"p": feed})
        sx.check("failure-unchanged", same(sx, before, live(m)), f"{feed!r}: {e!r}")
        sx.check("well-formed", wellformed(m))
    r, rt = m.to_physical(placeholder={"p": 1.5}), t.to_physical(placeholder={"p": 1.5})
    sx.check("converts-afterwards", same(sx, physical(r), physical(rt)))
    sx.check("after-conversion", same(sx, before, live(m)))


class Bad(dict):
    """a feed whose look-up fails in an unusual way"""

    def __init__(self, how):
        super().__init__(p=1.0)
        self.how = how

    def __getitem__(self, k):
        raise (RuntimeError if self.how == "raises" else MemoryError)(k)


UNITS = [
    Unit("repeat", repeat, "3 interactions, up to two constraints, placeholder in coefficient, scale or offset, removed interaction; all non-zero reals", ["contents-kept", "repeatable", "feed-unchanged"]),
    Unit("later-edits", later_edits, "one edit before and one of 11 edits after the conversion against a never-converted twin; all non-zero reals", ["twin-contents", "twin-physical", "same-outcome"]),
    Unit("failure", failure, "missing placeholder in coefficient, scale or offset, up to two constraints, one or two failures; all positive reals", ["rejected", "failure-unchanged", "converts-afterwards"]),
    Unit("names", names, "interaction names equal to generated ones, live and removed", ["names-kept", "names-repeatable"]),
    Unit("big", big, "84 interactions over 42 variables, three constraints, removed interactions; three conversions, later edits against a twin; all values in [10^3, 10^6]",
         ["big-kept", "big-repeatable", "big-twin"]),
    Unit("falsy", falsy, "3 interactions with a zero scale, coefficient, timestamp, attribute or offset, integer or float; all other values non-zero reals", ["falsy-kept", "repeatable"]),
    Unit("bad-feed", bad_feed, "placeholder in coefficient, scale, offset or as a power, fed with 7 useless values (text, None, containers, overflowing, failing look-ups), tried twice; all positive reals", ["failure-unchanged", "converts-afterwards"]),
]
