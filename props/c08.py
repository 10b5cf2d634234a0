"""C08: constraint membership follows the calls made."""
import itertools

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import EqualityConstraint, LogicalModel, NHotConstraint, ZeroOrOneHotConstraint, attempt, clocked, con_state, same

ASSUMPTIONS = ["variables come from a fixed pool of arrays; which of them each call names is decided by symbolic booleans"]

KINDS = ["n", "z", "e1", "e2"]


def make(kind, first, second=None, label="L", **kw):
    if kind == "n":
        return NHotConstraint(first, label=label, **kw)
    if kind == "z":
        return ZeroOrOneHotConstraint(first, label=label, **kw)
    if kind == "e1":
        return EqualityConstraint(first, second, label=label, **kw)
    return EqualityConstraint(second, first, label=label, **kw)


def api(c, kind):
    """(add, remove, members, members of the other side)"""
    if kind in ("n", "z"):
        return c.add_variable, c.remove_variable, c.get_variables, lambda: set()
    if kind == "e1":
        return c.add_variable_to_1, c.remove_variable_from_1, c.get_variables_1, c.get_variables_2
    return c.add_variable_to_2, c.remove_variable_from_2, c.get_variables_2, c.get_variables_1


def labels(vs):
    vs = list(vs)
    return sorted(v.label for v in vs)


def pick(sx, name, vs, nonempty=True):
    """a symbolic subset of vs"""
    out = [v for i, v in enumerate(vs) if sx.flag(f"{name}_{i}")]
    if nonempty:
        sx.assume(len(out) > 0)
    return out


def shape_arg(how, vs):
    if how == "list":
        return list(vs)
    if how == "dup":
        return list(vs) + [vs[0]] + list(vs)
    if how == "set":
        return set(vs)
    return vs[0]  # single


def history(steps, hows=("list", "dup", "set", "single", "array", "array2"), init=("set", "list", "array")):
    @clocked
    def h(sx):
        kind = sx.choice("kind", KINDS)
        mtype = {"n": "ising", "z": "qubo", "e1": "ising", "e2": "qubo"}[kind]
        m = LogicalModel(mtype=mtype)
        x = m.variables("x", shape=(2,))
        y = m.variables("y", shape=(1, 2))
        vs = [x[0], x[1], y[0, 1]]
        args = []

        def arg(i, hows=hows):
            how = sx.choice(f"how{i}", hows)
            if how == "array":
                return x, {"x[0]", "x[1]"}
            if how == "array2":
                return y, {"y[0][0]", "y[0][1]"}
            a = shape_arg(how, [sx.choice(f"v{i}", vs)] if how == "single" else pick(sx, f"p{i}", vs))
            if isinstance(a, (list, set)):
                args.append((a, labels(a), len(a)))
            return a, set(labels([a] if how == "single" else a))

        a, mem = (None, set()) if sx.choice("init", ["none", "given"]) == "none" else arg("i", init)
        other = [x[1]]
        c = make(kind, a, other, strength=sx.real("s"))
        add, rem, get, get2 = api(c, kind)
        sx.check("initial", labels(get()) == sorted(mem))
        for i in range(steps):
            op = sx.choice(f"op{i}", ["add", "remove"])
            a, names = arg(i)
            if op == "add":
                add(a)
                mem |= names
            elif names <= mem:
                rem(a)
                mem -= names
            else:
                e, _ = attempt(rem, a)
                sx.check("remove-rejected", isinstance(e, ValueError), repr(e))
            sx.check("members", labels(get()) == sorted(mem) and len(get()) == len(mem), f"{labels(get())} want {sorted(mem)}")
            sx.check("other-side", labels(get2()) == (["x[1]"] if kind[0] == "e" else []))
            for a, was, n in args:
                sx.check("caller-collection", labels(a) == was and len(a) == n)
        sx.observe("m", labels(get()))

    return h


@clocked
def sharing(sx):
    """constraints made from one collection, or from none, stay independent"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(4,))
    k1, k2 = sx.choice("k1", KINDS), sx.choice("k2", KINDS)
    src = sx.choice("src", ["none", "list", "set", "array"])
    base = {"none": None, "list": [x[0], x[1]], "set": {x[0], x[1]}, "array": x}[src]
    mem = {"none": [], "list": ["x[0]", "x[1]"], "set": ["x[0]", "x[1]"], "array": [f"x[{i}]" for i in range(4)]}[src]
    both = sx.choice("both sides", [False, True])
    c1 = make(k1, base, base if both else None, label="A")
    c2 = make(k2, base, base if both else None, label="B")
    add1, rem1, get1, get1o = api(c1, k1)
    add2, rem2, get2, get2o = api(c2, k2)
    oth1 = mem if both and k1[0] == "e" else []
    oth2 = mem if both and k2[0] == "e" else []
    op = sx.choice("op", ["add", "remove", "caller", "model"])
    now1, now2 = list(mem), list(mem)
    if op == "add":
        add1([x[2], x[3]])
        now1 = sorted(set(mem) | {"x[2]", "x[3]"})
    elif op == "remove":
        sx.assume(src != "none")
        rem1(x[1])
        now1 = [a for a in mem if a != "x[1]"]
    elif op == "caller":
        if src == "list":
            base.append(x[3])
            base.pop(0)
        elif src == "set":
            base.add(x[3])
            base.discard(x[0])
    else:
        m.add_constraint(c1)
        m.add_interaction(x[0], coefficient=1.0)
        m.delete_variable(x[0])
        now1 = [a for a in mem if a != "x[0]"]
        oth1 = [a for a in oth1 if a != "x[0]"]
    sx.check("first", labels(get1()) == now1 and labels(get1o()) == oth1, f"{labels(get1())} {now1}")
    sx.check("independent", labels(get2()) == now2 and labels(get2o()) == oth2, f"{labels(get2())} {now2}")
    if op != "caller" and src in ("list", "set"):
        sx.check("source-unchanged", labels(base) == mem)
    # a further member given as a fresh collection
    fresh = {x[3]}
    add2(fresh)
    add2(x[2])
    sx.check("added-collection-unchanged", labels(fresh) == ["x[3]"])
    sx.check("second", labels(get2()) == sorted(set(now2) | {"x[2]", "x[3]"}))
    add1(fresh)
    fresh.add(x[0])
    sx.check("not-aliased", labels(get1()) == sorted(set(now1) | {"x[3]"}))


@clocked
def equal_labels(sx):
    """the same variable reached through different objects (arrays that were appended to) is one member"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    kind = sx.choice("kind", KINDS)
    c = make(kind, x, None)
    add, rem, get, _ = api(c, kind)
    x2 = m.append("x", shape=(1,))
    how = sx.choice("how", ["list", "single", "array", "set"])
    add({"list": [x2[0], x2[2]], "single": x2[2], "array": x2, "set": {x2[1], x2[2]}}[how])
    sx.check("counted-once", labels(get()) == ["x[0]", "x[1]", "x[2]"])
    rem(x2[0] if sx.choice("obj", [0, 1]) else x[0])
    sx.check("removed-by-label", labels(get()) == ["x[1]", "x[2]"])


@clocked
def arguments(sx):
    """n, label and strength are kept; bad ones are rejected"""
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(2,))
    which = sx.choice("which", ["n", "n kind", "label", "strength", "vars", "add", "remove"])
    if which == "n":
        n = sx.int("n")
        s = sx.real("s")
        e, c = attempt(NHotConstraint, x, n=n, strength=s, label="q")
        if n <= 0:
            sx.check("n-rejected", isinstance(e, ValueError), repr(e))
        else:
            sx.check("n-accepted", e is None, repr(e))
            sx.check("values-kept", sx.And(sx.eq(c.get_n(), n), sx.eq(c.get_strength(), s), c.get_label() == "q"))
    elif which == "n kind":
        e, _ = attempt(NHotConstraint, x, n=sx.real("n") if sx.choice("k", [0, 1]) else "1")
        sx.check("n-type-rejected", isinstance(e, TypeError), repr(e))
    elif which == "label":
        kind = sx.choice("kind", KINDS)
        lb = sx.choice("lb", ["", 3, None])
        e, _ = attempt(make, kind, x, None, label=lb)
        sx.check("label-rejected", isinstance(e, ValueError if lb == "" else TypeError), repr(e))
    elif which == "strength":
        kind = sx.choice("kind", KINDS)
        e, _ = attempt(make, kind, x, None, strength=sx.choice("st", ["1", None, [1.0]]))
        sx.check("strength-rejected", isinstance(e, TypeError), repr(e))
        s = sx.int("s")
        sx.check("strength-kept", sx.eq(make(kind, x, None, strength=s).get_strength(), s))
    else:
        kind = sx.choice("kind", KINDS)
        bad = sx.choice("bad", ["x[0]", 3, ["x[0]"], [x[0], 1], {1}, (x[0], x[1])])
        if which == "vars":
            e, _ = attempt(make, kind, bad, None)
            sx.check("variables-rejected", isinstance(e, TypeError), repr(e))
        else:
            c = make(kind, x, None)
            add, rem, get, _ = api(c, kind)
            before = con_state(c)
            e, _ = attempt(add if which == "add" else rem, bad)
            sx.check("variables-rejected", isinstance(e, TypeError), repr(e))
            sx.check("rejected-unchanged", same(sx, before, con_state(c)))


@clocked
def big(sx):
    """many members, many calls"""
    m = LogicalModel(mtype="ising")
    x, y = m.variables("x", shape=(30,)), m.variables("y", shape=(3, 11))
    zs = {s: m.variables("z" * n, shape=s) for n, s in enumerate([(2, 1, 3), (2, 2, 1, 2), (1,), (1, 3)], 1)}
    kind = sx.choice("kind", KINDS)
    c = make(kind, [x[i] for i in range(20)], [y[0, 0]], strength=sx.real("s"))
    add, rem, get, get2 = api(c, kind)
    mem = {f"x[{i}]" for i in range(20)}
    for i in range(6):
        op = sx.choice(f"op{i}", ["add", "remove"])
        g = [[x[j] for j in range(i * 4, min(30, i * 4 + 12))], [y[i % 3, j] for j in range(11)]][i % 2] if op == "add" else [v for v in [x[j] for j in range(i, 30, 3)] if v.label in mem]
        if not g:
            continue
        (add if op == "add" else rem)(g if i % 3 else set(g))
        mem = mem | set(labels(g)) if op == "add" else mem - set(labels(g))
        sx.check("big-members", labels(get()) == sorted(mem))
        sx.check("other-side", labels(get2()) == (["y[0][0]"] if kind[0] == "e" else []))
    for s, z in zs.items():
        every = {"z" * (1 + list(zs).index(s)) + "".join(f"[{i}]" for i in ix) for ix in itertools.product(*[range(n) for n in s])}
        add(z)
        sx.check("array-members", labels(get()) == sorted(mem | every))
        rem(z)
        sx.check("array-removed", labels(get()) == sorted(mem))
        sx.check("array-initial", labels(api(make(kind, z, None), kind)[2]()) == sorted(every))
    missing = [v for v in [x[j] for j in range(30)] + [y[0, j] for j in range(11)] if v.label not in mem]
    some = [v for v in [x[j] for j in range(30)] if v.label in mem]
    for g in ([missing[0]], some[:3] + [missing[-1]], missing):
        before = con_state(c)
        e, _ = attempt(rem, g)
        sx.check("big-rejected", isinstance(e, ValueError), repr(e))
        sx.check("rejected-unchanged", same(sx, before, con_state(c)))


UNITS = [
    Unit("history2", history(2), "creation plus every sequence of 2 add/remove calls, each with a symbolic subset of 3 variables as list, list with duplicates or set, a single variable, a 1-D or 2-D array; 4 constraint sides",
         ["initial", "members", "remove-rejected", "other-side", "caller-collection"], budget=250),
    Unit("sharing", sharing, "all pairs of constraint kinds from one source, every later operation", ["independent", "not-aliased", "source-unchanged"]),
    Unit("equal-labels", equal_labels, "members named through re-created arrays", ["counted-once", "removed-by-label"]),
    Unit("arguments", arguments, "every integer n, every strength, listed invalid arguments", ["n-rejected", "n-accepted", "values-kept", "label-rejected", "strength-rejected", "variables-rejected"]),
    Unit("history3", history(3, ("dup", "set", "single", "array2"), ("set",)), "as history2 with 3 calls (duplicate list, set, single, 2-D array)", ["members"], tier="thorough", budget=700),
    Unit("big", big, "20-40 members, every sequence of 6 add/remove calls on slices of 10, then arrays of 1 to 4 dimensions added and removed whole", ["big-members", "big-rejected", "array-members", "array-initial"]),
]
