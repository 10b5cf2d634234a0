"""C25: variable arrays and size counts stay consistent."""
import itertools

import pyqubo

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, attempt, clocked, same, snapshot

ASSUMPTIONS = ["array sizes are small (the code allocates one object per variable); the sizes are symbolic integers, case-split by the solver where the code needs a number",
               "wall clock replaced by a strictly increasing stand-in"]


def expected_labels(name, shape):
    return {idx: name + "".join(f"[{i}]" for i in idx) for idx in itertools.product(*[range(s) for s in shape])}


def verify_array(sx, m, arr, name, shape, label):
    cls = pyqubo.Spin if m.get_mtype() == "ising" else pyqubo.Binary
    got_shape = tuple(int(s) for s in arr.shape)
    sx.check(label + "-shape", got_shape == tuple(shape), f"{got_shape} want {shape}")
    for idx, lb in expected_labels(name, shape).items():
        v = arr[idx if len(idx) > 1 else idx[0]]
        sx.check(label + "-label", v.label == lb, v.label)
        sx.check(label + "-type", isinstance(v, cls))


def verify_sizes(sx, m, arrays, deleted, fixed):
    total = 0
    for shape in arrays.values():
        n = 1
        for s in shape:
            n *= s
        total += n
    items = [("all-size", sx.eq(m.get_all_size(), total), f"{m.get_all_size()} want {total}"),
             ("live-size", sx.eq(m.get_size(), total - len(deleted | fixed)), f"{m.get_size()} want {total} - {len(deleted | fixed)}"),
             ("deleted-size", m.get_deleted_size() == len(deleted) and sorted(m.get_deleted_array()) == sorted(deleted)),
             ("fixed-size", m.get_fixed_size() == len(fixed) and sorted(m.get_fixed_array()) == sorted(fixed))]
    sx.check_all(items)
    sx.observe("sizes", [m.get_all_size(), m.get_size()])


def dims(sx, pre, n, hi):
    """n symbolic sizes, turned into numbers by a case split over every feasible value"""
    return tuple(int(sx.int(f"{pre}{i}", lo=1, hi=hi)) for i in range(n))


@clocked
def arrays(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    nd = sx.choice("nd", [1, 2, 3])
    shape = dims(sx, "a", nd, {1: 12, 2: 4, 3: 2}[nd])
    name = sx.choice("name", ["x", "spin_1"])
    arr = m.variables(name, shape=shape)
    verify_array(sx, m, arr, name, shape, "created")
    sx.check("getters", m.get_variables_by_name(name) is arr and list(m.get_variables()) == [name])
    verify_sizes(sx, m, {name: shape}, set(), set())


@clocked
def append(sx):
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    nd = sx.choice("nd", [1, 2, 3])
    hi = {1: 6, 2: 2, 3: 2}[nd]
    shape = dims(sx, "a", nd, hi)
    other = (2, 1)
    m.variables("other", shape=other)
    first = m.variables("x", shape=shape)
    old = {i: first[i if nd > 1 else i[0]].label for i in expected_labels("x", shape)}
    m.add_interaction(first[tuple(s - 1 for s in shape) if nd > 1 else shape[0] - 1], coefficient=sx.real("c", nonzero=True), timestamp=1)
    before = snapshot(m)["rows"]
    want = shape
    for k in range(2):
        d = tuple(int(sx.int(f"d{k}{i}", lo=0, hi=5 if nd == 1 else 1)) for i in range(nd))
        arr = m.append("x", shape=d)
        want = tuple(a + b for a, b in zip(want, d))
        verify_array(sx, m, arr, "x", want, "appended")
    for i, lb in old.items():
        sx.check("labels-kept", arr[i if nd > 1 else i[0]].label == lb)
    sx.check("interactions-kept", same(sx, before, snapshot(m)["rows"]))
    new = sx.choice("new", [None, (3,), (1, 2)])
    sizes = {"other": other, "x": want}
    if new:
        verify_array(sx, m, m.append("fresh", shape=new), "fresh", new, "created-by-append")
        sizes["fresh"] = new
    verify_array(sx, m, m.get_variables_by_name("other"), "other", other, "untouched")
    verify_sizes(sx, m, sizes, set(), set())


@clocked
def counts(sx):
    """deleting and fixing, also the same variable twice or both ways"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    y = m.variables("y", shape=(2, 2))
    for i, t in enumerate([x[0], x[1], (x[0], y[0, 1]), (x[2], x[0])]):
        m.add_interaction(t, coefficient=sx.real(f"c{i}"))
    vs = [x[0], x[2], y[0, 1], y[1, 1]]
    D, F = set(), set()
    for k in range(3):
        op = sx.choice(f"op{k}", ["delete", "fix", "append", "convert", "type"] if k else ["delete", "fix"])
        if op in ("delete", "fix"):
            v = sx.choice(f"v{k}", vs)
            if m.get_mtype() != mtype:
                v = (pyqubo.Spin if m.get_mtype() == "ising" else pyqubo.Binary)(v.label)
            if op == "delete":
                m.delete_variable(v)
                D.add(v.label)
            else:
                m.fix_variable(v, 1)
                F.add(v.label)
        elif op == "append":
            m.append("x", shape=(2,))
        elif op == "convert":
            m.to_physical()
        elif mtype == m.get_mtype():
            m.to_qubo() if mtype == "ising" else m.to_ising()
        verify_sizes(sx, m, {k: tuple(int(s) for s in v.shape) for k, v in m.get_variables().items()}, D, F)
    sx.check("shape-now", int(m.get_variables_by_name("y").shape[0]) == 2 and int(m.get_variables_by_name("x").shape[0]) in (3, 5, 7))


@clocked
def given_arrays(sx):
    """arrays made by pyqubo are taken as they are if their type matches"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    vt = sx.choice("vartype", ["SPIN", "BINARY"])
    shape = sx.choice("shape", [(3,), (2, 2), (1, 2, 1)])
    arr = pyqubo.Array.create("q", shape=shape, vartype=vt)
    m = LogicalModel(mtype=mtype)
    e, r = attempt(m.variables, arr)
    if (vt == "SPIN") != (mtype == "ising"):
        sx.check("mismatch-rejected", isinstance(e, TypeError) and m.get_variables() == {}, repr(e))
        return
    sx.check("accepted", e is None and r is arr and m.get_variables_by_name("q") is arr, repr(e))
    verify_sizes(sx, m, {"q": shape}, set(), set())
    d = tuple(1 for _ in shape)
    verify_array(sx, m, m.append("q", shape=d), "q", tuple(s + 1 for s in shape), "given-appended")
    bad = sx.choice("bad", [(("z", [2]), TypeError), ((3, (2,)), TypeError), (("z", (2.0,)), TypeError), (("z", ()), (TypeError, ValueError)), (("z", ("2",)), TypeError)])
    before = snapshot(m)
    for f in (m.variables, m.append):
        e, _ = attempt(f, *bad[0])
        sx.check("bad-arguments-rejected", isinstance(e, bad[1]), repr(e))
        sx.check("rejected-unchanged", same(sx, before, snapshot(m)))
    e, _ = attempt(LogicalModel, mtype=sx.choice("type", ["", "spin", None]))
    sx.check("model-type-rejected", isinstance(e, ValueError), repr(e))
    sx.check("empty", m.empty().get_mtype() == mtype and m.empty().get_all_size() == 0 and m.empty() is not m)


@clocked
def big(sx):
    """several large arrays, many deleted and fixed variables"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    sizes = {"x": (int(sx.int("n", lo=30, hi=33)),), "two words": (12, 3), "é": (2, 11, 2), "x[1]": (1,), "z": (1, 1, 1, 3)}
    arrs = {}
    for k, s in sizes.items():
        arrs[k] = m.variables(k, shape=s)
        verify_array(sx, m, arrs[k], k, s, "created")
    grow = {"x": (17,), "two words": (0, 9), "é": (9, 0, 1), "x[1]": (11,)}
    for i in range(30):
        m.add_interaction((arrs["x"][i], arrs["two words"][i % 12, i % 3]), coefficient=sx.real(f"c{i}", nonzero=True), timestamp=i)
    before = snapshot(m)["rows"]
    D, F = set(), set()
    for i in range(12):
        v = arrs["two words"][i, 2 - i % 2]
        if i % 2:
            m.delete_variable(v)
            D.add(v.label)
    for k, d in grow.items():
        sizes[k] = tuple(a + b for a, b in zip(sizes[k], d))
        arrs[k] = m.append(k, shape=d)
    for k, s in sizes.items():
        verify_array(sx, m, m.get_variables_by_name(k), k, s, "appended")
    verify_sizes(sx, m, sizes, D, F)
    gone = [r for r in before if r["name"].split("*")[1] in D or r["name"].split("*")[0] in D]
    sx.check("interactions-kept", same(sx, [r for r in before if r not in gone], [r for r in snapshot(m)["rows"] if not r["removed"]]))
    for i in range(0, 40, 3):
        v = arrs["x"][i]
        m.fix_variable(v, 1)
        F.add(v.label)
    for i in range(0, 12, 4):
        v = arrs["x"][i]
        m.delete_variable(v)
        D.add(v.label)
    verify_sizes(sx, m, sizes, D, F)


@clocked
def down_to_zero(sx):
    """no arrays at all, and arrays all of whose variables are gone"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    verify_sizes(sx, m, {}, set(), set())
    shape = sx.choice("shape", [(1,), (2,), (1, 2), (3,)])
    x = m.variables("x", shape=shape)
    vs = [x[i] for i in itertools.product(*[range(s) for s in shape])] if len(shape) > 1 else [x[i] for i in range(shape[0])]
    m.add_interaction(vs[0], coefficient=sx.real("c"))
    D, F = set(), set()
    for k, v in enumerate(vs):
        how = sx.choice(f"how{k}", ["delete", "fix", "both"])
        if how != "delete":
            m.fix_variable(v, 1)
            F.add(v.label)
        if how != "fix":
            m.delete_variable(v)
            D.add(v.label)
        verify_sizes(sx, m, {"x": shape}, D, F)
    m.to_physical()
    verify_sizes(sx, m, {"x": shape}, D, F)
    m.append("x", shape=tuple(1 if i == 0 else 0 for i in range(len(shape))))
    verify_sizes(sx, m, {"x": (shape[0] + 1, *shape[1:])}, D, F)
    m.variables("y", shape=(2,))
    verify_sizes(sx, m, {"x": (shape[0] + 1, *shape[1:]), "y": (2,)}, D, F)


@clocked
def odd_arrays(sx):
    """given arrays with odd names; sizes of several hundred"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    vt = "SPIN" if mtype == "ising" else "BINARY"
    name = sx.choice("name", [" x", "x ", "x", "_", "0", "x[0]", "\u03b1 \u03b2", "X", "None"])
    given = sx.choice("given", ["pyqubo", "named"])
    shape = sx.choice("shape", [(2,), (255,), (256,), (257,), (300,), (1, 260), (258, 2)])
    arr = m.variables(pyqubo.Array.create(name, shape=shape, vartype=vt)) if given == "pyqubo" else m.variables(name, shape=shape)
    verify_array(sx, m, arr, name, shape, "created")
    m.variables("x  ", shape=(1,))
    sx.check("getters", m.get_variables_by_name(name) is arr and list(m.get_variables()) == [name, "x  "])
    d = sx.choice("grow", [0, 1, 60])
    want = tuple(s + d if i == 0 else s for i, s in enumerate(shape))
    arr = m.append(name, shape=tuple(d if i == 0 else 0 for i in range(len(shape))))
    verify_array(sx, m, arr, name, want, "appended")
    sx.check("getters", m.get_variables_by_name(name) is arr and list(m.get_variables()) == [name, "x  "])
    last = arr[tuple(s - 1 for s in want) if len(want) > 1 else want[0] - 1]
    m.add_interaction(last, coefficient=sx.real("c"))
    m.delete_variable(last)
    verify_sizes(sx, m, {name: want, "x  ": (1,)}, {last.label}, set())


UNITS = [
    Unit("arrays", arrays, "1-D up to 12, 2-D up to 4x4, 3-D up to 2x2x2: every size", ["created-label", "created-type", "all-size", "live-size"]),
    Unit("append", append, "1-D up to 6+5+5, 2-D and 3-D up to 2 per dimension plus 0/1 twice", ["appended-label", "labels-kept", "interactions-kept", "created-by-append-label", "all-size"]),
    Unit("counts", counts, "every sequence of 3 of delete/fix (4 variables, repeats allowed), append, conversion, type change", ["live-size", "deleted-size", "fixed-size"]),
    Unit("given-arrays", given_arrays, "pyqubo arrays of both types, invalid arguments", ["mismatch-rejected", "accepted", "bad-arguments-rejected"]),
    Unit("big", big, "5 arrays of up to 4 dimensions, about 250 variables after growing, 6+ deleted and 14 fixed", ["created-label", "appended-label", "all-size", "live-size", "deleted-size", "fixed-size"]),
    Unit("down-to-zero", down_to_zero, "models without arrays; arrays of 1 to 3 variables all of which are deleted, fixed or both, then grown", ["live-size", "all-size"]),
    Unit("odd-arrays", odd_arrays, "9 odd names, 7 shapes of up to 516 variables, given by pyqubo or by name, grown by 0, 1 or 60", ["created-label", "appended-label", "getters", "all-size", "live-size"]),
]
