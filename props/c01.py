"""C01: the physical model is the exact sum of the live interactions."""
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.symstr import any_text
from vp.lib import LogicalModel, clocked, poly_diff_checks, pairkey, raw

ASSUMPTIONS = ["wall clock replaced by a strictly increasing stand-in",
               "pyqubo's expression compiler runs for real on the symbolic coefficients"]


def check_physical(sx, m, mtype, want, offset, label="sum"):
    p = m.to_physical()
    lin, quad, off = raw(p)
    got = {**lin, **quad}
    items = [("type", p.get_mtype() == mtype), ("offset", sx.eq(off, offset))]
    items.append(("well-formed", len(p._raw_interactions[2]) == len(quad)))
    items += poly_diff_checks(sx, label, got, want)
    for k, v in got.items():
        items.append(("no-zero-entry", v != 0))
        items.append(("no-stray-entry", k in want))
    sx.check_all(items)
    sx.observe("phys", sorted((str(k), v) for k, v in got.items()))
    sx.observe("offset", off)
    return p


def add_to(want, key, v):
    want[key] = want[key] + v if key in want else v


@clocked
def kernel(sx):
    """k interactions over two variables in any arrangement; all coefficients, scales and the offset symbolic"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    tg = [x[0], (x[0], x[1]), (x[1], x[0])]
    keys = ["x[0]", ("x[0]", "x[1]"), ("x[0]", "x[1]")]
    want = {}
    for i in range(3):
        t = sx.choice(f"t{i}", range(3))
        c = sx.real(f"c{i}")
        s = sx.real(f"s{i}") if i != 1 else 1.0
        if i == 1:
            m.add_interaction(tg[t], name=f"n{i}", coefficient=c)
        else:
            m.add_interaction(tg[t], name=f"n{i}", coefficient=c, scale=s)
        add_to(want, keys[t], c * s)
    off = sx.real("off")
    m.offset(off)
    check_physical(sx, m, mtype, want, off)


@clocked
def removed(sx):
    """live/removed/updated interactions, default names, both pair orders"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    tg = [x[0], (x[1], x[0]), x[0], (x[0], x[1]), x[2]]
    keys = ["x[0]", ("x[0]", "x[1]"), "x[0]", ("x[0]", "x[1]"), "x[2]"]
    names = ["", "", "again", "pair again", "x[1]"]
    want = {}
    for i in range(5):
        c = sx.real(f"c{i}", nonzero=True)
        m.add_interaction(tg[i], name=names[i], coefficient=c)
        st = sx.choice(f"st{i}", ["live", "removed"])
        if st == "removed":
            if names[i]:
                m.remove_interaction(name=names[i])
            else:
                m.remove_interaction(target=tg[i])
        else:
            add_to(want, keys[i], c)
    if sx.choice("upd", [False, True]) and "x[0]" in want:
        m.add_interaction(x[0], name="late", coefficient=1.0)
        s = sx.real("late_scale", nonzero=True)
        m.update_interaction(name="late", scale=s)
        add_to(want, "x[0]", s)
    check_physical(sx, m, mtype, want, 0.0)
    sx.reach("done")


@clocked
def wide(sx):
    """many interactions over multi-dimensional arrays with multi-digit indices, in several insertion orders"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    order = sx.choice("order", ["fwd", "rev", "mix"])
    m = LogicalModel(mtype=mtype)
    a = m.variables("a", shape=(12,))
    b = m.variables("b", shape=(2, 3))
    cc = m.variables("aa", shape=(1, 2, 2))
    vs = [a[1], a[2], a[10], a[11], b[0, 1], b[1, 0], cc[0, 0, 1], cc[0, 1, 0]]
    spec = []
    for i, v in enumerate(vs):
        spec.append((v,))
        for w in vs[i + 1:]:
            spec.append((v, w) if (len(spec) % 2) else (w, v))
    # duplicates of some targets under explicit names
    n0 = len(spec)
    for j in range(0, n0, 4):
        spec.append(spec[j] if len(spec[j]) == 1 else (spec[j][1], spec[j][0]))
    want = {}
    rows = []
    for i, t in enumerate(spec):
        c = sx.real(f"c{i}", positive=True)
        sc = (1.0, 0.5, 3)[i % 3]
        rows.append((i, t, c, sc))
        k = t[0].label if len(t) == 1 else pairkey(t[0].label, t[1].label)
        add_to(want, k, c * sc)
    if order == "rev":
        rows = rows[::-1]
    elif order == "mix":
        rows = rows[1::2] + rows[0::2]
    for i, t, c, sc in rows:
        m.add_interaction(t[0] if len(t) == 1 else t, name="" if i < n0 else f"dup {i}", coefficient=c, scale=sc)
    off = sx.real("off", nonzero=True)
    m.offset(off)
    check_physical(sx, m, mtype, want, off, "wide-sum")


@clocked
def ints(sx):
    """integer coefficients and scales, including the defaults"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("spin", shape=(2, 2))
    c = [sx.int(f"c{i}") for i in range(3)]
    s = sx.int("s")
    m.add_interaction(x[0, 1], coefficient=c[0], scale=s)
    m.add_interaction((x[1, 1], x[0, 1]), coefficient=c[1])
    m.add_interaction(x[1, 0], scale=s)
    m.add_interaction((x[0, 1], x[1, 1]), name="second", coefficient=c[2], scale=2)
    m.add_interaction(x[1, 1])
    o = sx.int("o")
    m.offset(o)
    want = {"spin[0][1]": c[0] * s, ("spin[0][1]", "spin[1][1]"): c[1] + 2 * c[2], "spin[1][0]": 0.0, "spin[1][1]": 0.0}
    check_physical(sx, m, mtype, want, o, "int-sum")


@clocked
def big(sx):
    """a few hundred interactions with repeated targets, removals and updates"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(40,))
    y = m.variables("y", shape=(4, 11))
    vs = [x[i] for i in range(40)] + [y[i, j] for i in range(4) for j in range(11)]
    n = len(vs)
    spec = [(v,) for v in vs] + [(vs[i], vs[(i * 5 + 7) % n]) for i in range(n) if i != (i * 5 + 7) % n]
    spec += [(vs[(i + 1) % n], vs[i]) for i in range(0, n, 2)] + [spec[i][::-1] for i in range(0, len(spec), 3)]
    rows = []
    seen = set()
    for i, t in enumerate(spec):
        k = t[0].label if len(t) == 1 else pairkey(t[0].label, t[1].label)
        c = sx.real(f"c{i}", positive=True)
        sc = (1.0, 2.0, 0.5, 1)[i % 4]
        name = "" if k not in seen else f"more {i}"
        seen.add(k)
        m.add_interaction(t[0] if len(t) == 1 else t, name=name, coefficient=c, scale=sc)
        rows.append([name, t[0] if len(t) == 1 else t, k, c, sc, False])
    for i in range(4, len(rows), 9):
        r = rows[i]
        m.remove_interaction(name=r[0]) if r[0] else m.remove_interaction(target=r[1])
        r[5] = True
    for i in range(0, len(rows), 11):
        r = rows[i]
        if not r[5]:
            r[3] = sx.real(f"u{i}", positive=True)
            m.update_interaction(name=r[0], coefficient=r[3]) if r[0] else m.update_interaction(target=r[1], coefficient=r[3])
    want = {}
    for _, _, k, c, sc, gone in rows:
        if not gone:
            add_to(want, k, c * sc)
    off = sx.real("off", nonzero=True)
    m.offset(off)
    if sx.choice("twice", [False, True]):
        m.to_physical()
    check_physical(sx, m, mtype, want, off, "big-sum")


@clocked
def sparse(sx):
    """models with nothing but an offset, or whose interactions are all removed or cancel"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(3,))
    kind = sx.choice("kind", ["nothing", "only offset", "all removed", "one left", "linear only", "pair only", "cancelling", "zero coefficient", "zero scale"])
    o, c, d = sx.real("o"), sx.real("c", nonzero=True), sx.real("d", nonzero=True)
    if kind != "nothing":
        m.offset(o)
    want = {}
    if kind in ("all removed", "one left"):
        m.add_interaction(x[0], coefficient=c)
        m.add_interaction((x[0], x[2]), coefficient=d)
        m.remove_interaction(x[0])
        if kind == "all removed":
            m.remove_interaction((x[0], x[2]))
        else:
            want = {("x[0]", "x[2]"): d}
    elif kind == "linear only":
        m.add_interaction(x[1], coefficient=c, scale=d)
        want = {"x[1]": c * d}
    elif kind == "pair only":
        m.add_interaction((x[2], x[1]), coefficient=c, scale=d)
        want = {("x[1]", "x[2]"): c * d}
    elif kind == "cancelling":
        m.add_interaction(x[1], coefficient=c)
        m.add_interaction(x[1], name="opposite", coefficient=-c)
        m.add_interaction((x[0], x[1]), coefficient=d)
        m.add_interaction((x[1], x[0]), name="other", coefficient=d, scale=-1)
        want = {"x[1]": 0.0, ("x[0]", "x[1]"): 0.0}
    elif kind == "zero coefficient":
        m.add_interaction(x[1], coefficient=0.0, scale=c)
        m.add_interaction(x[0], coefficient=d)
        want = {"x[1]": 0.0, "x[0]": d}
    elif kind == "zero scale":
        m.add_interaction((x[1], x[0]), coefficient=c, scale=0)
        m.add_interaction(x[0], coefficient=d)
        want = {("x[0]", "x[1]"): 0.0, "x[0]": d}
    check_physical(sx, m, mtype, want, 0.0 if kind == "nothing" else o, "sparse")
    m.offset(d)
    check_physical(sx, m, mtype, want, d, "sparse")


@clocked
def any_name(sx):
    """interactions with any text as name"""
    mtype = sx.choice("mtype", ["ising", "qubo"])
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(2,))
    c = [sx.real(f"c{i}", positive=True) for i in range(5)]
    n = any_text(sx, "n", sx.choice("length", [1, 4, 5, 9, 10]))
    k = any_text(sx, "k", sx.choice("other length", [2, 4]))
    if bool(n == k) or any(bool(o == w) for o in (n, k) for w in ("x[0]", "fixed", "first*pair")):
        return
    todo = [(0, x[0], n), (1, (x[1], x[0]), k), (2, x[0], ""), (3, x[1], "fixed"), (4, (x[0], x[1]), "first*pair")]
    if sx.choice("order", ["forwards", "backwards"]) == "backwards":
        todo.reverse()
    for i, t, name in todo:
        m.add_interaction(t, name=name, coefficient=c[i])
    if sx.choice("remove", [False, True]):
        m.remove_interaction(name=n)
        want = {"x[0]": c[2]}
    else:
        want = {"x[0]": c[0] + c[2]}
    want.update({("x[0]", "x[1]"): c[1] + c[4], "x[1]": c[3]})
    check_physical(sx, m, mtype, want, 0.0, "any-name")


UNITS = [
    Unit("kernel", kernel, "3 interactions over 2 variables, any arrangement of 1-body/2-body targets; coefficients, scales (2 of 3), offset: all reals; both model types",
         ["sum", "offset", "type", "no-zero-entry"]),
    Unit("removed", removed, "5 interactions (default and explicit names, names equal to labels, both pair orders), every removed subset; all non-zero real coefficients",
         ["sum", "done"]),
    Unit("wide", wide, "45 interactions over 8 variables of 3 arrays (1-3 dims, two-digit indices), 3 insertion orders; all positive real coefficients",
         ["wide-sum"]),
    Unit("ints", ints, "5 interactions with default/unset coefficient or scale; all integers", ["int-sum"]),
    Unit("big", big, "about 300 interactions over 84 variables, every ninth removed, every eleventh updated; all positive reals", ["big-sum"]),
    Unit("sparse", sparse, "9 kinds of model with no, one, removed, cancelling or zero interactions; all reals, two conversions", ["sparse", "offset"]),
    Unit("any-name", any_name, "4 interactions, two of them named by any text of 1-10 and 2-4 characters, one possibly removed by name; all positive reals", ["any-name"]),
]
