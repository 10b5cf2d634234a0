"""C12: a model imported from a PyQUBO expression has that expression's energy."""
import collections

import pyqubo

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, attempt, clocked, live_poly, pairkey, poly_diff_checks, raw

ASSUMPTIONS = ["expressions of degree at most two over binary variables (higher degrees need auxiliary variables that the model does not have; spins are outside the statement)",
               "pyqubo's compiler runs for real on the symbolic numbers"]


class P:
    """independent polynomial arithmetic over 0/1 variables"""

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def var(n):
        return P({frozenset([n]): 1})

    @staticmethod
    def of(o):
        return o if isinstance(o, P) else P({frozenset(): o})

    def __add__(self, o):
        o = P.of(o)
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t[k] + v if k in t else v
        return P(t)

    __radd__ = __add__

    def __mul__(self, o):
        o = P.of(o)
        t = {}
        for k, v in self.t.items():
            for k2, v2 in o.t.items():
                kk = k | k2
                t[kk] = t[kk] + v * v2 if kk in t else v * v2
        return P(t)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self + P.of(o) * -1

    def __rsub__(self, o):
        return P.of(o) + self * -1

    def __neg__(self):
        return self * -1

    def __pow__(self, n):
        r = P.of(1)
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, n):
        return self * (1.0 / n)


def split(p):
    """-> (energy polynomial as sawatabi coefficients, constant)"""
    out, c = {}, 0.0
    for k, v in p.t.items():
        if len(k) == 0:
            c = v
        elif len(k) == 1:
            out[next(iter(k))] = 0.0 - v
        else:
            out[pairkey(*k)] = 0.0 - v
    return out, c


FORMS = {
    "linear": lambda a, b, c, r: r[0] * a + r[1] * b + r[2],
    "product": lambda a, b, c, r: r[0] * a * b + r[1] * c,
    "reordered": lambda a, b, c, r: b * a * r[0] + a * r[1] * c + c * b + 1,
    "square": lambda a, b, c, r: (a + b + r[0]) ** 2,
    "n-hot": lambda a, b, c, r: r[0] * (a + b + c - 2) ** 2 + r[1] * a,
    "cancel": lambda a, b, c, r: r[0] * a + r[1] * a * b + r[2] * a + r[0] * b * a - c,
    "self product": lambda a, b, c, r: r[0] * a * a + r[1] * a * b * b + r[2],
    "nested": lambda a, b, c, r: (r[0] * (a - b) + r[1]) * (c + 2) - r[2],
    "minus": lambda a, b, c, r: r[0] - (a - r[1] * b * c),
    "divided": lambda a, b, c, r: (r[0] * a - b * c + r[1]) / 4,
}


def setup(sx):
    shape = sx.choice("array", ["flat", "flat2", "grid", "two arrays", "cube", "named"])
    m = LogicalModel(mtype="qubo")
    given = sx.choice("given", ["own", "pyqubo"])

    def mk(name, shp):
        arr = pyqubo.Array.create(name, shape=shp, vartype="BINARY")
        if given == "own":
            return m.variables(name, shape=shp), arr
        m.variables(arr)
        return arr, arr

    if shape == "flat":
        _, x = mk("x", (3,))
        v = [x[0], x[1], x[2]]
    elif shape == "flat2":
        _, x = mk("x", (12,))
        v = [x[10], x[2], x[11]]
    elif shape == "grid":
        _, x = mk("x", (2, 2))
        v = [x[1, 0], x[0, 1], x[0, 0]]
    elif shape == "cube":
        _, x = mk("x", (2, 3, 11))
        v = [x[0, 0, 1], x[1, 2, 10], x[1, 1, 0]]
    elif shape == "named":
        _, x = mk("x y", (2, 2))
        _, y = mk("x", (2, 2))
        _, z = mk("\u03b1_1", (3,))
        v = [x[1, 0], y[0, 1], z[2]]
    else:
        _, y = mk("y", (2,))
        _, x = mk("x", (1, 2, 2))
        v = [y[1], x[0, 1, 1], y[0]]
    return m, v


@clocked
def expressions(sx):
    m, v = setup(sx)
    f = FORMS[sx.choice("form", list(FORMS))]
    r = [sx.real(f"r{i}") for i in range(3)]
    want, const = split(f(*[P.var(a.label) for a in v], r))
    e = f(*v, r)
    if sx.choice("compiled", [False, True]):
        e = e.compile()
    m.from_pyqubo(e)
    got = {k: c for k, c in live_poly(m).items()}
    sx.check_all(poly_diff_checks(sx, "import-energy", got, want) + [("import-constant", sx.eq(m.get_offset(), const))])
    lin, quad, off = raw(m.to_physical())
    sx.check_all(poly_diff_checks(sx, "physical-energy", {**lin, **quad}, want) + [("physical-constant", sx.eq(off, const))])
    sx.observe("p", sorted([str(k), v] for k, v in {**lin, **quad}.items()))
    sx.observe("o", off)


@clocked
def twice(sx):
    """the same expression or compiled model imported into two models; placeholders in the compiled model"""
    r = [sx.real(f"r{i}", nonzero=True) for i in range(3)]
    ph = sx.choice("ph", ["none", "terms", "powers"])
    pv = sx.real("pv", nonzero=True)
    if ph == "none":
        x = pyqubo.Array.create("x", shape=(2,), vartype="BINARY")
        e = r[0] * x[0] + r[1] * x[0] * x[1] + r[2]
        if sx.choice("compiled", [False, True]):
            e = e.compile()
        want, const, feed = {"x[0]": -r[0], ("x[0]", "x[1]"): -r[1]}, r[2], {}
    elif ph == "powers":
        PP = pyqubo.core.PlaceholderProd
        co = lambda d: pyqubo.Coefficient(collections.defaultdict(float, d))  # noqa: E731
        k = sx.choice("power", [3, 4, 5])
        p2 = sx.real("p2", nonzero=True)
        q = {("x[0]", "x[0]"): co({PP({"M": float(k)}): r[0], PP({"M": 1.0, "N": 2.0}): 2.0}), ("x[0]", "x[1]"): co({PP({"M": 2.0, "N": 1.0}): r[1]}), ("x[1]", "x[1]"): r[2]}
        e = pyqubo.Model(pyqubo.core.CompiledQubo(q, co({PP({"M": 1.0, "N": 1.0}): 3.0, PP({"N": float(k)}): r[1]})),
                         {"x[0]": ("x", 0), "x[1]": ("x", 1)}, {})
        power = lambda b: b * b * b if k == 3 else b * b * b * b if k == 4 else b * b * b * b * b  # noqa: E731
        want = {"x[0]": 0.0 - (r[0] * power(pv) + 2.0 * pv * p2 * p2), ("x[0]", "x[1]"): 0.0 - r[1] * pv * pv * p2, "x[1]": 0.0 - r[2]}
        const, feed = 3.0 * pv * p2 + r[1] * power(p2), {"M": pv, "N": p2}
    else:
        # a compiled model whose coefficients are polynomials of placeholders (what pyqubo compiles such expressions to)
        PP = pyqubo.core.PlaceholderProd
        co = lambda d: pyqubo.Coefficient(collections.defaultdict(float, d))  # noqa: E731
        q = {("x[0]", "x[0]"): co({PP({"M": 1.0}): r[0], PP({}): 2.0}), ("x[0]", "x[1]"): co({PP({"M": 2.0}): r[1]}), ("x[1]", "x[1]"): r[2]}
        e = pyqubo.Model(pyqubo.core.CompiledQubo(q, co({PP({"M": 1.0}): 3.0, PP({}): r[1]})),
                         {"x[0]": ("x", 0), "x[1]": ("x", 1)}, {})
        want = {"x[0]": 0.0 - (r[0] * pv + 2.0), ("x[0]", "x[1]"): 0.0 - r[1] * pv * pv, "x[1]": 0.0 - r[2]}
        const, feed = 3.0 * pv + r[1], {"M": pv}
    for i in range(2):
        m = LogicalModel(mtype="qubo")
        m.variables("x", shape=(2,))
        m.from_pyqubo(e)
        for _ in range(2):
            lin, quad, off = raw(m.to_physical(placeholder=dict(feed)))
            sx.check_all(poly_diff_checks(sx, "each-import", {**lin, **quad}, want) + [("each-constant", sx.eq(off, const))])


@clocked
def rejects(sx):
    m = LogicalModel(mtype="qubo")
    m.variables("x", shape=(2,))
    e, _ = attempt(m.from_pyqubo, sx.choice("bad", [None, 3, "x[0]", [1]]))
    sx.check("not-an-expression", isinstance(e, TypeError), repr(e))


@clocked
def replaced(sx):
    """a model that holds something already: the import replaces its interactions and its offset"""
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(2,))
    m.offset(sx.real("old", nonzero=True))
    if sx.choice("interactions", [False, True]):
        m.add_interaction(x[0], name="mine", coefficient=sx.real("c", nonzero=True), attributes={"k": 1})
    r = [sx.real(f"r{i}", nonzero=True) for i in range(2)]
    const = sx.choice("constant", [0, 0.0, None, "real"])
    y = pyqubo.Array.create("x", shape=(2,), vartype="BINARY")
    e = r[0] * y[0] + r[1] * y[0] * y[1]
    c = 0.0
    if const == "real":
        c = sx.real("c2")
    if const is not None:
        e = e + (c if const == "real" else const)
    m.from_pyqubo(e)
    m2 = LogicalModel(mtype="qubo")
    m2.variables("x", shape=(2,))
    m2.from_pyqubo(e)
    sx.check("offset-replaced", sx.And(sx.eq(m.get_offset(), c), sx.eq(m2.get_offset(), c)))
    want = {"x[0]": 0.0 - r[0], ("x[0]", "x[1]"): 0.0 - r[1]}
    sx.check_all(poly_diff_checks(sx, "import-energy", live_poly(m2), want))
    lin, quad, off = raw(m2.to_physical())
    sx.check_all(poly_diff_checks(sx, "physical-energy", {**lin, **quad}, want) + [("physical-constant", sx.eq(off, c))])


UNITS = [
    Unit("expressions", expressions, "10 expression forms of degree <= 2 over 3 variables of 6 array layouts (1-3 dims, two-digit indices, unusual names), compiled or not, arrays made by the model or by pyqubo; all real numbers in them",
         ["import-energy", "import-constant", "physical-energy", "physical-constant"]),
    Unit("twice", twice, "two imports of one expression or compiled model, coefficients with placeholders; all non-zero reals", ["each-import", "each-constant"]),
    Unit("rejects", rejects, "non-expressions", ["not-an-expression"]),
    Unit("replaced", replaced, "imports into a model with an offset (and interactions); constant zero, absent or any real; all non-zero reals", ["offset-replaced", "physical-constant"]),
]
