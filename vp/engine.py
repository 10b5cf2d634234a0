"""Path-exploring symbolic executor and the harness-facing context objects.

SymCtx runs a harness over symbolic values; ConcreteCtx runs the *same*
harness over the concrete values of a solver model against the unmodified
code (replay / validation).
"""
import math
from time import perf_counter  # bound here: checks replace the clock of the code under test
import warnings
from fractions import Fraction

from . import sym
from .sym import Found, PathAbort, Sym, SymBool, SymInt, SymReal, as_bool_term, is_sym, realval, z3


class Stats(dict):
    KEYS = ("paths", "decisions", "queries", "sat", "unsat", "unknown", "checks", "check_queries",
            "realized", "truncated", "assume_dead", "inconclusive", "trivial_checks")

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self["solver_s"] = 0.0

    def merge(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


class Budget(BaseException):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, timeout_ms=10000, seed=0, realize_int_max=64, realize_float_max=2):
        self.timeout_ms = timeout_ms
        self.seed = seed
        self.realize_int_max = realize_int_max
        self.realize_float_max = realize_float_max
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.stack = []  # asserted events (z3 exprs), one solver scope each
        self.stats = Stats()
        self.notes = {}
        self.reached = {}

    # ------------------------------------------------------------ path setup
    def start(self, prefix, model=None):
        self.prefix = prefix
        self.pos = 0  # decision position
        self.trace = []  # decisions taken
        self.events = 0
        self.alts = []  # [(prefix, model)]
        self.vars = {}  # name -> (kind, z3 var)
        self.choices = {}
        self.model = None
        self.prefix_model = model
        self.exp_apps = []
        self.exp_pairs = 16  # with how many earlier applications a new one is compared
        self.exp_fn = None
        self.fresh = 0
        self.observed = []
        self.pathlabels = []
        self.dead = False

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    # ------------------------------------------------------------ assertions
    def _assert(self, e):
        i = self.events
        self.events += 1
        if i < len(self.stack) and self.stack[i].eq(e):
            return
        if i < len(self.stack):
            self.solver.pop(len(self.stack) - i)
            del self.stack[i:]
        self.solver.push()
        self.solver.add(e)
        self.stack.append(e)

    def _sync(self):
        if len(self.stack) > self.events:
            self.solver.pop(len(self.stack) - self.events)
            del self.stack[self.events:]

    def _check(self, *assumptions):
        self._sync()
        t = perf_counter()
        r = self.solver.check(*assumptions)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            # one-shot non-linear solver on the same formula
            s = z3.Tactic("qfnra-nlsat").solver() if not self.exp_apps else z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(*self.stack[: self.events])
            s.add(*assumptions)
            try:
                r = s.check()
                if r == z3.sat:
                    m = s.model()
            except z3.Z3Exception:
                r = z3.unknown
        self.stats["solver_s"] += perf_counter() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r, m

    def _under(self, m, e):
        try:
            v = m.eval(e, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    # ------------------------------------------------------------ forking
    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        ne = z3.Not(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self._assert(e if d else ne)
            self._advance(d)
            return d
        self.stats["decisions"] += 1
        can_t = can_f = None
        mt = mf = None
        if self.model is not None:
            v = self._under(self.model, e)
            if v is True:
                can_t, mt = True, self.model
            elif v is False:
                can_f, mf = True, self.model
        if can_t is None:
            r, mt = self._check(e)
            can_t = r != z3.unsat
        if can_f is None:
            if not can_t:
                can_f = True  # path condition is satisfiable by invariant
            else:
                r, mf = self._check(ne)
                can_f = r != z3.unsat
        if can_t and can_f:
            self.alts.append((self.trace + [False], mf))
        d = bool(can_t)
        self._extend(d)
        self._assert(e if d else ne)
        self.model = mt if d else mf
        return d

    def assume(self, c):
        if not isinstance(c, Sym) and not z3.is_expr(c):
            if not c:
                self.stats["assume_dead"] += 1
                raise PathAbort("assume")
            return
        e = z3.simplify(as_bool_term(c))
        if z3.is_true(e):
            return
        self._assert(e)
        if self.pos < len(self.prefix):
            return  # already known feasible: the prefix was found feasible after it
        if self.model is not None and self._under(self.model, e) is True:
            return
        r, m = self._check()
        if r == z3.unsat:
            self.stats["assume_dead"] += 1
            raise PathAbort("assume")
        self.model = m

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        v = z3.Real(name)
        self.vars[name] = ("r", v)
        s = SymReal(v)
        cs = []
        if lo is not None:
            cs.append(v >= realval(lo))
        if hi is not None:
            cs.append(v <= realval(hi))
        if nonzero:
            cs.append(v != 0)
        if positive:
            cs.append(v > 0)
        if cs:
            self.assume(SymBool(z3.And(*cs) if len(cs) > 1 else cs[0]))
        return s

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.vars[name] = ("i", v)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.assume(SymBool(z3.And(*cs) if len(cs) > 1 else cs[0]))
        return SymInt(v)

    def flag(self, name):
        """A symbolic boolean (forks only where the code looks at it)."""
        v = z3.Bool(name)
        self.vars[name] = ("b", v)
        return SymBool(v)

    def choice(self, name, options):
        """A configuration choice: every option is explored."""
        options = list(options)
        if name in self.choices:  # one choice per name and path, as on replay
            return options[self.choices[name]]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self._advance(d)
        else:
            d = 0
            self.stats["decisions"] += 1
            for j in range(len(options) - 1, 0, -1):
                self.alts.append((self.trace + [j], self.model))
            self._extend(0)
        self.choices[name] = d
        return options[d]

    def _advance(self, d):
        self.pos += 1
        self.trace.append(d)
        if self.pos == len(self.prefix):
            self.model = self.prefix_model

    def _extend(self, d):
        self.prefix = self.prefix + [d]
        self.pos += 1
        self.trace.append(d)

    # ------------------------------------------------------------ realisation
    def _realize(self, e, limit):
        """Case-split on the concrete value of e: each feasible value becomes a path."""
        isint = e.is_int()

        def mk(t):
            return z3.IntVal(t[0]) if isint else realval(Fraction(t[0], t[1]))

        for _ in range(limit):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                v = mk(d[1])
                self._assert(e == v if d[0] == "=" else e != v)
                self._advance(d)
                if d[0] == "=":
                    return Fraction(*d[1])
                continue
            if self.model is None:
                r, self.model = self._check()
                if r != z3.sat:
                    raise PathAbort("unknown")
            mv = self.model.eval(e, model_completion=True)
            if z3.is_algebraic_value(mv):
                mv = mv.approx(20)
            f = Fraction(mv.as_long()) if isint else Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            t = (f.numerator, f.denominator)
            v = mk(t)
            r, m2 = self._check(e != v)
            if r != z3.unsat:
                self.alts.append((self.trace + [("!", t)], m2))
            self._assert(e == v)
            self._extend(("=", t))
            return f
        self.stats["truncated"] += 1
        raise PathAbort("truncated")

    def realize_int(self, s):
        if not is_sym(s):
            return int(s)
        e = z3.simplify(s.e if not isinstance(s, SymBool) else s._num().e)
        if z3.is_int_value(e):
            return e.as_long()
        self.stats["realized"] += 1
        return int(self._realize(e, self.realize_int_max))

    def realize_float(self, s):
        if not is_sym(s):
            return float(s)
        e = s._real() if not isinstance(s, SymBool) else z3.ToReal(s._num().e)
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        self.stats["realized"] += 1
        self.note("realize_float")
        return float(self._realize(e, self.realize_float_max))

    # ------------------------------------------------------------ transcendental
    def exp(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return math.exp(float(Fraction(e.numerator_as_long(), e.denominator_as_long())))
        if self.exp_fn is None:
            self.exp_fn = z3.Function("exp", z3.RealSort(), z3.RealSort())
        y = self.exp_fn(e)
        for a, _ in self.exp_apps:
            if a.eq(e):
                return SymReal(y)
        # true facts about exp (an over-approximation of the function)
        ax = [y > 0, z3.Implies(e < 0, y < 1), z3.Implies(e > 0, y > 1), z3.Implies(e == 0, y == 1), y >= 1 + e, z3.Implies(e <= z3.Q(-1, 8), y < z3.Q(9, 10)), z3.Implies(e <= -1, y < z3.Q(37, 100)), z3.Implies(e <= -2, y < z3.Q(7, 50))]
        for a, ya in self.exp_apps[len(self.exp_apps) - self.exp_pairs if len(self.exp_apps) > self.exp_pairs else 0 :]:
            ax.append(z3.Implies(a < e, ya < y))
            ax.append(z3.Implies(a > e, ya > y))
            ax.append(z3.Implies(a == e, ya == y))
        self.exp_apps.append((e, y))
        self.assume(SymBool(z3.And(*ax)))
        return SymReal(y)

    def sqrt(self, e):
        self.fresh += 1
        v = z3.Real(f"sqrt!{self.fresh}")
        self.assume(SymBool(z3.And(v >= 0, v * v == e)))
        return SymReal(v)

    # ------------------------------------------------------------ properties
    def eq(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not isinstance(a, Sym):
                a, b = b, a
            if isinstance(a, SymBool):
                r = a == b
            else:
                r = a._cmp(b, lambda p, q: p == q)
            if r is NotImplemented:
                return False
            return r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return close(a, b)
        return a == b

    def check(self, label, cond, detail=""):
        self.check_all([(label, cond, detail)])

    def check_all(self, items):
        terms = []
        for it in items:
            label, cond = it[0], it[1]
            self.stats["checks"] += 1
            self.pathlabels.append(label)
            if not isinstance(cond, Sym) and not z3.is_expr(cond):
                if not cond:
                    raise Found(label, it[2] if len(it) > 2 else "")
                self.stats["trivial_checks"] += 1
                continue
            e = as_bool_term(cond)
            if z3.is_true(e):
                self.stats["trivial_checks"] += 1
                continue
            terms.append((label, e, it[2] if len(it) > 2 else ""))
        if not terms:
            return
        self.stats["check_queries"] += 1
        neg = z3.simplify(z3.Not(z3.And(*[t[1] for t in terms])) if len(terms) > 1 else z3.Not(terms[0][1]), som=True)
        r, m = self._check(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # separately
            for label, e, _ in terms:
                r, m = self._check(z3.Not(e))
                if r == z3.unknown:
                    self.stats["inconclusive"] += 1
                    self.note("check-unknown:" + label)
                elif r == z3.sat:
                    self.bad = z3.Not(e)
                    raise Found(label, _)
            return
        for label, e, det in terms:
            v = self._under(m, e)
            if v is not True:
                self.bad = z3.Not(e)
                raise Found(label, det)
        self.bad = neg
        raise Found(terms[0][0], "")

    def known(self, fid, label, correct, known_wrong):
        """A listed defect: the result is right, or wrong in exactly the listed way."""
        self.check(label, self.Or(correct, known_wrong))
        c = self.Not(correct)
        if is_sym(c):
            e = z3.simplify(c.e, som=True)
            if z3.is_false(e):
                return
            r, _ = self._check(e)
            if r == z3.sat:
                self.known_hits.append(fid)
        elif c:
            self.known_hits.append(fid)

    def reach(self, label):
        self.pathlabels.append("reach:" + label)

    def observe(self, name, value):
        self.observed.append((name, value))

    # helpers usable in both modes
    @staticmethod
    def And(*cs):
        cs = [c for c in cs if not (c is True)]
        if any((not is_sym(c)) and (not c) for c in cs):
            return False
        cs = [as_bool_term(c) for c in cs if is_sym(c)]
        return SymBool(z3.And(*cs)) if cs else True

    @staticmethod
    def Or(*cs):
        if any((not is_sym(c)) and c for c in cs):
            return True
        cs = [as_bool_term(c) for c in cs if is_sym(c)]
        return SymBool(z3.Or(*cs)) if cs else False

    @staticmethod
    def Not(c):
        return SymBool(z3.Not(as_bool_term(c))) if is_sym(c) else (not c)

    @staticmethod
    def If(c, a, b):
        return sym.ite(c, a, b)

    # ------------------------------------------------------------ models
    def concretize(self, extra=(), visible=None, want_nice=True):
        """Find a model of the path (plus `extra`), as plain assignments; exp is
        pinned to the true function at the chosen arguments.  Yields
        candidate assignments, most convenient first."""
        base = list(self.stack[: self.events])
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*base)
        s.add(*extra)

        def ck(*a):
            t = perf_counter()
            r = s.check(*a)
            self.stats["queries"] += 1
            self.stats["solver_s"] += perf_counter() - t
            self.stats[str(r)] += 1
            if r == z3.unknown and not self.exp_apps:
                s2 = z3.Tactic("qfnra-nlsat").solver()
                s2.set("timeout", self.timeout_ms)
                s2.add(*s.assertions())
                s2.add(*a)
                r = s2.check()
                return r, (s2.model() if r == z3.sat else None)
            return r, (s.model() if r == z3.sat else None)

        r, m = ck()
        if r != z3.sat:
            return None
        for v in visible or ():
            r2, m2 = ck(v)
            if r2 == z3.sat:
                s.add(v)
                m = m2
                break

        def val(m, e):
            v = m.eval(e, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            if z3.is_int_value(v):
                return Fraction(v.as_long())
            return Fraction(v.numerator_as_long(), v.denominator_as_long())

        if want_nice:
            small = {Fraction(1), Fraction(2), Fraction(-1), Fraction(3), Fraction(1, 2)}
            used = set()
            for name, (k, v) in self.vars.items():
                if k == "b":
                    continue
                cur = val(m, v)
                if k == "i":
                    s.add(v == int(cur))
                    continue
                cands = []
                rd = Fraction(math.floor(cur * 4 + Fraction(1, 2)), 4)
                for c in (rd, Fraction(round(cur)), *sorted(small)):
                    if c not in cands and c not in used:
                        cands.append(c)
                rd2 = Fraction(math.floor(cur * 2**20 + Fraction(1, 2)), 2**20)
                rd3 = dyadic_near(cur, 24)
                for c in (rd2, rd3):
                    if c not in cands:
                        cands.append(c)
                if cur in small and cur in cands:
                    cands.remove(cur)
                    cands.insert(0, cur)
                ok = False
                for c in cands[:7]:
                    if self._under(m, v == realval(c)) is True:
                        s.add(v == realval(c))
                        ok = True
                    else:
                        r2, m2 = ck(v == realval(c))
                        if r2 == z3.sat:
                            s.add(v == realval(c))
                            m = m2
                            ok = True
                    if ok:
                        used.add(c)
                        break
                if not ok:
                    f = frac_float(cur)
                    r2, m2 = ck(v == realval(f))
                    if r2 == z3.sat:
                        s.add(v == realval(f))
                        m = m2
        # pin exp to the real function
        for a, y in self.exp_apps:
            r2, m2 = ck()
            if r2 != z3.sat:
                return None
            m = m2
            c = val(m, a)
            tried = []
            done = False
            for c in (frac_float(c), c, dyadic_near(c, 6), Fraction(-1), Fraction(-1, 2), Fraction(1)):
                if c in tried:
                    continue
                tried.append(c)
                try:
                    y0 = Fraction(math.exp(float(c)))
                except OverflowError:
                    continue
                if y0 == 0:  # underflow: a positive value below every float, still monotone
                    y0 = Fraction(1, 10**400) / (1 + abs(c))
                pin = z3.And(a == realval(c), y == realval(y0))
                r3, m3 = ck(pin)
                if r3 == z3.sat:
                    s.add(pin)
                    m = m3
                    done = True
                    break
            if not done:
                return None
        asg = {}
        for name, (k, v) in self.vars.items():
            mv = m.eval(v, model_completion=True)
            if k == "b":
                asg[name] = bool(z3.is_true(mv))
            elif k == "i":
                asg[name] = mv.as_long()
            else:
                if z3.is_algebraic_value(mv):
                    mv = mv.approx(30)
                f = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
                asg[name] = float(f)
        return {"vals": asg, "choices": dict(self.choices)}, m

    def observed_under(self, m):
        out = []
        for name, v in self.observed:
            out.append((name, obs_value(v, m)))
        return out


def dyadic_near(f, bits):
    """a short dyadic rational close to f (keeps sign and magnitude)"""
    if f == 0:
        return Fraction(0)
    sgn = -1 if f < 0 else 1
    f = abs(f)
    e = math.frexp(float(f))[1] if float(f) != 0 else -1000
    sc = Fraction(2) ** (bits - e)
    return sgn * Fraction(math.floor(f * sc + Fraction(1, 2))) / sc


def frac_float(f):
    return Fraction(float(f))


def close(a, b, rel=1e-9, ab=1e-12):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), ab)


def obs_value(v, m=None):
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, Sym):
        r = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        if z3.is_int_value(r):
            return r.as_long()
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if isinstance(v, dict):
        return {"__d__": sorted(([repr(k), obs_value(x, m)] for k, x in v.items()), key=lambda p: p[0])}
    if isinstance(v, (list, tuple)):
        return [obs_value(x, m) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(repr(x) for x in v)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if hasattr(v, "item") and getattr(v, "shape", None) == ():
        v = v.item()
        return obs_value(v, m)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return "nan" if v != v else v
    return repr(v)


def obs_equal(a, b, rel=1e-6, ab=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if not isinstance(a, (list, dict, str)) and not isinstance(b, (list, dict, str)) else a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(a, b, rel, ab)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):  # terms that cancel exactly in one of the two and up to rounding in the other
            a, b = ([x for x in s if not (isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], float) and abs(x[1]) < 1e-12)] for s in (a, b))
        return len(a) == len(b) and all(obs_equal(x, y, rel, ab) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_equal(a[k], b[k], rel, ab) for k in a)
    return a == b


class ConcreteCtx:
    """The same harness, concrete values, unmodified code."""

    symbolic = False

    def __init__(self, asg, strict=True):
        self.vals = asg["vals"]
        self.choices = asg["choices"]
        self.strict = strict
        self.observed = []
        self.pathlabels = []
        self.log = []

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        v = float(self.vals.get(name, 1.0 if lo is None else lo))
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nonzero and v == 0) or (positive and v <= 0):
            raise PathAbort("assume")
        return v

    def int(self, name, lo=None, hi=None):
        v = int(self.vals.get(name, lo if lo is not None else 1))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathAbort("assume")
        return v

    def flag(self, name):
        return bool(self.vals.get(name, False))

    def choice(self, name, options):
        return list(options)[self.choices.get(name, 0)]

    def assume(self, c):
        if not c:
            raise PathAbort("assume")

    def eq(self, a, b):
        if isinstance(a, Fraction):
            a = float(a)
        if isinstance(b, Fraction):
            b = float(b)
        if is_num(a) and is_num(b):
            if self.strict:
                return close(a, b, 1e-9, 0.0)
            return close(a, b, 1e-6, 1e-6)
        r = a == b
        return bool(r) if r is not NotImplemented else False

    def check(self, label, cond, detail=""):
        self.pathlabels.append(label)
        if not cond:
            raise Found(label, detail)

    def check_all(self, items):
        for it in items:
            self.check(*it)

    def reach(self, label):
        self.pathlabels.append("reach:" + label)

    def observe(self, name, value):
        self.observed.append((name, value))

    def note(self, what):
        pass

    def known(self, fid, label, correct, known_wrong):
        self.check(label, bool(correct) or bool(known_wrong))

    @staticmethod
    def And(*cs):
        return all(bool(c) for c in cs)

    @staticmethod
    def Or(*cs):
        return any(bool(c) for c in cs)

    @staticmethod
    def Not(c):
        return not c

    @staticmethod
    def If(c, a, b):
        return a if c else b


def is_num(x):
    return isinstance(x, (int, float)) or (hasattr(x, "item") and getattr(x, "shape", None) == ())


class PathResult:
    __slots__ = ("status", "label", "detail", "bad", "exc")

    def __init__(self):
        self.status = "ok"
        self.label = self.detail = self.exc = None
        self.bad = None


def run_sym_path(ctx, fn, prefix, model):
    """Run one path.  Returns PathResult; alternatives are in ctx.alts."""
    import traceback

    ctx.start(list(prefix), model)
    ctx.bad = None
    ctx.texts, ctx.texts_on = [], True
    sym.set_engine(ctx)
    res = PathResult()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                fn(ctx)
            finally:
                ctx.texts_on = False
    except PathAbort as a:
        res.status = "abort:" + a.why
    except Found as f:
        res.status, res.label, res.detail, res.bad = "found", f.label, f.detail, ctx.bad
    except Exception as e:  # noqa: BLE001  the code under test raised
        res.status = "found"
        res.label = "unexpected-exception:" + type(e).__name__
        res.detail = "".join(traceback.format_exception_only(type(e), e)).strip()[:300]
        res.exc = traceback.format_exc(limit=-6)
    ctx.stats["paths"] += 1
    return res


def run_concrete(fn, asg, strict):
    import traceback

    ctx = ConcreteCtx(asg, strict)
    out = {"status": "ok", "label": None, "detail": None}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    except PathAbort as a:
        out["status"] = "abort"
        out["detail"] = a.why
    except Found as f:
        out["status"], out["label"], out["detail"] = "found", f.label, str(f.detail)[:1000]
    except Exception as e:  # noqa: BLE001
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        # a private attribute the harness reads is gone: the harness is out of date, the code is not shown wrong
        stale = isinstance(e, AttributeError) and "/sawatabi/" not in tb.tb_frame.f_code.co_filename and str(e.name or "").startswith("_")
        out["status"] = "abort" if stale else "found"
        out["label"] = "unexpected-exception:" + type(e).__name__
        out["detail"] = "".join(traceback.format_exception_only(type(e), e)).strip()[:300]
        out["trace"] = traceback.format_exc(limit=-6)
    out["observed"] = [[n, obs_value(v)] for n, v in ctx.observed]
    out["labels"] = ctx.pathlabels
    return out
