"""Stand-ins and references for the annealing solver's checks."""
import contextlib
import itertools
import math

import numpy as np

from .lib import LogicalModel, patched, raw  # noqa: F401
from .sym import is_sym, sym_exp


class Rng:
    """Random generator whose outcomes are inputs of the check (symbols, or the values of a counterexample).

    key names the stream: the same key gives the same stream from its start."""

    def __init__(self, sx, key, common=None, plan=None, draws=None):
        self.sx, self.key, self.common, self.plan, self.draws = sx, key, common, plan, draws
        self.ni = self.nr = self.np_ = 0
        self.orders = []

    def _arr(self, size, f):
        if size is None:
            return f()
        shape = (int(size),) if not isinstance(size, tuple) else tuple(int(s) for s in size)
        n = 1
        for s in shape:
            n *= s
        vals = [f() for _ in range(n)]
        if any(is_sym(v) for v in vals):
            a = np.empty(n, dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
        else:
            a = np.array(vals) if vals else np.array([], dtype=float)
        return a.reshape(shape)

    def _int(self, lo, hi):
        self.ni += 1
        if self.plan is not None:
            return lo + (self.plan(self.ni, self.key) if self.plan.__code__.co_argcount == 2 else self.plan(self.ni))
        return self.sx.int(f"{self.key}i{self.ni}", lo=lo, hi=hi - 1)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        return self._arr(size, lambda: self._int(low, high))

    def _real(self):
        if self.common is not None:
            return self.common
        self.nr += 1
        if self.draws is not None:
            return self.draws(self.nr)
        v = self.sx.real(f"{self.key}u{self.nr}", lo=2.0**-53)
        self.sx.assume(v < 1)
        return v

    def random(self, size=None, dtype=None, out=None):
        return self._arr(size, self._real)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._arr(size, lambda: low + (high - low) * self._real())

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            items = list(range(int(x)))
        else:
            items = list(x)
        self.np_ += 1
        n = len(items)
        if n <= 5:
            perms = list(itertools.permutations(range(n)))
        else:  # every order of that many is out of reach: one of these, a different one each time
            shift = 5 * self.np_ % n
            perms = [tuple((i + shift) % n for i in range(n))[:: -1 if self.np_ % 2 else 1]]
        p = self.sx.choice(f"{self.key}p{self.np_}", perms)
        self.orders.append(p)
        return np.array([items[i] for i in p], dtype=int)

    def shuffle(self, x, axis=0):
        r = self.permutation(list(x))
        for i, v in enumerate(r):
            x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        items = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        if size is not None and not replace:
            r = self.permutation(len(items))[: int(size)]
            return np.array([items[i] for i in r])
        return self._arr(size, lambda: items[int(self._int(0, len(items)))])


class Rngs:
    """numpy.random.default_rng: one stream per distinct seed, a fresh one when there is no seed"""

    def __init__(self, sx, common=None, plan=None, draws=None):
        self.sx, self.common, self.plan, self.draws = sx, common, plan, draws
        self.seeds = []
        self.made = []

    def default_rng(self, seed=None):
        if seed is None:
            key = f"n{len(self.seeds)}"
        elif is_sym(seed):
            key = "s"
        else:
            key = f"s{seed}"
        self.seeds.append(seed)
        r = Rng(self.sx, key, self.common, self.plan, self.draws)
        self.made.append(r)
        return r


@contextlib.contextmanager
def randomness(sx, common=None, plan=None, draws=None):
    """common: one symbol for every acceptance draw; plan: the k-th integer drawn (of a stream), draws: the k-th acceptance draw, when not symbolic"""
    r = Rngs(sx, common, plan, draws)
    with patched(np.random, default_rng=r.default_rng):
        yield r


def exp(x):
    return sym_exp(x) if is_sym(x) else math.exp(x)


def energy(p, sample):
    """the model's energy of a sample, from the definition"""
    lin, quad, off = raw(p)
    e = off
    for k, v in lin.items():
        e = e - v * int(sample[k])
    for (a, b), v in quad.items():
        e = e - v * (int(sample[a]) * int(sample[b]))
    return e


def rows(ss):
    """sample set -> list of (sample dict, energy, occurrences)"""
    out = []
    labels = list(ss.variables)
    rec = ss.record
    for i in range(len(rec)):
        out.append(({v: int(rec.sample[i][j]) for j, v in enumerate(labels)}, rec.energy[i], int(rec.num_occurrences[i])))
    return out


def plant(sx, mtype, n, near):
    """n variables in two arrays, fields that dominate the couplings (each flip's direction is known, its size is not)"""
    m = LogicalModel(mtype=mtype)
    x = m.variables("x", shape=(n - 2,))
    a = m.variables("ab", shape=(1, 2))
    vs = [a[0, 1]] + [x[(5 * i + 2) % (n - 2)] for i in range(n - 2)] + [a[0, 0]]
    for i, v in enumerate(vs):
        h = sx.real(f"h{i}", lo=16, hi=17)
        m.add_interaction(v, coefficient=h if i % 3 else -h)
        if i % 5 == 1:
            m.add_interaction(v, name=f"more {i}", coefficient=sx.real(f"g{i}", lo=0.25, hi=1), scale=0.5)
    for d in near:
        for i in range(n):
            m.add_interaction((vs[i], vs[(i + d) % n]), coefficient=sx.real(f"J{d}-{i}", lo=0.125, hi=1) * (1 if i % 3 == 1 else -1))
    m.offset(sx.real("off"))
    return m.to_physical()
