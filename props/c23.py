"""C23: the number-partitioning solver returns optimal partitions."""
import contextlib
import io
import itertools

from sawatabi.utils import solve_npp_with_dp

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import clocked

ASSUMPTIONS = ["the numbers are symbolic integers; where the code uses one as a table index or loop bound its value is case-split (the solver shows the cases complete)"]


def run(sx, n, hi, every, printing=(False,), order=None):
    nums = [sx.int(f"a{i}", lo=1, hi=hi) for i in range(n)]
    if order:
        for a, b in zip(nums, nums[1:]):
            sx.assume(a <= b if order == "up" else a >= b)
    given = list(nums)
    pr = sx.choice("print", printing)
    with contextlib.redirect_stdout(io.StringIO()):
        kw = {}
        if every:
            kw["enumerate_all"] = True
        if pr:
            kw["print_dp_table"] = True
        res = solve_npp_with_dp(given, **kw)
    sx.check("input-unchanged", len(given) == n and all(a is b for a, b in zip(given, nums)))
    sx.check("shape", isinstance(res, tuple) and len(res) == 3 and len(res[1]) == len(res[2]) and len(res[1]) >= 1, f"{res}")
    same, first, second = res
    total = 0
    for a in nums:
        total = total + a

    def diff(q):
        d = total
        for i in q:
            d = d - 2 * nums[i]
        return sx.If(d < 0, -d, d) if not isinstance(d, int) else abs(d)

    subsets = [q for r in range(n + 1) for q in itertools.combinations(range(n), r)]
    items = []
    for p, o in zip(first, second):
        p, o = [int(i) for i in p], [int(i) for i in o]
        items.append(("partition", sorted(p + o) == list(range(n)), f"{p} {o}"))
        d = diff(p)
        items += [("optimal", d <= diff(q), f"{p} vs {q}") for q in subsets]
        items.append(("says-equal", sx.eq(d, 0) if same else d > 0, f"{same}"))
    sx.check("flag", same is True or same is False)
    sx.check_all(items)
    if every:
        got = [tuple(sorted(int(i) for i in p)) for p in first]
        sx.check("each-once", len(got) == len(set(got)), f"{got}")
        best = diff(got[0])
        items = []
        for q in subsets:
            s = 0
            for i in q:
                s = s + 2 * nums[i]
            opt = sx.And(s <= total, sx.eq(diff(q), best))
            items.append(("all-listed", opt if q in got else sx.Not(opt), f"{q} in {got}"))
        sx.check_all(items)
    else:
        sx.check("one", len(first) == 1)


@clocked
def three(sx):
    run(sx, sx.choice("count", [1, 2, 3]), 6, sx.choice("all", [False, True]))


@clocked
def four(sx):
    run(sx, 4, 4, sx.choice("all", [False, True]))


@clocked
def pairs(sx):
    run(sx, 2, 12, sx.choice("all", [False, True]))


@clocked
def sorted5(sx):
    run(sx, 5, 4, sx.choice("all", [False, True]), order=sx.choice("sorted", ["up", "down"]))


@clocked
def printed(sx):
    run(sx, sx.choice("count", [0, 1, 2]), 4, sx.choice("all", [False, True]), printing=(True, False))


@clocked
def five(sx):
    run(sx, 5, 5, sx.choice("all", [False, True]))


@clocked
def four_big(sx):
    run(sx, 4, 8, sx.choice("all", [False, True]))


L = ["partition", "optimal", "says-equal", "each-once", "all-listed", "one", "input-unchanged"]


PATTERNS = {"ones": [1] * 9, "doubling": [1, 2, 4, 8, 16, 32], "mixed": [7, 3, 9, 4, 12, 6, 5, 8], "large": [101, 57, 89], "equal": [5, 5, 5, 5, 5, 5]}


@clocked
def with_pattern(sx):
    """a fixed list with two free numbers put into it"""
    pat = PATTERNS[sx.choice("pattern", list(PATTERNS))]
    at = sx.choice("at", ["front", "ends", "back"])
    every = sx.choice("all", [False, True])
    a, b = sx.int("a0", lo=1, hi=5), sx.int("b0", lo=1, hi=5)
    one_list(sx, {"front": [a, b, *pat], "ends": [a, *pat, b], "back": [*pat, a, b]}[at], every)


@clocked
def unbalanced(sx):
    """sums of a thousand and more, and one number larger than all others together"""
    pat = sx.choice("pattern", [[400], [1003], [3, 700], [333, 334, 333], [500, 500], [997, 2, 400, 300, 295], [150, 350, 550, 1]])
    a = sx.int("a0", lo=1, hi=4)
    nums = [a, *pat] if sx.choice("at", ["front", "back"]) == "front" else [*pat, a]
    if sx.choice("second", [False, True]):
        nums.append(sx.int("b0", lo=1, hi=3))
    one_list(sx, nums, sx.choice("all", [False, True]))


def one_list(sx, nums, every):
    given = list(nums)
    res = solve_npp_with_dp(given, enumerate_all=True) if every else solve_npp_with_dp(given)
    sx.check("input-unchanged", len(given) == len(nums) and all(p is q for p, q in zip(given, nums)))
    same, first, second = res
    n = len(nums)
    vals = [int(v) for v in nums]  # the values are fixed on this path
    total = sum(vals)
    sums = {}
    for r in range(1 << n):
        s = sum(vals[i] for i in range(n) if r >> i & 1)
        sums.setdefault(s, set()).add(r)
    best = min(abs(total - 2 * s) for s in sums)
    got = []
    items = [("shape", len(first) == len(second) >= 1)]
    for p, o in zip(first, second):
        p, o = [int(i) for i in p], [int(i) for i in o]
        items.append(("partition", sorted(p + o) == list(range(n)), f"{p} {o}"))
        items.append(("optimal", abs(total - 2 * sum(vals[i] for i in p)) == best, f"{p} of {vals}"))
        got.append(sum(1 << i for i in p))
    items.append(("says-equal", same == (best == 0)))
    if every:
        items.append(("each-once", len(got) == len(set(got))))
        items.append(("all-listed", set(got) == {r for s, q in sums.items() if 2 * s <= total and total - 2 * s == best for r in q}, f"{vals}"))
    else:
        items.append(("one", len(got) == 1))
    sx.check_all(items)


UNITS = [
    Unit("three", three, "1-3 numbers in 1..6", L),
    Unit("four", four, "4 numbers in 1..4", L),
    Unit("pairs", pairs, "2 numbers in 1..12", L),
    Unit("sorted5", sorted5, "5 sorted numbers in 1..4", L),
    Unit("printed", printed, "0-2 numbers in 1..4, table printed or not", L),
    Unit("five", five, "5 numbers in 1..5", L, tier="thorough"),
    Unit("four-big", four_big, "4 numbers in 1..8", L, tier="thorough"),
    Unit("with-pattern", with_pattern, "5 lists of up to 9 fixed numbers with two free ones in 1..5 at the front, the ends or the back", L),
    Unit("unbalanced", unbalanced, "7 lists with sums up to 2000 (one number larger than the rest, equal halves) with one or two free numbers in 1..4", L),
]
