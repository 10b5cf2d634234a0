"""Stand-ins for Beam's runtime: event times, state cells and the calling of DoFns.

DoFns are called as Beam calls them: parameters are recognised by their
default (timestamp, state spec), everything else is passed through."""
import copy
import inspect

import apache_beam as beam
from apache_beam.transforms import userstate
from apache_beam.utils.timestamp import Timestamp

from .sym import SymInt, SymReal, is_sym, sym_float, z3


class Stamp:
    """what to_utc_datetime() gives for a symbolic event time: an opaque, distinct text"""

    def __init__(self, ts):
        self.ts = ts

    def __str__(self):
        return f"<utc {self.ts.tag}>"

    def __format__(self, spec):
        return str(self)

    __repr__ = __str__

    def isoformat(self, *a, **k):
        return str(self)


class Ts:
    """beam's Timestamp over a symbolic number of seconds"""

    n = 0

    def __init__(self, v, tag):
        self.v = v
        self.tag = tag

    def _vp_sym_(self):
        return self.v if isinstance(self.v, SymReal) else sym_float(self.v)

    def __float__(self):
        return float(self.v)

    def __int__(self):
        return int(self.v)

    @property
    def micros(self):
        return self.v * 1000000

    def seconds(self):
        return self.v

    def to_utc_datetime(self, *a, **k):
        return Stamp(self)

    def _o(self, o):
        return o.v if isinstance(o, Ts) else o

    def __lt__(self, o):
        return self.v < self._o(o)

    def __le__(self, o):
        return self.v <= self._o(o)

    def __gt__(self, o):
        return self.v > self._o(o)

    def __ge__(self, o):
        return self.v >= self._o(o)

    def __eq__(self, o):
        return self.v == self._o(o)

    def __ne__(self, o):
        return self.v != self._o(o)

    def __hash__(self):
        return 5

    def __sub__(self, o):
        return self.v - self._o(o)

    def __add__(self, o):
        return self.v + self._o(o)

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return f"Ts({self.tag})"

    __repr__ = __str__


def ts(sx, name, lo=None, hi=None):
    """an event time (whole seconds): symbolic, or Beam's own Timestamp on replay"""
    v = sx.int(name, lo=-(10**9) if lo is None else lo, hi=10**9 if hi is None else hi)
    return Ts(v, name) if is_sym(v) else Timestamp(v)


def tsq(sx, name, lo, hi):
    """an event time in quarter seconds"""
    v = sx.int(name, lo=4 * lo, hi=4 * hi)
    return Ts(sym_float(v) / 4, name) if is_sym(v) else Timestamp(v / 4)


def seconds(t):
    """event time as the number the elements carry"""
    return t._vp_sym_() if isinstance(t, Ts) else float(t)


class Bag:
    def __init__(self, share=True):
        self.items = []
        self.share = share

    def read(self):
        return (v if self.share else copy.deepcopy(v) for v in list(self.items))

    def add(self, v):
        self.items.append(v if self.share else copy.deepcopy(v))

    def clear(self):
        self.items = []

    def write(self, v):
        self.items = [v if self.share else copy.deepcopy(v)]


class Cell(Bag):
    """ReadModifyWrite state"""

    def read(self):
        return self.items[-1] if self.items else None


class Combining(Bag):
    def __init__(self, fn, share=True):
        super().__init__(share)
        self.fn = fn

    def read(self):
        f = self.fn
        acc = f.create_accumulator()
        for v in self.items:
            acc = f.add_input(acc, v)
        return f.extract_output(acc)


def make_state(spec, share=True):
    if isinstance(spec, userstate.CombiningValueStateSpec):
        return Combining(spec.combine_fn, share)
    if isinstance(spec, userstate.ReadModifyWriteStateSpec):
        return Cell(share)
    if isinstance(spec, (userstate.BagStateSpec, userstate.SetStateSpec)):
        return Bag(share)
    raise NotImplementedError(f"state {spec!r}")


def _signature(dofn):
    """what Beam binds its parameters by: a mapped function's own, else process()"""
    try:
        f = dofn._process_argspec_fn()
        if f != dofn.process:
            sig = inspect.signature(f)
            if any(isinstance(p.default, beam.transforms.core._DoFnParam) for p in sig.parameters.values()):
                return sig
    except (AttributeError, TypeError, ValueError):
        pass
    return inspect.signature(dofn.process)


class Call:
    """a DoFn being called element by element, with its state"""

    def __init__(self, dofn, args=(), kwargs=None, share=True):
        self.dofn, self.args, self.kwargs, self.share = dofn, tuple(args), dict(kwargs or {}), share
        self.states = {}
        for name in ("setup", "start_bundle"):
            f = getattr(dofn, name, None)
            if f is not None and type(dofn).__dict__.get(name):
                f()

    def __call__(self, element, timestamp, window=None):
        sig = _signature(self.dofn)
        kw, pos = {}, list(self.args)
        params = list(sig.parameters.values())
        out = []
        first = True
        for p in params:
            if first:
                first = False
                continue
            d = p.default
            if p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
                continue
            if isinstance(d, beam.DoFn.StateParam if isinstance(beam.DoFn.StateParam, type) else type(d)) and hasattr(d, "state_spec"):
                s = d.state_spec
                if s.name not in self.states:
                    self.states[s.name] = make_state(s, self.share)
                kw[p.name] = self.states[s.name]
            elif d is beam.DoFn.TimestampParam:
                kw[p.name] = timestamp
            elif d is beam.DoFn.WindowParam:
                kw[p.name] = window
            elif d is beam.DoFn.KeyParam:
                kw[p.name] = element[0]
            elif p.name in self.kwargs:
                kw[p.name] = self.kwargs[p.name]
            elif pos and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
                kw[p.name] = pos.pop(0)
        extra = {k: v for k, v in self.kwargs.items() if k not in kw}
        if extra and any(p.kind == p.VAR_KEYWORD for p in params):
            kw.update(extra)
            extra = {}
        if extra:
            raise TypeError(f"unexpected arguments {sorted(extra)}")
        va = [p for p in params if p.kind == p.VAR_POSITIONAL]
        if va and pos:
            r = self.dofn.process(element, *pos)
        else:
            r = self.dofn.process(element, **kw)
        if r is not None:
            out.extend(r)
        return out


# ------------------------------------------------------------------ pipelines
class Unsupported(Exception):
    pass


def leaves(p):
    """the pipeline's primitive steps, in order (this code base builds linear pipelines)"""
    out = []

    def walk(node):
        t = node.transform
        if isinstance(t, beam.WindowInto) or isinstance(t, beam.ParDo) or isinstance(t, beam.GroupByKey) or not node.parts:
            out.append(node)
            return
        for c in node.parts:
            walk(c)

    root = p._root_transform() if hasattr(p, "_root_transform") else p.transforms_stack[0]
    for c in root.parts:
        walk(c)
    return out


class Row:
    """a value with event time and window"""

    def __init__(self, value, ts, window=None):
        self.value, self.ts, self.window = value, ts, window


def _emit(outs, row):
    r = []
    for o in outs:
        if isinstance(o, beam.window.TimestampedValue):
            r.append(Row(o.value, o.timestamp, row.window))
        elif type(o).__name__ == "WindowedValue":
            raise Unsupported("WindowedValue")
        else:
            r.append(Row(o, row.ts, row.window))
    return r


class Chain:
    """consecutive element-wise steps of a pipeline, with their state, fed row by row"""

    def __init__(self, nodes, share=True, subst=None):
        self.calls = []
        for n in nodes:
            t = n.transform
            if isinstance(t, beam.WindowInto) or not isinstance(t, beam.ParDo):
                raise Unsupported(f"{n.full_label}: {type(t).__name__}")
            fn = t.fn
            if subst:
                fn = subst(fn)
            self.calls.append(Call(fn, t.args, t.kwargs, share))

    def feed(self, row, k=0):
        """everything the last step emits for this row"""
        rows = [row]
        for c in self.calls[k:]:
            nxt = []
            for r in rows:
                nxt.extend(_emit(c(r.value, r.ts, r.window), r))
            rows = nxt
        return rows

    def feed_step(self, row):
        """as feed, one emission at a time"""
        return [r.value for r in self.feed(row)]


# Callbacks handed to the pipelines: forwarded to those of the current path.  Beam pickles a
# step's arguments when the pipeline is built; module-level names are pickled by reference.
_CUR = {}


def hook_map(*a):
    return _CUR["map_fn"](*a)


def hook_solve(*a):
    return _CUR["solve_fn"](*a)


def hook_unmap(*a):
    return _CUR["unmap_fn"](*a)


def hook_filter(*a):
    return _CUR["filter_fn"](*a)


class SOLVER:
    """stands for the user's solver"""


_PIPES = {}


class _Src(beam.PTransform):
    def expand(self, p):
        return p | beam.Create([1])


def quiet():
    import logging

    logging.getLogger("apache_beam").setLevel(logging.ERROR)


def processing(sx, algorithm, options, callbacks, mtype=None, share=True, cache=True):
    """the part of the algorithm's real pipeline behind the windowing, ready to be fed with windows.

    options may contain symbols (the same name denotes the same symbol on every path)."""
    from sawatabi.algorithm import Attenuation, Delta, Incremental, Partial, Window

    quiet()
    cls = {"window": Window, "delta": Delta, "incremental": Incremental, "attenuation": Attenuation, "partial": Partial}[algorithm]
    key = (algorithm, mtype, tuple(sorted((k, v if isinstance(v, (int, float, str, bool)) else "sym") for k, v in options.items())))
    if not sx.symbolic or not cache or key not in _PIPES:
        opt = dict(options)
        if algorithm == "partial":
            opt["filter_fn"] = hook_filter
        kw = {} if mtype is None else {"initial_mtype": mtype}
        p = cls.create_pipeline(algorithm_options=opt, input_fn=_Src(), map_fn=hook_map, solve_fn=hook_solve, unmap_fn=hook_unmap, solver=SOLVER, **kw)
        nodes = leaves(p)
        last = max(i for i, n in enumerate(nodes) if isinstance(n.transform, beam.WindowInto))
        _PIPES[key] = (nodes[last + 1:], p)
    nodes, _ = _PIPES[key]
    _CUR.clear()
    _CUR.update(callbacks)
    return Chain(nodes, share)


OPTIONS = {
    "window": {"window.size": 4, "window.period": 2},
    "delta": {"window.size": 2},
    "incremental": {"incremental.size": 2},
    "partial": {"window.size": 4, "window.period": 2},
    "attenuation": {"window.size": 4, "window.period": 2, "attenuation.key": "attributes.ts", "attenuation.min_scale": 0.5},
}


# ------------------------------------------------------------------ a small symbolic runner
def _secs(d):
    """Beam duration/timestamp -> seconds (int when whole)"""
    m = d.micros
    return m // 10**6 if m % 10**6 == 0 else m / 10**6


def _tsval(t):
    return t.v if isinstance(t, Ts) else _secs(Timestamp.of(t))


def windows_of(sx, fn, t):
    """windows (start, end) Beam's window function assigns to event time t; the window
    number is case-split, t itself stays symbolic"""
    if isinstance(fn, beam.window.GlobalWindows):
        return [None]
    v = _tsval(t)

    def num(x, p):
        q = x // p
        return sx.realize_int(q) if is_sym(q) else int(q)

    if type(fn) is beam.window.FixedWindows:
        size, off = _secs(fn.size), _secs(fn.offset)
        s = num(v - off, size) * size + off
        return [(s, s + size)]
    if type(fn) is beam.window.SlidingWindows:
        size, period, off = _secs(fn.size), _secs(fn.period), _secs(fn.offset)
        s = num(v - off, period) * period + off
        out = []
        while s > v - size:
            out.append((s, s + size))
            s = s - period
        return out
    raise Unsupported(f"window function {fn!r}")


def execute(sx, nodes, rows, order="insertion", subst=None):
    """run the primitive steps over rows; returns the rows of the last step"""
    fn = None
    for n in nodes:
        t = n.transform
        if isinstance(t, beam.WindowInto):
            w = t.windowing
            fn = w.windowfn
            if type(w.triggerfn).__name__ != "DefaultTrigger" or w.timestamp_combiner not in (None, beam.window.TimestampCombiner.OUTPUT_AT_EOW):
                raise Unsupported("trigger or timestamp combiner")
            rows = [Row(r.value, r.ts, x) for r in rows for x in windows_of(sx, fn, r.ts)]
        elif isinstance(t, beam.GroupByKey):
            groups = {}
            for r in rows:
                k, v = r.value
                groups.setdefault((k, r.window), []).append(v)
            keys = list(groups)
            if order == "time":
                keys.sort(key=lambda kw: kw[1][1])
            elif order == "reverse":
                keys.sort(key=lambda kw: -kw[1][1])
            if any(w is None for _, w in keys):
                raise Unsupported("grouping in the global window")
            rows = [Row((k, groups[(k, w)]), Timestamp(micros=int(w[1] * 10**6) - 1), w) for k, w in keys]
        elif isinstance(t, beam.ParDo):
            f = t.fn if subst is None else subst(t.fn)
            c = Call(f, t.args, t.kwargs)
            rows = [o for r in rows for o in _emit(c(r.value, r.ts, r.window), r)]
        else:
            raise Unsupported(f"{n.full_label}: {type(t).__name__}")
    return rows


class Sink(beam.DoFn):
    """collects a real pipeline's output with event times (in process)"""

    def process(self, x, t=beam.DoFn.TimestampParam):
        _CUR["out"].append((x, t))


class Source(beam.PTransform):
    """timestamped input of a pipeline under check"""

    def __init__(self, rows=()):
        super().__init__()
        self.rows = rows

    def expand(self, p):
        return p | beam.Create([beam.window.TimestampedValue(v, t) for v, t in self.rows] or [0])


def algorithm_class(name):
    from sawatabi.algorithm import Attenuation, Delta, Incremental, Partial, Window

    return {"window": Window, "delta": Delta, "incremental": Incremental, "attenuation": Attenuation, "partial": Partial}[name]


def run_pipeline(sx, algorithm, options, callbacks, inputs, order="insertion", key=None, **kw):
    """inputs: [(value, event time)] in order of arrival -> [(output, event time)].

    Symbolic: the real pipeline's steps on the small runner.  Replay: Beam's own runner."""
    quiet()
    cls = algorithm_class(algorithm)
    _CUR.clear()
    _CUR.update(callbacks)
    opt = dict(options)
    if algorithm == "partial":
        opt["filter_fn"] = hook_filter
    hooks = dict(map_fn=hook_map, solve_fn=hook_solve, unmap_fn=hook_unmap)
    if kw.get("solver", SOLVER) != "default":
        hooks["solver"] = kw.pop("solver", SOLVER)
    kw = {a: b for a, b in kw.items() if a != "solver"}
    if sx.symbolic:
        k = ("run", repr(hooks.get("solver", "default")), algorithm, repr(sorted(options.items(), key=repr)), repr(sorted(kw.items())))
        if k not in _PIPES:
            p = cls.create_pipeline(algorithm_options=opt, input_fn=Source(), **hooks, **kw)
            root = p._root_transform() if hasattr(p, "_root_transform") else p.transforms_stack[0]
            src = [c for c in root.parts if isinstance(c.transform, Source)]
            if len(src) != 1:
                raise Unsupported("input")
            skip = set()

            def mark(n):
                skip.add(id(n))
                for c in n.parts:
                    mark(c)

            mark(src[0])
            _PIPES[k] = ([n for n in leaves(p) if id(n) not in skip], p)
        nodes, _ = _PIPES[k]
        rows = execute(sx, nodes, [Row(v, t) for v, t in inputs], order)
        return [(r.value, r.ts) for r in rows]
    out = []
    _CUR["out"] = out
    p = cls.create_pipeline(algorithm_options=opt, input_fn=Source([(v, float(t)) for v, t in inputs]), output_fn=beam.ParDo(Sink()), **hooks, **kw)
    p.run().wait_until_finish()
    return out
