"""C18: Optigan requests carry the model and answers map back to its variables."""
import contextlib
import gzip
import itertools
import json
import os
import shutil
import tempfile

import requests
from sawatabi.model import PhysicalModel
from sawatabi.solver import OptiganSolver

from vp import Unit
from vp.annealing import energy, rows
from vp.lib import *  # noqa: F401,F403
from vp.lib import LogicalModel, NHotConstraint, attempt, clocked, patched, raw, same
from vp.sym import is_sym

ASSUMPTIONS = ["the network is replaced below `requests` (HTTPAdapter.send): the prepared request is recorded and answered with a symbolic status, energies and spins",
               "symbolic numbers pass through JSON as tagged objects (json encoder/decoder extended, everything else of json, gzip, requests, yaml runs for real)",
               "answers give equal energies to equal spin vectors, as many energies as spin vectors, and one spin per variable of the model, as the service does"]


class Wire:
    """the service: records the request, answers"""

    def __init__(self, sx, status, spins, energies, extra=None):
        self.sx, self.status, self.spins, self.energies, self.extra = sx, status, spins, energies, extra or {}
        self.requests = []
        self.tags = []

    def default(self, _self, o):
        if is_sym(o):
            self.tags.append(o)
            return {"__sym__": len(self.tags) - 1}
        if type(o).__module__ == "numpy" and hasattr(o, "item") and getattr(o, "shape", None) == ():
            return o.item()
        raise TypeError(f"not JSON: {o!r}")

    def untag(self, o):
        if isinstance(o, dict):
            if set(o) == {"__sym__"}:
                return self.tags[o["__sym__"]]
            return {k: self.untag(v) for k, v in o.items()}
        if isinstance(o, list):
            return [self.untag(v) for v in o]
        return o

    def loads(self, s, *a, **k):
        return self.untag(self.real_loads(s, *a, **k))

    def send(self, _self, request, **kw):
        self.requests.append((request.method, request.url, dict(request.headers), request.body))
        r = requests.Response()
        r.status_code = self.status
        r.url = request.url
        r.request = request
        r.encoding = "utf-8"
        r.headers["Content-Type"] = "application/json"
        r._content = json.dumps({"energies": self.energies, "spins": self.spins, **self.extra}).encode()
        r._content_consumed = True
        return r

    @contextlib.contextmanager
    def __call__(self):
        self.real_loads = json.loads
        with patched(json, loads=self.loads), patched(requests.adapters.HTTPAdapter, send=lambda s, r, **k: self.send(s, r, **k)):
            with patched(json.JSONEncoder, default=lambda s, o: self.default(s, o)):
                yield

    def payload(self):
        _, _, headers, body = self.requests[0]
        h = {k.lower(): v for k, v in headers.items()}
        if h.get("content-encoding") == "gzip":
            body = gzip.decompress(body)
        if isinstance(body, bytes):
            body = body.decode("utf-8")
        return self.untag(self.real_loads(body))


def build(sx, kind):
    m = LogicalModel(mtype="qubo")
    x = m.variables("x", shape=(4,))
    a = m.variables("a", shape=(2,))
    c = [sx.real(n, nonzero=True) for n in ("c0", "c1", "c2")]
    if kind == "one":
        m.add_interaction(x[2], coefficient=c[0])
    elif kind == "pair":
        m.add_interaction((x[3], x[1]), coefficient=c[0])
        m.add_interaction(x[1], coefficient=c[1])
    elif kind == "gap":
        m.add_interaction((x[2], a[1]), coefficient=c[0])
        m.add_interaction(x[0], coefficient=c[1])
    elif kind == "constraint":
        m.add_constraint(NHotConstraint([x[1], a[0]], n=1, strength=c[0]))
        m.add_interaction(x[3], coefficient=c[1])
    elif kind == "four":
        m.add_interaction((x[0], x[1]), coefficient=c[0])
        m.add_interaction((a[1], x[3]), coefficient=c[1])
        m.add_interaction(a[1], coefficient=c[2])
    elif kind == "deleted":
        m.add_interaction((x[0], x[1]), coefficient=c[0])
        m.add_interaction((x[1], x[3]), coefficient=c[1])
        m.add_interaction(a[1], coefficient=c[2])
        m.delete_variable(x[0])
    elif kind == "ising":
        m = LogicalModel(mtype="ising")
        x = m.variables("x", shape=(3,))
        m.add_interaction((x[0], x[2]), coefficient=c[0])
        m.add_interaction(x[2], coefficient=c[1])
        m.offset(sx.real("off"))
        m.to_qubo()
        return m.to_physical()
    m.offset(sx.real("off"))
    return m.to_physical()


KINDS = ["pair", "one", "gap", "constraint", "four", "deleted", "ising"]


def poly_value(poly, bits):
    e = 0
    for i, j, c in poly:
        e = e + c * (bits[i] * bits[j])
    return e


def state(p):
    lin, quad, off = raw(p)
    return {"t": p.get_mtype(), "l": lin, "q": {str(k): v for k, v in quad.items()}, "o": off, "i": dict(p._label_to_index), "j": {str(k): v for k, v in p._index_to_label.items()}}


def used_of(p):
    lin, quad, _ = raw(p)
    return set(lin) | {a for k in quad for a in k}


def answers(sx, n, k, full=False):
    """spin vectors of the answer and an energy for each distinct one"""
    if full:
        vec = [list(b) for b in itertools.product((0, 1), repeat=n)]
        if sx.choice("order", [1, -1]) < 0:
            vec.reverse()
    else:
        alls = [list(b) for b in itertools.product((0, 1), repeat=n)]
        vec = [sx.choice(f"spins{i}", alls) for i in range(k)]
    names = {}
    es = []
    for v in vec:
        t = tuple(v)
        if t not in names:
            names[t] = sx.real("e" + "".join(map(str, t)))
        es.append(names[t])
    return vec, es, names


def solve(sx, w, p, kw, init=None):
    with w():
        return OptiganSolver(**({"endpoint": "http://host.example/anneal", "token": "tok"} if init is None else init)).solve(p, **kw)


@clocked
def roundtrip(sx):
    """the request's polynomial and the answer's mapping agree with the model, index by index"""
    p = build(sx, sx.choice("model", KINDS))
    used = used_of(p)
    n = len(used)
    before = state(p)
    vec, es, _ = answers(sx, n, 0, full=True)
    w = Wire(sx, 200, vec, es, {"num_results": len(vec)})
    ss = solve(sx, w, p, {})
    sx.check("one-request", len(w.requests) == 1)
    poly = w.payload()["polynomial"]
    sx.check("indices", all(isinstance(i, int) and 0 <= i < n for t in poly for i in t[:2]), str(poly))
    got = rows(ss)
    off = p.get_offset()
    items = [("complete", all(set(r[0]) == used for r in got) and len(got) == len(vec)), ("vartype", ss.vartype.name == "BINARY")]
    # the samples in the order of the answer, by their (distinct) energy symbols: via the model's index table
    lab = [p._index_to_label[i] for i in range(n)]
    bylabel = {tuple(sorted(r[0].items())): r for r in got}
    for v, e in zip(vec, es):
        s = dict(zip(lab, v))
        r = bylabel.get(tuple(sorted(s.items())))
        items.append(("mapped", r is not None, str(s)))
        if r is not None:
            items.append(("energy-kept", sx.eq(r[1], e), f"{v}"))
            items.append(("polynomial", sx.eq(poly_value(poly, v), energy(p, r[0]) - off), f"{v} {poly}"))
    sx.check_all(items)
    sx.check("model-unchanged", same(sx, before, state(p)))


@clocked
def results(sx):
    """any list of answers, repeated vectors included"""
    p = build(sx, sx.choice("model", ["pair", "gap"]))
    used = used_of(p)
    n = len(used)
    k = sx.choice("answers", [1, 2, 3]) if n == 2 else sx.choice("answers", [1, 2])
    vec, es, names = answers(sx, n, k)
    w = Wire(sx, 200, vec, es)
    ss = solve(sx, w, p, {"duplicate": sx.choice("duplicate", [False, True])})
    lab = [p._index_to_label[i] for i in range(n)]
    got = rows(ss)
    count = {}
    items = []
    for s, e, occ in got:
        t = tuple(s[v] for v in lab)
        count[t] = count.get(t, 0) + occ
        items.append(("energy-kept", sx.eq(e, names[t]) if t in names else False, f"{s}"))
    want = {}
    for v in vec:
        want[tuple(v)] = want.get(tuple(v), 0) + 1
    items.append(("occurrences", count == want, f"{count} {want}"))
    sx.check_all(items)
    sx.check("answer-kept", ss.info.get("spins") == vec and same(sx, ss.info.get("energies"), es))


@clocked
def request(sx):
    """every option, header, endpoint and token"""
    p = build(sx, "pair")
    kw, want = {}, {"num_unit_steps": 10, "timeout": 10000}
    if sx.choice("steps", [False, True]):
        kw["num_unit_steps"] = want["num_unit_steps"] = sx.int("steps") if sx.choice("steps kind", ["integer", "real"]) == "integer" else sx.real("steps")
    if sx.choice("timeout", [False, True]):
        kw["timeout"] = want["timeout"] = sx.int("timeout")
    dup = sx.choice("duplicate", [None, False, True])
    if dup is not None:
        kw["duplicate"] = dup
    if dup:
        want["outputs"] = {"duplicate": True, "num_outputs": 0}
    gq = sx.choice("gzip request", [None, True, False])
    gr = sx.choice("gzip response", [None, True, False])
    if gq is not None:
        kw["gzip_request"] = gq
    if gr is not None:
        kw["gzip_response"] = gr
    tmp = tempfile.mkdtemp(prefix="vp-optigan-")
    home = os.path.join(tmp, "home")
    os.mkdir(home)
    where = sx.choice("credentials", ["arguments", "config", "home", "arguments and config", "arguments and home", "config and home", "endpoint only and config", "token only and config"])
    init = {}
    url, tok = "http://arg.example/a", sx.choice("token", ["argtok", " Arg tok "] if where == "arguments" else ["argtok"])
    if "arguments" in where:
        init.update(endpoint=url, token=tok)
    elif where.startswith("endpoint only"):
        init.update(endpoint=url)
    elif where.startswith("token only"):
        init.update(token=tok)
    if "config" in where:
        fn = os.path.join(tmp, "c.yml")
        with open(fn, "w") as f:
            f.write('api:\n  endpoint: "http://conf.example/b"\n  token: "conftok"\n')
        init["config"] = fn
        if "arguments" not in where:
            url, tok = "http://conf.example/b", "conftok"
    if "home" in where:
        with open(os.path.join(home, ".optigan.yml"), "w") as f:
            f.write('api:\n  endpoint: "http://home.example/c"\n  token: "hometok"\n')
        if where == "home":
            url, tok = "http://home.example/c", "hometok"
    w = Wire(sx, 200, [[0, 1]], [sx.real("e")])
    old = os.environ.get("HOME")
    os.environ["HOME"] = home
    try:
        solve(sx, w, p, kw, init)
    finally:
        if old is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = old
        shutil.rmtree(tmp)
    sx.check("one-request", len(w.requests) == 1)
    method, u, headers, body = w.requests[0]
    h = {k.lower(): v for k, v in headers.items()}
    sx.check("method", method == "POST")
    sx.check("endpoint", u == url, f"{u} want {url}")
    sx.check("token", h.get("authorization") == f"Bearer {tok}", str(h))
    sx.check("compressed", (h.get("content-encoding") == "gzip") == (gq is not False), str(h))
    sx.check("really-compressed", (isinstance(body, bytes) and body[:2] == b"\x1f\x8b") == (gq is not False))
    if gr is not False:
        sx.check("response-compression", "gzip" in h.get("accept-encoding", ""))
    pay = w.payload()
    poly = pay.pop("polynomial")
    sx.check("options", same(sx, pay, want), f"{pay} want {want}")
    off = p.get_offset()
    items = []
    for b in itertools.product((0, 1), repeat=2):
        items.append(("polynomial", sx.eq(poly_value(poly, b), energy(p, {p._index_to_label[i]: b[i] for i in range(2)}) - off)))
    sx.check_all(items)


@clocked
def rejects(sx):
    """every status other than 200 is an error; empty, Ising and foreign models never reach the service"""
    kind = sx.choice("case", ["status", "empty", "offset only", "ising", "ising empty", "logical", "none"])
    st = sx.int("status", lo=100, hi=599)
    w = Wire(sx, st, [[0, 1]], [0.5])
    if kind == "status":
        p = build(sx, "pair")
        e, r = attempt(solve, sx, w, p, {"gzip_request": sx.choice("gzip", [True, False])})
        sx.check("status", sx.Or(sx.And(sx.eq(st, 200), e is None), sx.And(sx.Not(sx.eq(st, 200)), isinstance(e, ValueError))), f"{e!r}")
        return
    exc = ValueError
    if kind == "empty":
        p = LogicalModel(mtype="qubo").to_physical()
    elif kind == "offset only":
        p = PhysicalModel(mtype="qubo")
        p._offset = sx.real("off")
    elif kind == "ising empty":
        p = PhysicalModel(mtype="ising")
    elif kind == "ising":
        p = PhysicalModel(mtype="ising")
        p.add_interaction("a", body=1, coefficient=sx.real("h"))
    elif kind == "logical":
        p, exc = LogicalModel(mtype="qubo"), TypeError
    else:
        p, exc = None, TypeError
    e, _ = attempt(solve, sx, w, p, {})
    sx.check("rejected", isinstance(e, exc), f"{kind}: {e!r}")
    sx.check("nothing-sent", not w.requests)


@clocked
def big(sx):
    """many variables (indices of two digits), many answers"""
    m = LogicalModel(mtype="qubo")
    y = m.variables("two words", shape=(2, 2))
    x = m.variables("x", shape=(18,))
    vs = [x[(i * 5 + 2) % 13 + 3] for i in range(13)] + [y[1, 0], y[0, 1]]
    for i, v in enumerate(vs):
        if i % 3:
            m.add_interaction(v, coefficient=sx.real(f"h{i}", nonzero=True))
        for d in (1, 4):
            m.add_interaction((v, vs[(i + d) % 15]), coefficient=sx.real(f"J{i}.{d}", nonzero=True))
    m.offset(sx.real("off"))
    if sx.choice("deleted", [False, True]):
        m.delete_variable(x[5])
    p = m.to_physical()
    used = used_of(p)
    n = len(used)
    k = sx.choice("answers", [1, 30])
    vec = [[(i * j + i // 3 + j) % 2 for j in range(n)] for i in range(k)]
    names = {}
    es = [names.setdefault(tuple(v), sx.real(f"e{i}")) for i, v in enumerate(vec)]
    w = Wire(sx, 200, vec, es)
    before = state(p)
    ss = solve(sx, w, p, {"duplicate": k > 1, "gzip_request": sx.choice("gzip", [True, False])})
    sx.check("one-request", len(w.requests) == 1)
    poly = w.payload()["polynomial"]
    sx.check("indices", all(isinstance(i, int) and 0 <= i < n for t in poly for i in t[:2]), str(poly))
    lab = [p._index_to_label[i] for i in range(n)]
    lin, quad, _ = raw(p)
    sent = {}
    for i, j, c in poly:
        t = frozenset((lab[i], lab[j]))
        sent[t] = sent.get(t, 0) + c
    want = {frozenset((v,)): -c for v, c in lin.items()}
    want.update({frozenset(q): -c for q, c in quad.items()})
    sx.check_all([("polynomial", sx.eq(sent.get(t, 0), want.get(t, 0)), str(set(t))) for t in set(sent) | set(want)])
    count, items = {}, []
    for s, e, occ in rows(ss):
        items.append(("complete", set(s) == used))
        t = tuple(s[v] for v in lab)
        count[t] = count.get(t, 0) + occ
        items.append(("energy-kept", sx.eq(e, names[t]) if t in names else False, f"{s}"))
    wc = {}
    for v in vec:
        wc[tuple(v)] = wc.get(tuple(v), 0) + 1
    items.append(("occurrences", count == wc))
    sx.check_all(items)
    sx.check("model-unchanged", same(sx, before, state(p)))


UNITS = [
    Unit("roundtrip", roundtrip, "7 model shapes of 1-4 used variables with unused and deleted ones in between, any coefficients, offset and energies, all spin vectors", ["polynomial", "mapped", "energy-kept", "indices", "complete", "vartype"]),
    Unit("results", results, "1-3 answers, any spin vectors (repeated ones included), any energies", ["energy-kept", "occurrences", "answer-kept"]),
    Unit("request", request, "every combination of options, 8 ways to give the credentials, any numbers", ["options", "endpoint", "token", "compressed", "really-compressed", "polynomial"]),
    Unit("rejects", rejects, "every status code 100..599; 6 kinds of invalid model", ["status", "rejected", "nothing-sent"]),
    Unit("big", big, "14-15 used variables, 40 interactions, 1 or 30 answers; any coefficients, offset and energies", ["polynomial", "energy-kept", "occurrences", "indices", "complete"]),
]
