"""C24: number inputs keep exactly the lines that are decimal numbers."""
import apache_beam as beam
from apache_beam.io.gcp.pubsub import ReadFromPubSub
from sawatabi.algorithm import IO

from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import attempt, clocked
from vp.streams import Row, execute, leaves, quiet
from vp.symstr import SymBytes, SymStr

ASSUMPTIONS = ["Beam's sources are replaced by the messages of the check; the steps behind them are the real ones",
               "regular expressions are matched by an own matcher that reads the pattern the code compiled (validated against re on replay); characters are any Unicode scalar values",
               "a number followed by one line feed may be kept or dropped"]

_PIPES = {}


def steps(sx, which, **kw):
    quiet()
    key = (which, tuple(sorted(kw.items())))
    if not sx.symbolic or key not in _PIPES:
        p = beam.Pipeline()
        p | getattr(IO, which)(**kw)
        root = p._root_transform() if hasattr(p, "_root_transform") else p.transforms_stack[0]
        src = []

        def find(n):
            if isinstance(n.transform, (beam.io.ReadFromText, ReadFromPubSub)):
                src.append(n)
            else:
                for c in n.parts:
                    find(c)

        find(root)
        assert len(src) == 1
        skip = set()

        def mark(n):
            skip.add(id(n))
            for c in n.parts:
                mark(c)

        mark(src[0])
        _PIPES[key] = ([n for n in leaves(p) if id(n) not in skip], src[0].transform, p)
    return _PIPES[key][:2]


def text(sx, name, n):
    cps = []
    for i in range(n):
        c = sx.int(f"{name}c{i}", lo=0, hi=0x10FFFF)
        sx.assume(sx.Or(c < 0xD800, c > 0xDFFF))
        cps.append(c)
    return cps


def run(sx, lengths, which, kw, nbytes=False):
    msgs = [text(sx, f"m{j}", n) for j, n in enumerate(lengths)]
    if sx.symbolic:
        objs = [SymStr(m) for m in msgs]
        if nbytes:
            objs = [SymBytes(s) for s in objs]
    else:
        objs = ["".join(map(chr, m)) for m in msgs]
        if nbytes:
            objs = [s.encode("utf-8") for s in objs]
    nodes, _ = steps(sx, which, **kw)
    got = [r.value for r in execute(sx, nodes, [Row(o, 0) for o in objs])]
    want = []
    for m in msgs:
        digit = [sx.And(c >= 48, c <= 57) for c in m]
        if m and all(bool(d) for d in digit):
            v = 0
            for c in m:
                v = v * 10 + (c - 48)
            want.append(("yes", v))
            sx.reach("number")
        elif len(m) > 1 and bool(sx.eq(m[-1], 10)) and all(bool(d) for d in digit[:-1]):
            v = 0
            for c in m[:-1]:
                v = v * 10 + (c - 48)
            want.append(("maybe", v))
        else:
            sx.reach("other")
    k = 0
    items = []
    for kind, v in want:
        if kind == "maybe":
            if k < len(got) and len(got) - k > sum(1 for q, _ in want[want.index((kind, v)) + 1:] if q == "yes"):
                items.append(("value", sx.eq(got[k], v)))
                k += 1
            continue
        if k >= len(got):
            items.append(("kept", False, f"{got} want {want} for {objs!r}"))
            break
        items.append(("value", sx.eq(got[k], v), f"{got[k]} want {v}"))
        k += 1
    items.append(("dropped", k >= len(got), f"{got} want {want} for {objs!r}"))
    sx.check_all(items)
    if not sx.symbolic:
        sx.check("integers", all(type(g) is int for g in got))


@clocked
def lines(sx):
    run(sx, [sx.choice("length", [0, 1, 2, 3, 4, 5, 6])], "read_from_text_as_number", {"path": __file__})


@clocked
def two_lines(sx):
    run(sx, [sx.choice("l1", [1, 2]), sx.choice("l2", [0, 1, 2])], "read_from_text_as_number", {"path": __file__})


@clocked
def messages(sx):
    kw = sx.choice("source", [{"topic": "topic-t"}, {"subscription": "sub-s"}])
    run(sx, [sx.choice("length", [0, 1, 2])], "read_from_pubsub_as_number", {"project": "project-p", **kw}, nbytes=True)


@clocked
def written(sx):
    """what is written to Pub/Sub is the output, encoded as UTF-8"""
    quiet()
    n = sx.choice("length", [0, 1, 2, 3])
    m = text(sx, "m", n)
    if not sx.symbolic or "write" not in _PIPES:
        p = beam.Pipeline()
        p | beam.Create(["x"]) | IO.write_to_pubsub("my-project", "topic-1")
        root = p._root_transform() if hasattr(p, "_root_transform") else p.transforms_stack[0]
        skip = set()

        def mark(q, on):
            on = on or isinstance(q.transform, (beam.Create, beam.io.WriteToPubSub))
            if on:
                skip.add(id(q))
            for c in q.parts:
                mark(c, on)

        mark(root, False)
        _PIPES["write"] = ([q for q in leaves(p) if id(q) not in skip], p)
    nodes = _PIPES["write"][0]
    got = [r.value for r in execute(sx, nodes, [Row(SymStr(m) if sx.symbolic else "".join(map(chr, m)), 0)])]
    sx.check("count", len(got) == 1)
    if sx.symbolic:
        sx.check("bytes", isinstance(got[0], SymBytes) and len(got[0].s) == n)
        sx.check_all([("encoded", sx.eq(a, b)) for a, b in zip(got[0].s.c, m)])
    else:
        sx.check("encoded", got[0] == "".join(map(chr, m)).encode("utf-8"))


@clocked
def long_lines(sx):
    run(sx, [sx.choice("length", list(range(7, 17)))], "read_from_text_as_number", {"path": __file__})


@clocked
def plain(sx):
    """messages are decoded and passed on unchanged"""
    kw = sx.choice("source", [{"topic": "topic-t"}, {"subscription": "sub-s"}])
    n = [sx.choice("l1", [0, 1, 2]), sx.choice("l2", [1])]
    msgs = [text(sx, f"m{j}", k) for j, k in enumerate(n)]
    nodes, _ = steps(sx, "read_from_pubsub", project="project-p", **kw)
    objs = [SymBytes(SymStr(m)) if sx.symbolic else "".join(map(chr, m)).encode("utf-8") for m in msgs]
    got = [r.value for r in execute(sx, nodes, [Row(o, 0) for o in objs])]
    sx.check("count", len(got) == len(msgs))
    for g, m in zip(got, msgs):
        if sx.symbolic:
            sx.check("text", isinstance(g, SymStr) and len(g) == len(m))
            sx.check_all([("decoded", sx.eq(a, b)) for a, b in zip(g.c, m)])
        else:
            sx.check("decoded", g == "".join(map(chr, m)))


@clocked
def paths(sx):
    """resource names"""
    quiet()
    project, name = sx.choice("project", ["my-project", "other-project-2"]), sx.choice("name", ["topic-1", "topics", "projects", "a.b_c", "UPPER-Case", "t~+%25"])
    how = sx.choice("how", ["topic", "subscription", "write", "text", "write text", "both"])
    as_ = sx.choice("as", ["", "_as_number", "_as_json"]) if how in ("topic", "subscription", "text", "both") else ""
    if how in ("topic", "subscription", "both"):
        kw = {how: name} if how != "both" else {"topic": name, "subscription": "other-sub"}
        p = beam.Pipeline()
        p | getattr(IO, "read_from_pubsub" + as_)(project=project, **kw)
        src = find(p, ReadFromPubSub)
        s = src._source
        if how == "subscription":
            sx.check("subscription", s.full_subscription == f"projects/{project}/subscriptions/{name}" and s.full_topic is None if hasattr(s, "full_subscription") else s.subscription_name == name and s.project == project, f"{vars(s)}")
        else:
            sx.check("topic", s.full_topic == f"projects/{project}/topics/{name}" if hasattr(s, "full_topic") else s.topic_name == name and s.project == project, f"{vars(s)}")
    elif how == "write":
        t = IO.write_to_pubsub(project, name)
        parts = getattr(t, "_parts", [t])
        w = [q for q in parts if isinstance(q, beam.io.WriteToPubSub)]
        sx.check("write-topic", len(w) == 1 and w[0].full_topic == f"projects/{project}/topics/{name}")
    elif how == "text":
        fn = __file__ if project == "my-project" else beam.__file__
        t = getattr(IO, "read_from_text" + as_)(fn)
        parts = getattr(t, "_parts", [t])
        sx.check("read-path", isinstance(parts[0], beam.io.ReadFromText) and parts[0]._source._pattern.get() == fn)
    else:
        t = IO.write_to_text(f"/nowhere/{project}/{name}")
        sx.check("write-path", t._sink.file_path_prefix.get() == f"/nowhere/{project}/{name}")


def find(p, cls):
    root = p._root_transform() if hasattr(p, "_root_transform") else p.transforms_stack[0]
    out = []

    def walk(n):
        if isinstance(n.transform, cls):
            out.append(n.transform)
        for c in n.parts:
            walk(c)

    walk(root)
    assert len(out) == 1
    return out[0]


L = ["value", "dropped", "reach:number", "reach:other"]


@clocked
def stream(sx):
    """long inputs: numbers of many digits, leading zeros, other text, two free lines at any place among them"""
    fixed = []
    for i in range(60):
        fixed += [str(i * i * 7919), "0" * (i % 4) + str(i), "x" + str(i), " " + str(i), str(i) + ".0", "-" + str(i), ""]
    where = sx.choice("where", [0, 210, len(fixed)])
    free = [text(sx, "m0", sx.choice("l1", [1, 2])), text(sx, "m1", 1)]
    which, nb, kw = sx.choice("source", [("read_from_text_as_number", False, {"path": __file__}), ("read_from_pubsub_as_number", True, {"project": "project-p", "topic": "t"})])

    def obj(m):
        s = SymStr(m) if sx.symbolic else "".join(map(chr, m))
        return (SymBytes(s) if sx.symbolic else s.encode("utf-8")) if nb else s

    enc = (lambda s: s.encode("utf-8")) if nb else (lambda s: s)
    objs = [enc(s) for s in fixed[:where]] + [obj(m) for m in free] + [enc(s) for s in fixed[where:]]
    nodes, _ = steps(sx, which, **kw)
    got = [r.value for r in execute(sx, nodes, [Row(o, 0) for o in objs])]
    ok = [int(s) for s in fixed[:where] if s.isdigit()]
    late = [int(s) for s in fixed[where:] if s.isdigit()]
    mid = []
    for m in free:
        digit = [sx.And(c >= 48, c <= 57) for c in m]
        if all(bool(d) for d in digit):
            v = 0
            for c in m:
                v = v * 10 + (c - 48)
            mid.append(v)
        elif len(m) > 1 and bool(sx.eq(m[-1], 10)) and bool(digit[0]) and len(got) == len(ok) + len(late) + 1 + len(mid) + (1 if bool(sx.And(free[1][0] >= 48, free[1][0] <= 57)) else 0):
            mid.append(m[0] - 48)
    want = ok + mid + late
    sx.check("dropped", len(got) == len(want), f"{len(got)} want {len(want)}")
    sx.check_all([("value", sx.eq(g, w), f"{g} want {w}") for g, w in zip(got, want)])


@clocked
def wide(sx):
    """numbers of many digits, with one free character at any of several places"""
    n = sx.choice("digits", [9, 12, 17, 18, 19, 20, 25, 33, 40])
    body = [48 + (i * 7 + 3) % 10 for i in range(n)]
    body[0] = 48 + sx.choice("first", [0, 9])
    at = sx.choice("at", [0, n // 2, n - 1])
    body[at] = text(sx, "c", 1)[0]
    whole(sx, body)


@clocked
def fixed_lines(sx):
    """long numbers and near-numbers as plain texts"""
    s = sx.choice("line", ["9007199254740993", "123456789012345678901", "18446744073709551616", "9" * 40, "0" * 30 + "7", "0" * 25, "1" + "0" * 22 + "1", "0x10", "0b1", "0o7", "1_000", "1e5", "+5", "-0",
                           "12345678901234567890x", "٣", "１２", "²", "1 2", "1\t", "\t1", "1\r", "\r1", "1\x0b", "1\x0c", "1\x00", "1\u2028", "\n1", "1\n2", "1\n\n", "nan", "None", "007", "1,000", "①", "\ufeff12", "12\ufeff", "1\x7f", "\x7f", "1\u200b"])
    whole(sx, [ord(c) for c in s])


def whole(sx, cps):
    which, nb, kw = sx.choice("source", [("read_from_text_as_number", False, {"path": __file__}), ("read_from_pubsub_as_number", True, {"project": "project-p", "topic": "t"})])
    free = any(type(c) is not int for c in cps)
    obj = SymStr(cps) if sx.symbolic and free else "".join(map(chr, cps))
    if nb:
        obj = SymBytes(obj) if sx.symbolic and free else obj.encode("utf-8")
    nodes, _ = steps(sx, which, **kw)
    got = [r.value for r in execute(sx, nodes, [Row(obj, 0)])]
    if all(bool(sx.And(c >= 48, c <= 57)) for c in cps):
        v = 0
        for c in cps:
            v = v * 10 + (c - 48)
        sx.check("kept", len(got) == 1, f"{got} want {v}")
        sx.check("value", sx.eq(got[0], v), f"{got[0]} want {v}")
        if not free:
            sx.check("exact", type(got[0]) is int and got[0] == v, f"{got[0]} want {v}")
    elif not (bool(sx.eq(cps[-1], 10)) and all(bool(sx.And(c >= 48, c <= 57)) for c in cps[:-1])):
        sx.check("dropped", not got, f"{got}")


@clocked
def bad_bytes(sx):
    """Pub/Sub messages that are not UTF-8 never come out as numbers or text"""
    b = sx.choice("bytes", [b"1\xff", b"\xff1", b"1\xff2", b"\xc31", b"1\xc3", b"\xed\xa0\x801", b"\xc0\xb1", b"1\xf0\x9f\x98", b"\x80", b"\xfe\xff\x001", b"\xff\xfe1\x00"])
    which = sx.choice("source", ["read_from_pubsub_as_number", "read_from_pubsub", "read_from_pubsub_as_json"])
    nodes, _ = steps(sx, which, project="project-p", **sx.choice("from", [{"topic": "topic-t"}, {"subscription": "sub-s"}]))
    e, got = attempt(lambda: [r.value for r in execute(sx, nodes, [Row(b, 0)])])
    sx.check("not-utf-8", e is not None or not got, f"{b!r} came out as {got!r}")
    sx.check("good-one", [r.value for r in execute(sx, nodes, [Row(b"15", 0)])] == (["15"] if which == "read_from_pubsub" else [15]))


UNITS = [
    Unit("lines", lines, "every line of up to 6 characters (any Unicode characters)", L),
    Unit("two-lines", two_lines, "two lines of up to 2 characters each", L),
    Unit("messages", messages, "every Pub/Sub message of up to 2 characters, topic and subscription", L),
    Unit("plain", plain, "two Pub/Sub messages of up to 2 characters", ["decoded"]),
    Unit("written", written, "every output of up to 3 characters", ["encoded"]),
    Unit("paths", paths, "18 names, 6 kinds of source and sink", ["topic", "subscription", "write-topic", "read-path", "write-path"]),
    Unit("long-lines", long_lines, "every line of 7 to 16 characters", L, tier="thorough"),
    Unit("stream", stream, "420 fixed lines and two free ones of up to 2 characters at three places", ["value", "dropped"]),
    Unit("wide", wide, "numbers of 9 to 40 digits with any character at 3 places, text and Pub/Sub", ["value", "kept", "dropped"]),
    Unit("fixed-lines", fixed_lines, "40 particular lines of long numbers and near-numbers, text and Pub/Sub", ["exact", "kept", "dropped"]),
    Unit("bad-bytes", bad_bytes, "11 byte strings that are not UTF-8, three readers, topic and subscription", ["not-utf-8", "good-one"]),
]
