"""C29: JSON inputs deliver every message's value."""
from props.c24 import steps, text
from vp import Unit
from vp.lib import *  # noqa: F401,F403
from vp.lib import attempt, clocked
from vp.streams import Row, execute
from vp.symstr import SymBytes, SymStr

ASSUMPTIONS = ["Beam's sources are replaced by the messages of the check; the steps behind them are the real ones",
               "json.loads of symbolic text is an own parser of the same grammar (validated against json on replay)"]


def eqj(sx, got, want):
    """got is the value `want`; symbolic strings are lists of code points wrapped as ('s', [...])"""
    if isinstance(want, tuple):
        cps = want[1]
        if sx.symbolic and isinstance(got, SymStr):
            return sx.And(len(got.c) == len(cps), *[sx.eq(a, b) for a, b in zip(got.c, cps)])
        if not isinstance(got, str) or len(got) != len(cps):
            return False
        return sx.And(True, *[sx.eq(ord(a), b) for a, b in zip(got, cps)])
    if isinstance(want, dict):
        return isinstance(got, dict) and list(got) == list(want) and sx.And(True, *[eqj(sx, got[k], want[k]) for k in want])
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and sx.And(True, *[eqj(sx, a, b) for a, b in zip(got, want)])
    if want is None or isinstance(want, (bool, str)):
        return type(got) is type(want) and got == want
    if got is None or isinstance(got, (bool, str, list, dict, SymStr)):
        return False
    if not sx.symbolic and isinstance(want, int) and type(got) is not int:
        return False
    return sx.eq(got, want)


def digit(sx, name, lo=0):
    return sx.int(name, lo=48 + lo, hi=57)


def char(sx, name):
    """a character that stands for itself inside a JSON string"""
    c = sx.int(name, lo=32, hi=0x10FFFF)
    sx.assume(sx.Or(c < 0xD800, c > 0xDFFF))
    sx.assume(sx.And(sx.Not(sx.eq(c, 34)), sx.Not(sx.eq(c, 92))))
    return c


def o(s):
    return [ord(ch) for ch in s]


def template(sx, which, p=""):
    """(code points, value)"""
    if which == "object":
        a, b, c, s = digit(sx, p + "a", 1), digit(sx, p + "b"), digit(sx, p + "c"), char(sx, p + "s")
        return o('{"key": ') + [a, b] + o(', "list": [-') + [c] + o(', "') + [s] + o('"]}'), {"key": (a - 48) * 10 + b - 48, "list": [-(c - 48), ("s", [s])]}
    if which == "decimal":
        a, b, c = digit(sx, p + "a"), digit(sx, p + "b"), digit(sx, p + "c")
        return [a, 46, b, c], ((a - 48) * 100 + (b - 48) * 10 + c - 48) / 100
    if which == "string":
        s, t = char(sx, p + "s"), char(sx, p + "t")
        return [34, s, t, 34], ("s", [s, t])
    if which == "repeated":
        a, b = digit(sx, p + "a"), digit(sx, p + "b")
        return o('{"k":') + [a] + o(',"k":') + [b] + o("}"), {"k": b - 48}
    if which == "nested":
        a, s = digit(sx, p + "a"), char(sx, p + "s")
        return o(' [[') + [a] + o('],{"x":{"y":"') + [s] + o('"}}, null]\t'), [[a - 48], {"x": {"y": ("s", [s])}}, None]
    if which == "escape":
        s = char(sx, p + "s")
        return o('"\\"') + [s] + o('\\n\\u00e9"'), ("s", [34, s, 10, 0xE9])
    plain = {"null": None, "true": True, "false": False, "0": 0, '""': "", "[]": [], "{}": {}}
    return o(which), plain[which]


TEMPLATES = ["object", "decimal", "string", "repeated", "nested", "escape", "null", "true", "false", "0", '""', "[]", "{}"]
SOURCES = [("read_from_text_as_json", {"path": __file__}, False), ("read_from_pubsub_as_json", {"project": "project-p", "topic": "t"}, True),
           ("read_from_pubsub_as_json", {"project": "project-p", "subscription": "s"}, True)]


def run(sx, which, kw, nbytes, msgs):
    objs = [SymStr(m) if sx.symbolic else "".join(map(chr, m)) for m in msgs]
    if nbytes:
        objs = [SymBytes(s) if sx.symbolic else s.encode("utf-8") for s in objs]
    nodes, _ = steps(sx, which, **kw)
    return [r.value for r in execute(sx, nodes, [Row(x, 0) for x in objs])]


@clocked
def values(sx):
    """one message of every form, from every source"""
    which, kw, nb = sx.choice("source", SOURCES)
    cps, want = template(sx, sx.choice("form", TEMPLATES))
    got = run(sx, which, kw, nb, [cps])
    sx.check("one-each", len(got) == 1, f"{got!r}")
    sx.check("json-value", eqj(sx, got[0], want), f"{got!r} want {want!r}")


@clocked
def several(sx):
    """several messages, equal ones and falsy values among them: none lost, order kept"""
    which, kw, nb = sx.choice("source", SOURCES[:2])
    forms = [sx.choice(f"form{i}", ["decimal", "repeated", "null", "0", "{}"]) for i in range(3)]
    pairs = [template(sx, f, f"m{i}") for i, f in enumerate(forms)]
    got = run(sx, which, kw, nb, [c for c, _ in pairs])
    sx.check("one-each", len(got) == 3, f"{got!r}")
    sx.check_all([("json-order", eqj(sx, g, w)) for g, (_, w) in zip(got, pairs)])


@clocked
def short(sx):
    """every text of up to two characters: its value or an error"""
    which, kw, nb = sx.choice("source", SOURCES[:2])
    n = sx.choice("length", [0, 1, 2])
    m = text(sx, "m", n)
    e, got = attempt(run, sx, which, kw, nb, [m])

    def is_(i, *ch):
        return bool(sx.Or(*[sx.eq(m[i], ord(c)) for c in ch]))

    def dig(i, lo="0"):
        return bool(sx.And(m[i] >= ord(lo), m[i] <= 57))

    ok, want = False, None
    if n == 1 and dig(0):
        ok, want = True, m[0] - 48
    elif n == 2:
        if dig(0) and is_(1, " ", "\t", "\n", "\r"):
            ok, want = True, m[0] - 48
        elif dig(1) and is_(0, " ", "\t", "\n", "\r"):
            ok, want = True, m[1] - 48
        elif dig(0, "1") and dig(1):
            ok, want = True, (m[0] - 48) * 10 + m[1] - 48
        elif is_(0, "-") and dig(1):
            ok, want = True, -(m[1] - 48)
        elif is_(0, '"') and is_(1, '"'):
            ok, want = True, ""
        elif is_(0, "[") and is_(1, "]"):
            ok, want = True, []
        elif is_(0, "{") and is_(1, "}"):
            ok, want = True, {}
    if ok:
        sx.check("short-accepted", e is None, repr(e))
        sx.check("short-value", len(got) == 1 and eqj(sx, got[0], want), f"{got!r}")
    else:
        sx.check("short-rejected", isinstance(e, ValueError), f"{e!r} {got!r}")


class Fixed:
    """stands in for the context where a form's free characters are to be fixed ones"""

    def __init__(self, i):
        self.i = i

    def int(self, name, lo, hi):
        return lo + 1 + (self.i * 3) % min(hi - lo - 1, 90) if lo != 32 else [233, 0x4E2D, 97, 0x1F600, 44][self.i % 5]

    def assume(self, c):
        pass

    def And(self, *a):  # noqa: N802
        return all(a)

    def Or(self, *a):  # noqa: N802
        return any(a)

    def Not(self, a):  # noqa: N802
        return not a

    def eq(self, a, b):
        return a == b


@clocked
def many(sx):
    """a long stream with every form in it, and long texts"""
    which, kw, nb = sx.choice("source", SOURCES)
    pairs = []
    for i in range(40):
        pairs.append(template(sx if i in (0, 30) else Fixed(i), TEMPLATES[(i * 5) % len(TEMPLATES)], f"m{i}"))
        n = i * 977
        pairs.append((o(f'{{"n": {n}, "s": "{"y" * i}", "l": [{", ".join(str(j) for j in range(i))}]}}'), {"n": n, "s": "y" * i, "l": list(range(i))}))
    a, s = digit(sx, "a"), char(sx, "s")
    pairs.append((o("[" + "1, " * 60) + [a] + o(', "' + "x" * 60) + [s] + o('"]'), [1] * 60 + [a - 48, ("s", o("x" * 60) + [s])]))
    got = run(sx, which, kw, nb, [c for c, _ in pairs])
    sx.check("one-each", len(got) == len(pairs), f"{len(got)}")
    sx.check_all([("json-order", eqj(sx, g, w), f"{g!r} want {w!r}") for g, (_, w) in zip(got, pairs)])


@clocked
def quoted(sx):
    """a string of one free character, a control character among them, alone and in a list"""
    which, kw, nb = sx.choice("source", SOURCES[:2])
    c = text(sx, "m", 1)[0]
    form = sx.choice("form", ["alone", "list", "key", "middle"])
    pre, post = {"alone": ('"', '"'), "list": ('["', '"]'), "key": ('{"k":"', '"}'), "middle": ('"a', 'b"')}[form]
    e, got = attempt(run, sx, which, kw, nb, [o(pre) + [c] + o(post)])
    if bool(sx.Or(c < 32, sx.eq(c, 34), sx.eq(c, 92))) and not (form == "middle" and bool(sx.eq(c, 92))):
        sx.check("quoted-rejected", isinstance(e, ValueError), f"{e!r} {got!r}")
        return
    if form == "middle" and bool(sx.eq(c, 92)):
        want = ("s", [97, 8])
    else:
        want = {"alone": ("s", [c]), "list": [("s", [c])], "key": {"k": ("s", [c])}, "middle": ("s", [97, c, 98])}[form]
    sx.check("quoted-accepted", e is None and len(got) == 1, repr(e))
    sx.check("quoted-value", eqj(sx, got[0], want), f"{got!r}")


VALID = {
    '0.1234567890123456789': 0.1234567890123456789, '1e-20': 1e-20, '123456789.123456789': 123456789.123456789, '-0.0': -0.0, '-0': 0, '1E+2': 100.0, '1.7976931348623157e308': 1.7976931348623157e308, '5e-324': 5e-324,
    '[{"a": 1}, {"b": 2}]': [{"a": 1}, {"b": 2}], '[[1, 2], [3]]': [[1, 2], [3]], '[null, false]': [None, False], '{"a": {"a": []}}': {"a": {"a": []}}, '{"": 0}': {"": 0}, '["1", 1, 1.0]': ["1", 1, 1.0],
    '{"data": "5", "attributes": {}}': {"data": "5", "attributes": {}}, '"{\\"a\\": 1}"': '{"a": 1}', '"2020-01-01T00:00:00Z"': "2020-01-01T00:00:00Z", '{"__type__": "x", "value": 1}': {"__type__": "x", "value": 1},
"1e3": 1000.0, "-0.5E-1": -0.05, "123456789012345678901234567890": 123456789012345678901234567890, "-9007199254740993": -9007199254740993, "[1.0]": [1.0], "-0": 0, "1E2": 100.0,
         '"\\ud83d\\ude00"': "\U0001f600", '"\\u0000\\/\\b"': "\x00/\b", '{"": []}': {"": []}, '{"b":1,"a":2}': {"b": 1, "a": 2}, "[[[[[[[[[[[[0]]]]]]]]]]]]": [[[[[[[[[[[[0]]]]]]]]]]]],
         ' \t\n\r{ "a" : [ true , false , null ] } ': {"a": [True, False, None]}, '"null"': "null", '"1"': "1", '" x "': " x ", "[null]": [None], '{"k": null}': {"k": None}, "[[], {}, \"\", 0, false]": [[], {}, "", 0, False],
         '"\u2028é中"': "\u2028é中", '{"timestamp": "2021-01-01", "value": 3}': {"timestamp": "2021-01-01", "value": 3}, '{"__class__": "x"}': {"__class__": "x"}}
INVALID = ["'a'", "[1,]", '{"a":1,}', "01", "1 2", "tru", "{a:1}", '"\\x"', "[1", "+1", ".5", "1.", "0x1", "nul", "// c", "\ufeff1", "True", "None", '"a', "[1 2]", '{"a" 1}', "{1:2}", "1,2", "[]]", '"a"b', " ", "\x0b1", "\u00a01",
           '{"a":}', "[,1]", "--1", "1e", '"\\u12"', "٣", '"a\nb"', '"a\tb"', "{}{}", "1_0", "undefined"]


@clocked
def particular(sx):
    """particular texts, with good messages around them"""
    which, kw, nb = sx.choice("source", SOURCES[:2])
    s = sx.choice("text", list(VALID) + INVALID)
    enc = (lambda t: t.encode("utf-8")) if nb else (lambda t: t)
    nodes, _ = steps(sx, which, **kw)

    def go():
        return [r.value for r in execute(sx, nodes, [Row(enc(t), 0) for t in ("7", s, "[]")])]

    e, got = attempt(go)
    if s in VALID:
        want = VALID[s]
        sx.check("text-value", e is None and len(got) == 3 and got[0] == 7 and got[2] == [] and got[1] == want and repr(got[1]) == repr(want), f"{e!r} {got!r}")
    else:
        sx.check("text-rejected", isinstance(e, ValueError), f"{e!r} {got!r}")


UNITS = [
    Unit("values", values, "13 forms of JSON text with symbolic digits and characters (any Unicode), text files and Pub/Sub", ["one-each", "json-value"]),
    Unit("several", several, "3 messages of 5 forms each", ["json-order"]),
    Unit("short", short, "every text of up to 2 characters (any Unicode)", ["short-value", "short-rejected"]),
    Unit("many", many, "81 messages of all forms and lengths up to 300 characters in one stream", ["json-order", "one-each"]),
    Unit("quoted", quoted, "strings with one free character (any Unicode), 4 forms", ["quoted-value", "quoted-rejected"]),
    Unit("particular", particular, "39 particular valid and 39 invalid texts", ["text-value", "text-rejected"]),
]
