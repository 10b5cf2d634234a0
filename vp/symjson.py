"""json.loads over symbolic text: the grammar of Python's json module, forking on characters."""
import json

from .sym import is_sym
from .symstr import SymBytes, SymStr, Unsupported, eqc, in_ranges

ESC = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}


def fail(why="value"):
    raise json.JSONDecodeError("Expecting " + why, "", 0)


class _P:
    def __init__(self, c):
        self.c, self.i = c, 0

    def at(self, ch):
        return self.i < len(self.c) and bool(eqc(self.c[self.i], ord(ch)))

    def one(self, rs):
        return self.i < len(self.c) and bool(in_ranges(self.c[self.i], rs))

    def ws(self):
        while self.one([(32, 32), (9, 10), (13, 13)]):
            self.i += 1

    def word(self, w):
        for ch in w:
            if not self.at(ch):
                fail()
            self.i += 1

    def string(self):
        out = []
        while True:
            if self.i >= len(self.c):
                fail("end of string")
            if self.at('"'):
                self.i += 1
                break
            if self.one([(0, 31)]):
                fail("no control character")
            if self.at("\\"):
                self.i += 1
                if self.i >= len(self.c):
                    fail("escape")
                for k, v in ESC.items():
                    if self.at(chr(k)):
                        out.append(v)
                        self.i += 1
                        break
                else:
                    if not self.at("u"):
                        fail("escape")
                    self.i += 1
                    v = 0
                    for _ in range(4):
                        if self.one([(48, 57)]):
                            d = self.c[self.i] - 48
                        elif self.one([(97, 102)]):
                            d = self.c[self.i] - 87
                        elif self.one([(65, 70)]):
                            d = self.c[self.i] - 55
                        else:
                            fail("hex digit")
                        v = v * 16 + d
                        self.i += 1
                    if is_sym(v) or 0xD800 <= v <= 0xDFFF:
                        raise Unsupported("escape")
                    out.append(v)
                continue
            out.append(self.c[self.i])
            self.i += 1
        if any(is_sym(x) for x in out):
            return SymStr(out)
        return "".join(map(chr, out))

    def number(self):
        sign = 1
        if self.at("-"):
            sign = -1
            self.i += 1
            if self.at("I"):
                self.word("Infinity")
                return float("-inf")
        if not self.one([(48, 57)]):
            fail()
        v = self.c[self.i] - 48
        zero = self.at("0")
        self.i += 1
        while not zero and self.one([(48, 57)]):
            v = v * 10 + (self.c[self.i] - 48)
            self.i += 1
        keep, frac = self.i, False
        if self.at("."):
            self.i += 1
            n = 0
            f = v
            while self.one([(48, 57)]):
                f = f * 10 + (self.c[self.i] - 48)
                n += 1
                self.i += 1
            if n:
                v, frac, keep = f, n, self.i
        self.i = keep
        if self.at("e") or self.at("E"):
            self.i += 1
            if self.at("+") or self.at("-"):
                self.i += 1
            if self.one([(48, 57)]):
                raise Unsupported("exponent")
            self.i = keep
        v = v * sign
        if frac:
            return v / (10 ** frac)
        return v

    def value(self):
        self.ws()
        if self.i >= len(self.c):
            fail()
        if self.at('"'):
            self.i += 1
            return self.string()
        if self.at("["):
            self.i += 1
            out = []
            self.ws()
            if self.at("]"):
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.ws()
                if self.at("]"):
                    self.i += 1
                    return out
                if not self.at(","):
                    fail("','")
                self.i += 1
        if self.at("{"):
            self.i += 1
            d = {}
            self.ws()
            if self.at("}"):
                self.i += 1
                return d
            while True:
                self.ws()
                if not self.at('"'):
                    fail("property name")
                self.i += 1
                k = self.string()
                if isinstance(k, SymStr):
                    raise Unsupported("symbolic key")
                self.ws()
                if not self.at(":"):
                    fail("':'")
                self.i += 1
                d[k] = self.value()
                self.ws()
                if self.at("}"):
                    self.i += 1
                    return d
                if not self.at(","):
                    fail("','")
                self.i += 1
        for w, v in (("null", None), ("true", True), ("false", False), ("NaN", float("nan")), ("Infinity", float("inf"))):
            if self.at(w[0]):
                self.word(w)
                return v
        return self.number()


def loads(s, **kw):
    if isinstance(s, SymBytes):
        s = s.s
    if not isinstance(s, SymStr):
        return json.loads(s, **kw)
    if kw:
        raise Unsupported("json.loads options")
    if s.c and bool(eqc(s.c[0], 0xFEFF)):
        fail("no byte order mark")
    p = _P(s.c)
    v = p.value()
    p.ws()
    if p.i != len(p.c):
        fail("end")
    return v
