"""Strings of known length whose characters are symbolic code points, and a matcher for
compiled regular expressions (from the pattern the code under check compiled) over them."""
import re
import sys
import unicodedata

try:
    import re._constants as sc
    import re._parser as sre_parse
except ImportError:  # older Pythons
    import sre_constants as sc
    import sre_parse

from . import sym
from .sym import SymBool, SymInt, is_sym, z3

_RANGES = {}


def ranges(name, pred):
    """code point ranges on which pred(chr) holds (Python's own tables)"""
    if name not in _RANGES:
        out, start = [], None
        for c in range(0x110000):
            ok = False if 0xD800 <= c <= 0xDFFF else pred(chr(c))
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        _RANGES[name] = out
    return _RANGES[name]


def in_ranges(c, rs):
    if not is_sym(c):
        return any(a <= c <= b for a, b in rs)
    if not rs:
        return False
    return SymBool(z3.Or(*[c.e == a if a == b else z3.And(c.e >= a, c.e <= b) for a, b in rs]))


def eqc(c, k):
    return (c == k) if is_sym(c) or is_sym(k) else c == k


def neg(b):
    return SymBool(z3.Not(b.e)) if is_sym(b) else not b


class Unsupported(Exception):
    pass


class SymStr:
    def __init__(self, cps):
        self.c = list(cps)

    @staticmethod
    def of(x):
        return x if type(x) is SymStr else SymStr([ord(ch) for ch in x])

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return (SymStr([x]) for x in self.c)

    def __getitem__(self, i):
        return SymStr(self.c[i] if isinstance(i, slice) else [self.c[i]])

    def __add__(self, o):
        return SymStr(self.c + SymStr.of(o).c)

    def __radd__(self, o):
        return SymStr(SymStr.of(o).c + self.c)

    def _eq(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        o = SymStr.of(o)
        if len(o) != len(self):
            return False
        return all(bool(eqc(a, b)) for a, b in zip(self.c, o.c))

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return not self._eq(o)

    def __hash__(self):
        return 3

    def _lt(self, o, strict):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        o = SymStr.of(o)
        for a, b in zip(self.c, o.c):
            if not bool(eqc(a, b)):
                return bool(a < b)
        return len(self) < len(o) if strict else len(self) <= len(o)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    @property
    def __class__(self):
        return str

    def __contains__(self, o):
        o = SymStr.of(o)
        return any(SymStr(self.c[i:i + len(o)]) == o for i in range(len(self) - len(o) + 1))

    def startswith(self, o):
        if isinstance(o, tuple):
            return any(self.startswith(x) for x in o)
        o = SymStr.of(o)
        return len(o) <= len(self) and SymStr(self.c[: len(o)]) == o

    def endswith(self, o):
        if isinstance(o, tuple):
            return any(self.endswith(x) for x in o)
        o = SymStr.of(o)
        return len(o) <= len(self) and SymStr(self.c[len(self) - len(o):]) == o

    def _all(self, name, pred):
        rs = ranges(name, pred)
        return len(self.c) > 0 and all(bool(in_ranges(c, rs)) for c in self.c)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isascii(self):
        return all(bool(in_ranges(c, [(0, 127)])) for c in self.c)

    def _strip(self, chars, left, right):
        if chars is None:
            rs = ranges("isspace", str.isspace)
        else:
            rs = [(ord(k), ord(k)) for k in chars]
        a, b = 0, len(self.c)
        while left and a < b and bool(in_ranges(self.c[a], rs)):
            a += 1
        while right and b > a and bool(in_ranges(self.c[b - 1], rs)):
            b -= 1
        return SymStr(self.c[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, a, b, count=-1):
        a = SymStr.of(a)
        if len(a) != 1:
            raise Unsupported("replace")
        out = []
        for c in self.c:
            if count != 0 and bool(eqc(c, a.c[0])):
                out += SymStr.of(b).c
                count -= 1
            else:
                out.append(c)
        return SymStr(out)

    def encode(self, encoding="utf-8", errors="strict"):
        if norm(encoding) != "utf8":
            raise Unsupported("encode " + encoding)
        return SymBytes(self)

    def __int__(self):
        raise Unsupported("int() outside the checked code")

    def __repr__(self):
        return f"<SymStr of {len(self.c)}>"

    __str__ = __repr__

    def _vp_int_(self):
        """int(s), as Python reads it"""
        s = self.strip().c
        sign = 1
        if s and bool(in_ranges(s[0], [(43, 43), (45, 45)])):
            if bool(eqc(s[0], 45)):
                sign = -1
            s = s[1:]
        val, prev, seen = 0, "start", False
        nd = ranges("isdecimal", str.isdecimal)
        for c in s:
            if bool(in_ranges(c, [(48, 57)])):
                d = c - 48
            elif bool(eqc(c, 95)):
                if prev != "digit":
                    raise ValueError("invalid literal for int()")
                prev = "_"
                continue
            elif bool(in_ranges(c, nd)):
                d = digit_value(c)
            else:
                raise ValueError("invalid literal for int()")
            val = val * 10 + d
            prev, seen = "digit", True
        if not seen or prev == "_":
            raise ValueError("invalid literal for int()")
        return sign * val


def digit_value(c):
    if not is_sym(c):
        return unicodedata.decimal(chr(c))
    e = z3.IntVal(0)
    for z in range(0x110000):
        if not 0xD800 <= z <= 0xDFFF and unicodedata.decimal(chr(z), None) == 0:
            e = z3.If(z3.And(c.e >= z, c.e <= z + 9), c.e - z, e)
    return SymInt(e)


def norm(enc):
    return enc.lower().replace("-", "").replace("_", "")


class SymBytes:
    """UTF-8 bytes of a SymStr"""

    def __init__(self, s):
        self.s = s

    def _bytes(self):
        out = []
        for c in self.s.c:
            if bool(in_ranges(c, [(0, 0x7F)])):
                out.append(c)
            elif bool(in_ranges(c, [(0x80, 0x7FF)])):
                out += [0xC0 + c // 64, 0x80 + c % 64]
            elif bool(in_ranges(c, [(0x800, 0xFFFF)])):
                out += [0xE0 + c // 4096, 0x80 + c // 64 % 64, 0x80 + c % 64]
            else:
                out += [0xF0 + c // 262144, 0x80 + c // 4096 % 64, 0x80 + c // 64 % 64, 0x80 + c % 64]
        return out

    def decode(self, encoding="utf-8", errors="strict"):
        e = norm(encoding)
        if e in ("utf8", "u8"):
            return self.s
        if e == "utf8sig":
            return SymStr(self.s.c[1:]) if self.s.c and bool(in_ranges(self.s.c[0], [(0xFEFF, 0xFEFF)])) else self.s
        if e in ("ascii", "usascii"):
            if self.s.isascii():
                return self.s
            if errors == "strict":
                raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range(128)")
            raise Unsupported(errors)
        if e in ("latin1", "iso88591"):
            return SymStr(self._bytes())
        raise Unsupported("decode " + encoding)

    def __len__(self):
        return len(self._bytes())

    @property
    def __class__(self):
        return bytes

    def __repr__(self):
        return "<SymBytes>"


def sym_str(*a, **k):
    if a and type(a[0]) is SymBytes and (len(a) > 1 or k):
        return a[0].decode(*a[1:], **k)
    if len(a) == 1 and not k and type(a[0]) is SymStr:
        return a[0]
    return str(*a, **k)


def sym_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return c.c[0]
    return ord(c)


def sym_in(a, b):
    if type(a) is SymStr:
        if type(b) is str:
            return a in SymStr.of(b)
        if isinstance(b, (set, frozenset, dict)):
            return any(a == x for x in b)
    return a in b


# ------------------------------------------------------------------ regular expressions
class Match:
    def __init__(self, s, a, b):
        self.string, self.a, self.b = s, a, b

    def group(self, *g):
        if g not in ((), (0,)):
            raise Unsupported("group")
        return self.string[self.a:self.b]

    def span(self, g=0):
        return (self.a, self.b)

    def start(self, g=0):
        return self.a

    def end(self, g=0):
        return self.b


CATS = {
    sc.CATEGORY_DIGIT: ("isdecimal", str.isdecimal, lambda c: c in "0123456789"),
    sc.CATEGORY_SPACE: ("isspace", str.isspace, lambda c: c in " \t\n\r\f\v"),
    sc.CATEGORY_WORD: ("word", lambda c: c.isalnum() or c == "_", lambda c: c.isascii() and (c.isalnum() or c == "_")),
}
NOT_CATS = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE, sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}


class SymPattern:
    """a compiled pattern: the real one for real strings, the matcher below for symbolic ones"""

    def __init__(self, real):
        self.real = real
        self.pattern, self.flags = real.pattern, real.flags

    def _cat(self, k):
        n = False
        if k in NOT_CATS:
            k, n = NOT_CATS[k], True
        name, uni, asc = CATS[k]
        ascii_only = bool(self.flags & re.ASCII)
        return ranges(name + ("-ascii" if ascii_only else ""), asc if ascii_only else uni), n

    def _in(self, items, c):
        negate = False
        cs = []
        for op, av in items:
            if op is sc.NEGATE:
                negate = True
            elif op is sc.LITERAL:
                cs.append(eqc(c, av))
            elif op is sc.RANGE:
                cs.append(in_ranges(c, [av]))
            elif op is sc.CATEGORY:
                rs, n = self._cat(av)
                r = in_ranges(c, rs)
                cs.append(neg(r) if n else r)
            else:
                raise Unsupported(str(op))
        if any(x is True for x in cs):
            r = True
        else:
            cs = [x for x in cs if is_sym(x)]
            r = SymBool(z3.Or(*[x.e for x in cs])) if cs else False
        return neg(r) if negate else r

    def _m(self, nodes, i, s, p, k):
        if i == len(nodes):
            return k(p)
        op, av = nodes[i]

        def nxt(q):
            return self._m(nodes, i + 1, s, q, k)

        def char(test):
            if p < len(s) and bool(test(s.c[p])):
                return nxt(p + 1)
            return None

        if op is sc.LITERAL:
            return char(lambda c: eqc(c, av))
        if op is sc.NOT_LITERAL:
            return char(lambda c: neg(eqc(c, av)))
        if op is sc.ANY:
            return char(lambda c: True if self.flags & re.DOTALL else neg(eqc(c, 10)))
        if op is sc.IN:
            return char(lambda c: self._in(av, c))
        if op is sc.AT:
            multi = self.flags & re.MULTILINE
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = p == 0 or (av is sc.AT_BEGINNING and multi and bool(eqc(s.c[p - 1], 10)))
            elif av is sc.AT_END_STRING:
                ok = p == len(s)
            elif av is sc.AT_END:
                ok = p == len(s) or (p == len(s) - 1 and bool(eqc(s.c[p], 10))) or (bool(multi) and bool(eqc(s.c[p], 10)))
            else:
                raise Unsupported(str(av))
            return nxt(p) if ok else None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, q):
                def more():
                    if n < hi:
                        return self._m(sub, 0, s, q, lambda r: rep(n + 1, r) if (r > q or n < lo) else None)
                    return None

                if op is sc.MAX_REPEAT:
                    r = more()
                    if r is not None:
                        return r
                    return nxt(q) if n >= lo else None
                if n >= lo:
                    r = nxt(q)
                    if r is not None:
                        return r
                return more()

            return rep(0, p)
        if op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            return self._m(list(av[3]), 0, s, p, nxt)
        if op is sc.BRANCH:
            for b in av[1]:
                r = self._m(list(b), 0, s, p, nxt)
                if r is not None:
                    return r
            return None
        if op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] == 1:
            r = self._m(list(av[1]), 0, s, p, lambda q: q)
            return nxt(p) if (r is not None) == (op is sc.ASSERT) else None
        raise Unsupported(str(op))

    def _run(self, s, p, full):
        if self.flags & re.IGNORECASE or not isinstance(self.pattern, str):
            raise Unsupported("flags")
        nodes = list(sre_parse.parse(self.pattern, self.flags & ~re.UNICODE & ~re.DEBUG))
        e = self._m(nodes, 0, s, p, lambda q: q if not full or q == len(s) else None)
        return None if e is None else Match(s, p, e)

    def match(self, string):
        return self._run(string, 0, False) if isinstance(string, SymStr) else self.real.match(string)

    def fullmatch(self, string):
        return self._run(string, 0, True) if isinstance(string, SymStr) else self.real.fullmatch(string)

    def search(self, string):
        if not isinstance(string, SymStr):
            return self.real.search(string)
        for p in range(len(string) + 1):
            r = self._run(string, p, False)
            if r is not None:
                return r
        return None

    def __getattr__(self, k):
        return getattr(self.real, k)

    def __reduce__(self):
        return (_compile, (self.real.pattern, self.real.flags))


def _compile(p, flags=0):
    return SymPattern(re.compile(p, flags))


class ReShim:
    def __init__(self):
        pass

    @staticmethod
    def compile(pattern, flags=0):
        return pattern if isinstance(pattern, SymPattern) else SymPattern(re.compile(pattern, flags))

    @staticmethod
    def match(pattern, string, flags=0):
        return ReShim.compile(pattern, flags).match(string)

    @staticmethod
    def fullmatch(pattern, string, flags=0):
        return ReShim.compile(pattern, flags).fullmatch(string)

    @staticmethod
    def search(pattern, string, flags=0):
        return ReShim.compile(pattern, flags).search(string)

    def __getattr__(self, k):
        return getattr(re, k)


def any_text(sx, name, n):
    """every text of n characters (no surrogates)"""
    cps = []
    for i in range(n):
        c = sx.int(f"{name}c{i}", lo=0, hi=0x10FFFF)
        sx.assume(sx.Or(c < 0xD800, c > 0xDFFF))
        cps.append(c)
    return SymStr(cps) if sx.symbolic else "".join(map(chr, cps))
