"""Loading /repo's sawatabi for checking.

load(symbolic=True): modules are compiled from the current source with calls
of the builtins float/int/round redirected to symbolic-aware versions, and
the modules' `math`/`np`/`numpy` globals replaced by shims that accept
symbolic numbers (everything else of math/numpy is the real thing).
load(symbolic=False): the unmodified source (no cached bytecode either).
"""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("VP_REPO", "/repo")
os.environ.setdefault("NO_GCE_CHECK", "true")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

_REDIRECT = {"float": "__vp_float__", "int": "__vp_int__", "round": "__vp_round__", "str": "__vp_str__", "ord": "__vp_ord__"}


class _Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _REDIRECT:
            node.func = ast.copy_location(ast.Name(id=_REDIRECT[node.func.id], ctx=ast.Load()), node.func)
        # int/float handed to Beam's or Python's map and filter
        f = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id if isinstance(node.func, ast.Name) else ""
        if f in ("Map", "FlatMap", "Filter", "map", "filter"):
            node.args = [ast.copy_location(ast.Name(id=_REDIRECT[a.id], ctx=ast.Load()), a) if isinstance(a, ast.Name) and a.id in _REDIRECT else a for a in node.args]
        return node


    def visit_Compare(self, node):
        """membership in text: a in b"""
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=ast.Name(id="__vp_in__", ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    symbolic = False

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if self.symbolic:
            tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        if self.symbolic:
            from . import sym, symstr

            module.__dict__["__vp_str__"] = symstr.sym_str
            module.__dict__["__vp_ord__"] = symstr.sym_ord
            module.__dict__["__vp_in__"] = symstr.sym_in
            module.__dict__["__vp_float__"] = sym.sym_float
            module.__dict__["__vp_int__"] = sym.sym_int
            module.__dict__["__vp_round__"] = sym.sym_round
        super().exec_module(module)


class _SymLoader(_Loader):
    symbolic = True


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, loader):
        self.loader = loader

    def find_spec(self, fullname, path, target=None):
        if fullname != "sawatabi" and not fullname.startswith("sawatabi."):
            return None
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=self.loader(fullname, fn), submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(fullname, fn, loader=self.loader(fullname, fn))
        return None


class _Shim(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_vp_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._vp_real, k)

    def __reduce__(self):
        return _shim_named, (self._vp_real.__name__,)


_SHIMS = {}


def _shim_named(name):
    return _SHIMS[name]


def _has_sym(x):
    from . import sym

    if sym.is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    if type(x).__name__ == "ndarray" and x.dtype == object:
        return True
    return False


def _np_shim(np):
    from . import sym

    def un(name, f):
        real = getattr(np, name)

        def g(x, *a, **k):
            if sym.is_sym(x):
                return f(x)
            if type(x).__name__ == "ndarray" and x.dtype == object or (isinstance(x, (list, tuple)) and _has_sym(x)):
                arr = np.array(x, dtype=object)
                out = np.empty(arr.shape, dtype=object)
                for i in np.ndindex(arr.shape):
                    out[i] = f(arr[i])
                return out
            return real(x, *a, **k)

        return g

    def bi(name, f):
        real = getattr(np, name)

        def g(a, b, *r, **k):
            if _has_sym(a) or _has_sym(b):
                if sym.is_sym(a) or sym.is_sym(b):
                    if not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
                        if not (hasattr(a, "shape") and getattr(a, "shape", ()) != ()) and not (
                                hasattr(b, "shape") and getattr(b, "shape", ()) != ()):
                            return f(a, b, **k)
                A, B = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
                out = np.empty(A.shape, dtype=object)
                for i in np.ndindex(A.shape):
                    out[i] = f(A[i], B[i], **k)
                return out
            return real(a, b, *r, **k)

        return g

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        d = abs(a - b)
        return d <= atol + rtol * abs(b)

    def mk(name):
        real = getattr(np, name)

        def g(*a, **k):
            dt = k.get("dtype", a[1] if len(a) > 1 and name != "full" else (a[2] if name == "full" and len(a) > 2 else None))
            if dt is None or dt is float or dt == "float" or dt is np.float64:
                r = real(*a, **k)
                if hasattr(r, "dtype") and r.dtype == np.float64:
                    return r.astype(object)
                return r
            return real(*a, **k)

        return g

    def arr(name):
        real = getattr(np, name)

        def g(x, *a, **k):
            if _has_sym(x):
                k.pop("dtype", None)
                return real(x, dtype=object)
            return real(x, *a, **k)

        return g

    def cast(name):
        real = getattr(np, name)

        class M(type(real)):
            pass

        def g(x=0.0):
            return x if sym.is_sym(x) else real(x)

        return g

    over = {
        "exp": un("exp", sym.sym_exp), "sqrt": un("sqrt", sym.sym_sqrt), "abs": un("abs", abs),
        "absolute": un("absolute", abs), "fabs": un("fabs", abs), "negative": un("negative", lambda x: -x),
        "square": un("square", lambda x: x * x), "floor": un("floor", sym.sym_floor), "ceil": un("ceil", sym.sym_ceil),
        "isnan": un("isnan", sym.sym_isnan), "isinf": un("isinf", sym.sym_isinf), "isfinite": un("isfinite", sym.sym_isfinite),
        "isclose": bi("isclose", isclose), "add": bi("add", lambda a, b: a + b), "subtract": bi("subtract", lambda a, b: a - b),
        "multiply": bi("multiply", lambda a, b: a * b), "divide": bi("divide", lambda a, b: a / b),
        "true_divide": bi("true_divide", lambda a, b: a / b),
        "maximum": bi("maximum", lambda a, b: a if a >= b else b), "minimum": bi("minimum", lambda a, b: a if a <= b else b),
        "zeros": mk("zeros"), "ones": mk("ones"), "full": mk("full"), "empty": mk("empty"),
        "array": arr("array"), "asarray": arr("asarray"),
    }
    return _Shim(np, over)


def _math_shim(math):
    from . import sym

    over = {
        "exp": sym.sym_exp, "sqrt": sym.sym_sqrt, "isclose": sym.sym_isclose, "isnan": sym.sym_isnan,
        "isinf": sym.sym_isinf, "isfinite": sym.sym_isfinite, "fsum": sym.sym_fsum, "floor": sym.sym_floor,
        "ceil": sym.sym_ceil, "trunc": sym.sym_int, "fabs": lambda x: sym.sym_float(abs(x)), "copysign": sym.sym_copysign,
    }
    return _Shim(math, over)


def load(symbolic):
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(_SymLoader if symbolic else _Loader))
    import importlib.util  # noqa: F401

    import sawatabi

    assert os.path.realpath(sawatabi.__file__) == os.path.realpath(os.path.join(REPO, "sawatabi", "__init__.py"))
    import sawatabi.algorithm
    import sawatabi.model
    import sawatabi.solver
    import sawatabi.utils

    if symbolic:
        import math

        import dimod
        import numpy as np

        dimod.BinaryQuadraticModel.DEFAULT_DTYPE = object
        from dimod.binary import pybqm

        def energies(self, samples_like, dtype=None):
            """the same sums as dimod's, over objects (dimod mixes dtypes here)"""
            samples, labels = dimod.as_samples(samples_like)
            at = {v: i for i, v in enumerate(labels)}
            if not at.keys() >= self._adj.keys():
                raise ValueError("missing variable in sample(s)")
            out = np.empty(len(samples), dtype=object)
            for r, row in enumerate(samples):
                e = self.offset
                for v in self._adj:
                    e = e + self.get_linear(v) * int(row[at[v]])
                for u, v, b in self.iter_quadratic():
                    e = e + b * (int(row[at[u]]) * int(row[at[v]]))
                out[r] = e
            return out

        pybqm.pyBQM.energies = energies
        npx, mathx = _np_shim(np), _math_shim(math)
        import re

        import json

        from . import symjson, symstr

        jsonx = _Shim(json, {"loads": symjson.loads})
        rex = symstr.ReShim()
        _SHIMS.update({"json": jsonx, "numpy": npx, "math": mathx})
        patt = type(re.compile(""))
        fnmap = {id(getattr(math, k)): v for k, v in mathx.__dict__.items() if not k.startswith("_") and hasattr(math, k)}
        fnmap.update({id(getattr(np, k)): v for k, v in npx.__dict__.items() if not k.startswith("_") and hasattr(np, k)})
        for n, m in list(sys.modules.items()):
            if (n == "sawatabi" or n.startswith("sawatabi.")) and m is not None:
                for k, v in list(m.__dict__.items()):
                    if v is np:
                        m.__dict__[k] = npx
                    elif v is math:
                        m.__dict__[k] = mathx
                    elif v is json:
                        m.__dict__[k] = jsonx
                    elif v is json.loads:
                        m.__dict__[k] = symjson.loads
                    elif v is re:
                        m.__dict__[k] = rex
                    elif isinstance(v, patt):
                        m.__dict__[k] = rex.compile(v.pattern, v.flags)
                    elif v in (re.compile, re.match, re.fullmatch, re.search) if callable(v) else False:
                        m.__dict__[k] = getattr(rex, v.__name__)
                    elif id(v) in fnmap and callable(v):
                        m.__dict__[k] = fnmap[id(v)]
    return sawatabi
