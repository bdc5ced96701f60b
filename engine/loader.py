"""Loads two copies of the package under test from /repo's working tree: a plain
one (concrete replays) and one whose module namespaces see the symbolic shims."""
import ast
import builtins
import importlib
import importlib.machinery
import os
import sys
import types
import tempfile

import numpy as np

from . import core, merge, npshim
from .core import SymInt, SymBool, SymReal, is_sym, ite

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "MahjongAI"

sys.dont_write_bytecode = True


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, SymInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class IntShim(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, np.ndarray) and x.dtype == object:
            return IntShim(x.item())
        if isinstance(x, str):
            t = core.parse_token(x)
            if t is not None:
                return t
        if hasattr(x, "_sym_data"):
            return IntShim(x._sym_data().item())
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class FloatShim(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0, *a):
        if isinstance(x, (SymInt, SymReal)):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, str):
            t = core.parse_token(x)
            if t is not None:
                return t
        if isinstance(x, np.ndarray) and x.dtype == object:
            return FloatShim(x.item())
        return float(x, *a)


def _minmax(name, real, better):
    def f(*a, **k):
        if k or not a:
            return real(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_sym(x) for x in items):
            return real(*a)
        r = items[0]
        for x in items[1:]:
            r = ite(better(x, r), x, r)
        return r

    f.__name__ = name
    return f


min_shim = _minmax("min", builtins.min, lambda x, r: x < r)
max_shim = _minmax("max", builtins.max, lambda x, r: x > r)


def _round_shim(x, n=None):
    if isinstance(x, SymInt):
        return x
    return builtins.round(x, n) if n is not None else builtins.round(x)


class _SymRange:
    """range() with symbolic ends: the ends are compared as the loop goes"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        x = self.start
        while (x < self.stop) if self.step > 0 else (x > self.stop):
            yield x
            x = x + self.step


def range_shim(*a):
    if not any(isinstance(x, (SymInt, SymBool)) for x in a):
        return range(*a)
    a = [x.as_int() if isinstance(x, SymBool) else x for x in a]
    if len(a) == 1:
        a = [0] + a
    step = a[2] if len(a) > 2 else 1
    if is_sym(step):
        step = step.__index__()
    if all(not is_sym(x) or x.hi - x.lo <= 4096 for x in a[:2]):
        # small counters: fork once over the values, as indexing would
        return range(*[x.__index__() if is_sym(x) else x for x in a[:2]], step)
    return _SymRange(a[0], a[1], step)


BUILTIN_SHIMS = {"int": IntShim, "float": FloatShim, "min": min_shim, "max": max_shim, "round": _round_shim, "range": range_shim}


def _quiet_print(*a, **k):
    pass


def _purge():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]


class ModuleSet:
    """Attribute access by dotted name without the package prefix."""

    def __init__(self, mods, symbolic):
        self._mods = mods
        self.symbolic = symbolic

    def __call__(self, name):
        return self._mods[PKG + "." + name]

    def activate(self):
        _purge()
        sys.modules.update(self._mods)


class _Displays(ast.NodeTransformer):
    """Constant sets, dicts and lists written out in functions become ones that can be
    read under symbolic keys (the same for plain keys)."""

    @staticmethod
    def _const(n):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            n = n.operand
        return isinstance(n, ast.Constant)

    @staticmethod
    def _num(n):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            n = n.operand
        return isinstance(n, ast.Constant) and isinstance(n.value, (int, float))

    def _call(self, name, node):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node), args=[node], keywords=[]), node)

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(self._const(e) for e in n.elts) and any(self._num(e) for e in n.elts):
            return self._call("__verif_set__", ast.copy_location(ast.Tuple(elts=n.elts, ctx=ast.Load()), n))
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(k is not None and self._num(k) for k in n.keys):
            return self._call("__verif_dict__", n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, (ast.List, ast.Tuple)) and not any(isinstance(e, ast.Starred) for e in n.value.elts):
            n.value = self._call("__verif_seq__", n.value)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.List) and len(v.elts) > 3 and all(self._num(e) for e in v.elts):
            n.value = self._call("__verif_seq__", v)
        return n


# modules whose counting code is merged (engine/merge.py)
COUNTING = ("shanten.py",)
DISPLAYS = {"__verif_set__": npshim.SymSet, "__verif_dict__": npshim.SymDict, "__verif_seq__": npshim.SymSeq}


class _Sources:
    """While active, modules of the package are compiled from their current source,
    with the constants above made readable."""

    def __enter__(self):
        L = importlib.machinery.SourceFileLoader
        self.old = L.__dict__.get("get_code")
        base = L.get_code
        root = os.path.realpath(REPO) + os.sep + PKG + os.sep

        def get_code(loader, fullname):
            path = loader.get_filename(fullname)
            if not os.path.realpath(path).startswith(root):
                return base(loader, fullname)
            t = ast.parse(loader.get_data(path), path)
            t = _Displays().visit(t)
            if os.path.basename(path) in COUNTING:
                t = merge.Merge().visit(t)
            t = ast.fix_missing_locations(t)
            builtins.__dict__.update(DISPLAYS)
            builtins.__dict__.update(merge.NAMES)
            return compile(t, path, "exec", dont_inherit=True)

        L.get_code = get_code

    def __exit__(self, *a):
        L = importlib.machinery.SourceFileLoader
        if self.old is None:
            del L.get_code
        else:
            L.get_code = self.old


def load(names, symbolic, torch_shim=None):
    """Import the named modules freshly and (symbolic) patch their namespaces."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    _purge()
    if symbolic and torch_shim is not None:
        torch_shim.install()
    try:
        if symbolic:
            with _Sources():
                for n in names:
                    importlib.import_module(PKG + "." + n)
        else:
            for n in names:
                importlib.import_module(PKG + "." + n)
    finally:
        if symbolic and torch_shim is not None:
            torch_shim.remove()
    mods = {m: sys.modules[m] for m in list(sys.modules) if m == PKG or m.startswith(PKG + ".")}
    for m in mods.values():
        f = getattr(m, "__file__", None)
        if f and not os.path.realpath(f).startswith(os.path.realpath(REPO)):
            raise RuntimeError("module %s loaded from %s, not from %s" % (m.__name__, f, REPO))
    if symbolic:
        patch(mods)
    ms = ModuleSet(mods, symbolic)
    return ms


def patch(mods):
    shim_np = npshim.NumpyShim()
    memo = {}

    def conv(v):
        if isinstance(v, np.ndarray) and not isinstance(v, npshim.SymArray):
            if id(v) not in memo:
                memo[id(v)] = (npshim.wrap(np.array(v, dtype=object) if v.dtype == object else v.astype(object)), v)
                a = memo[id(v)][0]
                for i in np.ndindex(*a.shape):
                    x = np.ndarray.__getitem__(a, i)
                    n = core.norm(x)
                    if isinstance(x, (bool, np.bool_)):
                        n = bool(x)
                    if n is not None:
                        np.ndarray.__setitem__(a, i, n)
            return memo[id(v)][0]
        if type(v) is list and v and all(isinstance(x, (int, float, list, tuple)) for x in v) and len(v) > 3:
            if id(v) not in memo:
                memo[id(v)] = (npshim.SymSeq(v), v)
            return memo[id(v)][0]
        if type(v) in (set, frozenset) and v and all(isinstance(x, (int, float, str)) for x in v) and any(isinstance(x, int) for x in v):
            return memo.setdefault(id(v), (npshim.SymSet(v), v))[0]
        if type(v) is dict and v and all(isinstance(x, int) for x in v):
            return memo.setdefault(id(v), (npshim.SymDict(v), v))[0]
        return None

    for m in mods.values():
        d = m.__dict__
        for k in list(d):
            v = d[k]
            if v is np:
                d[k] = shim_np
            else:
                c = conv(v)
                if c is not None:
                    d[k] = c
                elif callable(v) and getattr(v, "__module__", "").split(".")[0] == "numpy":
                    r = npshim._TABLE.get(v) if not isinstance(v, type) else None
                    if r is not None:
                        d[k] = r
        for k, v in BUILTIN_SHIMS.items():
            if k not in d:
                d[k] = v
        d.setdefault("print", _quiet_print)
        for v in list(d.values()):
            if isinstance(v, type) and getattr(v, "__module__", None) == m.__name__:
                for k2, v2 in list(vars(v).items()):
                    c = conv(v2)
                    if c is not None:
                        setattr(v, k2, c)
    for m in mods.values():
        for f in _functions(m):
            if f.__defaults__:
                f.__defaults__ = tuple((conv(x) if conv(x) is not None else x) for x in f.__defaults__)


def _functions(m):
    for v in list(m.__dict__.values()):
        if isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
            yield v
        elif isinstance(v, type) and getattr(v, "__module__", None) == m.__name__:
            for w in list(vars(v).values()):
                if isinstance(w, (staticmethod, classmethod)):
                    w = w.__func__
                if isinstance(w, types.FunctionType):
                    yield w


# ------------------------------------------------------------------ coverage
class Coverage:
    """Functions and lines of /repo executed while a SymContext is active."""

    TOOL = 4

    def __init__(self):
        self.funcs = {}
        self.lines = set()
        self.on = False
        root = os.path.realpath(REPO) + os.sep + PKG
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return

        def start(code, off):
            if code.co_filename.startswith(root) and self.on:
                self.funcs[(code.co_filename[len(root) + 1 :], code.co_qualname)] = code.co_firstlineno
                return mon.DISABLE
            if not code.co_filename.startswith(root):
                return mon.DISABLE

        def line(code, ln):
            if code.co_filename.startswith(root):
                if self.on:
                    self.lines.add((code.co_filename[len(root) + 1 :], ln))
                    return mon.DISABLE
                return
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.PY_START | mon.events.LINE)
