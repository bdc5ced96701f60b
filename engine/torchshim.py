"""torch stand-ins that carry symbolic elements.

The modules under test are imported with these in the place of torch, torch.nn and
torch.nn.functional, so class bodies, module constructors and all tensor code run
as written.  A SymTensor holds an npshim.SymArray (views alias as in torch) and a
real torch dtype.  Learned layers (Linear, Conv, LayerNorm, attention products)
return a *havoc* tensor: only its shape is known, its elements may be anything;
looking at one is an error, so no check can depend on what a layer computes.
Embedding and Linear layers whose weights a check sets are computed exactly.
"""
import math
import sys
import types
from collections import namedtuple
from fractions import Fraction

import numpy as np
import torch as real

from . import core, npshim
from .core import And, Or, Not, SymBool, SymInt, SymReal, Unsupported, is_sym, ite
from .npshim import SymArray, SymSeq, _ARITH, _CMP, _FUNCS, _elementwise, _reduce, _to_obj_array, _tobool

BIG = 10**30

INTS = {real.uint8: (0, 255), real.int8: (-128, 127), real.int16: (-32768, 32767), real.int32: (-(2**31), 2**31 - 1), real.int64: None}
for _n, _r in (("uint16", (0, 65535)), ("uint32", (0, 2**32 - 1))):
    if hasattr(real, _n):
        INTS[getattr(real, _n)] = _r
FLOATS = {real.float32: None, real.float64: None, real.float16: 11, real.bfloat16: 8}
PYTYPES = {bool: real.bool, int: real.int64, float: real.float32}


def as_dtype(d):
    if d is None or isinstance(d, real.dtype):
        return d
    if isinstance(d, type) and issubclass(d, bool):
        return real.bool
    if isinstance(d, type) and issubclass(d, int):
        return real.int64
    if isinstance(d, type) and issubclass(d, float):
        return real.float32
    raise Unsupported("dtype %r" % (d,))


def bounds(v):
    if isinstance(v, SymInt):
        return v.lo, v.hi
    if isinstance(v, (int, float, Fraction)):
        return v, v
    return None


def cast1(v, dt):
    """element v as a value of dtype dt"""
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if dt == real.bool:
        return _tobool(v)
    if isinstance(v, SymBool):
        v = v.as_int()
    elif isinstance(v, bool):
        v = int(v)
    if dt in INTS:
        if isinstance(v, SymReal):
            raise Unsupported("cast of a symbolic real to an integer type")
        if isinstance(v, (float, Fraction)):
            v = int(v)
        r = INTS[dt]
        if r is not None:
            lo, hi = bounds(v)
            if lo < r[0] or hi > r[1]:
                v = (v - r[0]) % (r[1] - r[0] + 1) + r[0]
        return v
    if dt in FLOATS:
        if isinstance(v, float):
            if v == math.inf:
                return BIG
            if v == -math.inf:
                return -BIG
            if v == v and v == int(v):
                v = int(v)
        m = FLOATS[dt]
        if m is not None:
            b = bounds(v)
            if b is None:
                raise Unsupported("half precision of a symbolic real")
            top = max(abs(b[0]), abs(b[1]))
            if isinstance(v, (float, Fraction)):
                return float(real.tensor(float(v), dtype=dt))
            k = 1
            out = v
            while (1 << (m + k - 1)) <= top:
                s = 1 << k
                neg = v < 0
                x = ite(neg, -v, v)
                q, r = x // s, x % s
                up = Or(r > s // 2, And(r == s // 2, q % 2 == 1))
                y = (q + ite(up, 1, 0)) * s
                out = ite(x >= (1 << (m + k - 1)), ite(neg, -y, y), out)
                k += 1
            return out
        return v
    raise Unsupported("dtype %r" % (dt,))


def _exact(dt):
    """casting an int/bool element to dt leaves it as it is"""
    return dt in (real.int64, real.float32, real.float64)


def cast(a, dt, src=None):
    a = np.asarray(a).view(np.ndarray)
    if src is not None and src == dt:
        return a
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = cast1(a[i], dt)
    return out


def infer(a):
    kind = 0
    for v in a.flat:
        if isinstance(v, (bool, np.bool_, SymBool)):
            k = 0
        elif isinstance(v, (int, np.integer, SymInt)):
            k = 1
        else:
            k = 2
        kind = max(kind, k)
        if kind == 2:
            break
    if a.size == 0:
        kind = 2
    return (real.bool, real.int64, real.float32)[kind]


def _sh(shape):
    c = core.ctx()
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, real.Size)):
        shape = tuple(shape[0])
    return tuple(int(c.concretize(s)) if is_sym(s) else int(s) for s in shape)


def _cat_of(d):
    return 2 if d in FLOATS else 1 if d in INTS else 0


def _promote(x, y):
    """dtype of an operation between two operands (tensor or python scalar)."""

    def info(v):
        if isinstance(v, SymTensor):
            return v.dtype, 1 if v.ndim else 0
        if isinstance(v, (bool, SymBool)):
            return real.bool, -1
        if isinstance(v, (int, SymInt)):
            return real.int64, -1
        return real.float32, -1

    (d1, p1), (d2, p2) = info(x), info(y)
    if p1 == p2:
        return real.promote_types(d1, d2)
    hi, lo = (d1, d2) if p1 > p2 else (d2, d1)
    if _cat_of(lo) > _cat_of(hi):
        return real.float32 if _cat_of(lo) == 2 else lo
    return hi


def _mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymBool):
            return ite(x, y, 0)
        if isinstance(x, (bool, int)) and not isinstance(x, SymInt):
            if x == 0:
                return 0
            if x == 1:
                return y
        if isinstance(x, SymInt) and x.lo >= 0 and x.hi <= 1:
            return ite(x == 1, y, 0)
    if LAYERS.on and isinstance(a, SymReal) and isinstance(b, SymReal):
        return LAYERS.scalar("mul", a, b)
    return a * b


def _div(a, b):
    if LAYERS.on and isinstance(b, SymReal):
        return LAYERS.scalar("div", a, b)
    return _ARITH["divide"](a, b)


def _pow(a, b):
    if LAYERS.on and isinstance(a, SymReal) and not is_sym(b):
        return LAYERS.scalar("pow%r" % (b,), a)
    return _ARITH["power"](a, b)


def _remainder(a, b):
    return a % b


_OPS = {
    "add": _ARITH["add"],
    "sub": _ARITH["subtract"],
    "mul": _mul,
    "div": _div,
    "floordiv": _ARITH["floor_divide"],
    "mod": _ARITH["mod"],
    "lshift": _ARITH["left_shift"],
    "rshift": _ARITH["right_shift"],
    "pow": _pow,
    "and": _FUNCS["bitwise_and"],
    "or": _FUNCS["bitwise_or"],
    "xor": lambda a, b: Not(core.Iff(a, b)) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else a ^ b,
    "maximum": _FUNCS["maximum"],
    "minimum": _FUNCS["minimum"],
}
_COMPARE = {"eq": _CMP["equal"], "ne": _CMP["not_equal"], "lt": _CMP["less"], "le": _CMP["less_equal"], "gt": _CMP["greater"], "ge": _CMP["greater_equal"]}

_Pair = namedtuple("values_indices", ["values", "indices"])


_LSE = {}


def lse(row):
    """ln(sum of exp) of numbers.  Of symbolic ones, a function of which only this is known:
    adding a number to all of them adds it to the result."""
    if not any(is_sym(x) for x in row):
        m = max(row)
        return m if m in (BIG, -BIG) else m + math.log(sum(math.exp(x - m) for x in row))
    xs = [core.SymReal.lift(x) for x in row]
    n = len(xs)
    if n == 1:
        return xs[0]
    if n not in _LSE:
        R = core.z3.RealSort()
        _LSE[n] = core.z3.Function("lse%d" % n, *([R] * n))
    return xs[0] + core.SymReal(_LSE[n](*[(x - xs[0]).e for x in xs[1:]]))


class Layers:
    """What learned layers compute, as unknown functions: one per layer and output, of the
    whole vector the layer is given.  Each use is a fresh number and a fact that defines it
    (c == f(vector)); equal vectors give equal numbers by the solver's congruence."""

    def __init__(self):
        z3 = core.z3
        self.V = z3.DeclareSort("Vector")
        self.on = False
        self.n = 0
        self.facts = []
        self.fns = {}
        self.uids = {}

    def start(self):
        self.on, self.n, self.facts, self.uids = True, 0, [], {}

    def uid(self, *ps):
        """a name for the parameters of a layer"""
        out = []
        for p in ps:
            if p is not None:
                if id(p) not in self.uids:
                    self.uids[id(p)] = (len(self.uids), p)
                out.append(self.uids[id(p)][0])
        return tuple(out)

    def fn(self, key, *sorts):
        k = (key,) + tuple(map(str, sorts))
        if k not in self.fns:
            self.fns[k] = core.z3.Function("f%d" % len(self.fns), *sorts)
        return self.fns[k]

    def new(self, sort):
        self.n += 1
        return core.z3.Const("c!%d" % self.n, sort)

    def num(self):
        return SymReal(self.new(core.z3.RealSort()))

    def pack(self, xs):
        R = core.z3.RealSort()
        es = [core.SymReal.lift(x).e for x in xs]
        v = self.new(self.V)
        self.facts.append(v == self.fn("pack%d" % len(es), *([R] * len(es) + [self.V]))(*es))
        return v

    def weights(self, p):
        """what a layer's parameter holds; a matrix as a table of its rows"""
        key, shape = ("table",) + self.uid(p), tuple(p._shape)
        out = np.empty(shape, dtype=object)
        for r in range(shape[0]):
            v = self.index(r)
            for j in np.ndindex(*shape[1:]):
                out[(r,) + j] = self.app((key, j[0]) if len(j) == 1 else (key, j), v)
        return out.view(SymArray)

    def index(self, k):
        """the vector a table holds at position k"""
        e = core._ext(k, 64) if isinstance(k, SymInt) else core.z3.BitVecVal(int(k), 64)
        v = self.new(self.V)
        self.facts.append(v == self.fn("at", core.z3.BitVecSort(64), self.V)(e))
        return v

    def app(self, key, *vs):
        c = self.new(core.z3.RealSort())
        self.facts.append(c == self.fn(key, *([v.sort() for v in vs] + [c.sort()]))(*vs))
        return SymReal(c)

    def scalar(self, key, *xs):
        return self.app(key, *[core.SymReal.lift(x).e for x in xs])

    def along(self, key, a, m):
        """rows along the last axis -> m numbers each"""
        a = np.asarray(a).view(np.ndarray)
        out = np.empty(a.shape[:-1] + (m,), dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            v = self.pack(list(a[i]))
            for j in range(m):
                out[i + (j,)] = self.app((key, j), v)
        return out

    def whole(self, key, a, shape):
        """each a[b] -> an array of the shape"""
        a = np.asarray(a).view(np.ndarray)
        out = np.empty((a.shape[0],) + shape, dtype=object)
        for b in range(a.shape[0]):
            v = self.pack(list(a[b].flat))
            for j in np.ndindex(*shape):
                out[(b,) + j] = self.app((key, j), v)
        return out

    def softmax(self, a):
        a = np.asarray(a).view(np.ndarray)
        if a.shape[-1] == 1:
            out = np.empty(a.shape, dtype=object)
            out[...] = 1
            return out
        return self.along("softmax%d" % a.shape[-1], a, a.shape[-1])

    def contract(self, key, sums, ins, outs, ts):
        """einsum: each output element is a function of the slices it is made of"""
        dims = {}
        for names, a in zip(ins, ts):
            for n, d in zip(names, a.shape):
                dims[n] = d
        out = np.empty(tuple(dims[n] for n in outs), dtype=object)
        packs = {}
        for i in np.ndindex(*out.shape):
            at = dict(zip(outs, i))
            vs = []
            for k, (names, a) in enumerate(zip(ins, ts)):
                sel = tuple(at.get(n, slice(None)) for n in names)
                if (k, str(sel)) not in packs:
                    packs[(k, str(sel))] = self.pack(list(np.asarray(a[sel], dtype=object).flat))
                vs.append(packs[(k, str(sel))])
            out[i] = self.app(key, *vs)
        return out


LAYERS = Layers()


def working(*ts):
    """are layers modelled, and do all the tensors have values?"""
    return LAYERS.on and all(t is None or not isinstance(t, SymTensor) or t._a is not None for t in ts)


def havoc(shape, dtype=real.float32, *srcs):
    """A tensor of unknown values.  taint[i] = the symbolic inputs its row i may depend on."""
    t = SymTensor.__new__(SymTensor)
    t._a = None
    t._shape = tuple(int(s) for s in shape)
    t.dtype = dtype
    t.taint = {}
    rows = t._shape[0] if t._shape else 0
    for s in srcs:
        d = taint_of(s)
        if not d:
            continue
        same = t._shape and len(s.shape) and s.shape[0] == rows
        if same:
            for r, v in d.items():
                t.taint[r] = t.taint.get(r, frozenset()) | v
        else:
            v = frozenset().union(*d.values())
            for r in range(rows or 1):
                t.taint[r] = t.taint.get(r, frozenset()) | v
    return t


def taint_of(v):
    if not isinstance(v, SymTensor):
        return {}
    if v._a is None:
        return v.taint
    a = v._a.view(np.ndarray)
    if not a.ndim:
        a = a.reshape(1)
    out = {}
    for r in range(a.shape[0]):
        ids = frozenset(x.e.get_id() for x in np.asarray(a[r], dtype=object).flat if hasattr(x, "e"))
        if ids:
            out[r] = ids
    return out


def is_havoc(v):
    return isinstance(v, SymTensor) and v._a is None


def lift(v):
    """operand -> object ndarray"""
    if isinstance(v, SymTensor):
        return v.a.view(np.ndarray)
    if isinstance(v, np.ndarray):
        return v.view(np.ndarray) if v.dtype == object else v.astype(object)
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        v = cast1(v, real.float32)
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def shape_of(v):
    if isinstance(v, SymTensor):
        return tuple(v.shape)
    return np.shape(v) if isinstance(v, np.ndarray) else ()


class SymTensor:
    __array_priority__ = 10000
    __array_ufunc__ = None
    requires_grad = False
    is_cuda = False
    grad = None
    device = real.device("cpu")

    def __init__(self, a, dtype):
        if not isinstance(a, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = a
            a = b
        self._a = a if isinstance(a, SymArray) else a.view(SymArray)
        self.dtype = dtype

    # ---------------------------------------------------------------- basics
    is_param = False

    @property
    def _a(self):
        if self._val is None and self.is_param and LAYERS.on and 0 < self.numel() <= 5000:
            self._val = LAYERS.weights(self)
        return self._val

    @_a.setter
    def _a(self, v):
        self._val = v

    @property
    def a(self):
        if self._a is None:
            raise Unsupported("the value of a learned layer was inspected")
        return self._a

    def _sym_data(self):
        return self.a

    @property
    def shape(self):
        return real.Size(self._shape if self._val is None else self._val.shape)

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    @property
    def ndim(self):
        return len(self.shape)

    def dim(self):
        return len(self.shape)

    def numel(self):
        n = 1
        for s in self.shape:
            n *= s
        return n

    nelement = numel

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of a 0-d tensor")
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def item(self):
        if self._a is None:
            return 0.5
        if self._a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return np.ndarray.item(self._a)

    def tolist(self):
        return self.a.view(np.ndarray).tolist()

    def numpy(self, **k):
        return self.a

    def __array__(self, *a, **k):
        return self.a.view(np.ndarray)

    def __bool__(self):
        if self.numel() != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(_tobool(self.item()))

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __float__(self):
        return float(self.item())

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<SymTensor %s %s>" % (tuple(self.shape), self.dtype)

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.clone()

    # ---------------------------------------------------------- no-ops, casts
    def _self(self, *a, **k):
        return self

    detach = cpu = cuda = contiguous = requires_grad_ = retain_grad = pin_memory = share_memory_ = _self

    def backward(self, *a, **k):
        return None

    @property
    def data(self):
        return self

    @data.setter
    def data(self, v):
        self._a = v.a
        self.dtype = v.dtype

    def clone(self, *a, **k):
        if self._a is None:
            return havoc(self.shape, self.dtype, self)
        return SymTensor(np.array(self._a.view(np.ndarray), dtype=object, copy=True), self.dtype)

    def to(self, *args, **kw):
        dt = kw.get("dtype")
        for x in args:
            if isinstance(x, real.dtype):
                dt = x
            elif isinstance(x, SymTensor):
                dt = x.dtype
        if dt is None or dt == self.dtype:
            return self
        if self._a is None:
            return havoc(self.shape, dt, self)
        return SymTensor(cast(self._a, dt), dt)

    def type(self, dt=None, **k):
        return self.to(dtype=as_dtype(dt)) if dt is not None else str(self.dtype)

    def type_as(self, o):
        return self.to(dtype=o.dtype)

    def float(self):
        return self.to(real.float32)

    def double(self):
        return self.to(real.float64)

    def half(self):
        return self.to(real.float16)

    def long(self):
        return self.to(real.int64)

    def int(self):
        return self.to(real.int32)

    def short(self):
        return self.to(real.int16)

    def byte(self):
        return self.to(real.uint8)

    def bool(self):
        return self.to(real.bool)

    def is_floating_point(self):
        return self.dtype in FLOATS

    # -------------------------------------------------------------- structure
    def _struct(self, f):
        if self._a is None:
            d = np.broadcast_to(np.zeros((), dtype=object), self._shape)
            return havoc(np.shape(f(d)), self.dtype, self)
        return SymTensor(f(self._a.view(np.ndarray)), self.dtype)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], real.dtype):
            raise Unsupported("view of another dtype")
        s = _sh(s)
        return self._struct(lambda x: x.reshape(s))

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        s = list(self.shape)
        n = len(s)
        if n == 0:
            return self.view(1)
        a, b = start_dim % n, end_dim % n
        m = 1
        for v in s[a : b + 1]:
            m *= v
        return self.view(*(s[:a] + [m] + s[b + 1 :]))

    def ravel(self):
        return self.view(-1)

    def unflatten(self, dim, sizes):
        s = list(self.shape)
        dim %= len(s)
        return self.view(*(s[:dim] + list(sizes) + s[dim + 1 :]))

    def unsqueeze(self, dim):
        return self._struct(lambda x: np.expand_dims(x, dim))

    def squeeze(self, dim=None):
        if dim is None:
            return self._struct(lambda x: np.squeeze(x))
        return self._struct(lambda x: np.squeeze(x, dim) if x.shape[dim] == 1 else x)

    def transpose(self, a, b):
        return self._struct(lambda x: np.swapaxes(x, a, b))

    swapaxes = transpose

    def t(self):
        return self._struct(lambda x: x.T)

    @property
    def T(self):
        return self.t()

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def permute(self, *d):
        d = _sh(d)
        return self._struct(lambda x: np.transpose(x, d))

    def movedim(self, a, b):
        return self._struct(lambda x: np.moveaxis(x, a, b))

    def expand(self, *s):
        s = _sh(s)
        cur = (1,) * (len(s) - self.ndim) + tuple(self.shape)
        s = tuple(c if v == -1 else v for v, c in zip(s, cur))
        return self._struct(lambda x: np.broadcast_to(x, s))

    def expand_as(self, o):
        return self.expand(*o.shape)

    broadcast_to = expand

    def repeat(self, *n):
        n = _sh(n)
        return self._struct(lambda x: np.tile(x, n))

    tile = repeat

    def repeat_interleave(self, n, dim=None):
        return self._struct(lambda x: np.repeat(x, n, axis=dim))

    def roll(self, shifts, dims=None):
        shifts = core.ctx().concretize(shifts) if is_sym(shifts) else shifts
        return self._struct(lambda x: np.roll(x, shifts, dims))

    def flip(self, *d):
        d = _sh(d)
        return self._struct(lambda x: np.flip(x, d))

    def narrow(self, dim, start, length):
        k = [slice(None)] * self.ndim
        k[dim] = slice(start, start + length)
        return self[tuple(k)]

    def select(self, dim, i):
        k = [slice(None)] * self.ndim
        k[dim] = i
        return self[tuple(k)]

    def unbind(self, dim=0):
        return tuple(self.select(dim, i) for i in range(self.shape[dim]))

    def split(self, n, dim=0):
        size = self.shape[dim]
        cuts = [n] * ((size + n - 1) // n) if isinstance(n, int) else list(n)
        out, p = [], 0
        for c in cuts:
            c = min(c, size - p)
            out.append(self.narrow(dim, p, c))
            p += c
        return tuple(out)

    def chunk(self, n, dim=0):
        return self.split(-(-self.shape[dim] // n), dim)

    # --------------------------------------------------------------- indexing
    @staticmethod
    def _key(k):
        if isinstance(k, SymTensor):
            if k.ndim == 0 and k.dtype != real.bool:
                return k.item()
            if k.dtype == real.bool:
                b = np.empty(k.a.shape, dtype=bool)
                for i in np.ndindex(*b.shape):
                    b[i] = bool(np.ndarray.__getitem__(k.a, i))
                return b
            v = k.a.view(np.ndarray)
            if not any(is_sym(x) for x in v.flat):
                return v.astype(np.int64)
            return v
        if isinstance(k, SymArray):
            return SymTensor._key(SymTensor(k, infer(k)))
        if isinstance(k, (list, SymSeq)):
            return SymTensor._key(tensor(k))
        if isinstance(k, slice):
            c = core.ctx()
            f = lambda v: (c.concretize(v) if is_sym(v) else v.item() if isinstance(v, SymTensor) else v)
            return slice(f(k.start), f(k.stop), f(k.step))
        return k

    def __getitem__(self, key):
        kt = tuple(self._key(k) for k in key) if isinstance(key, tuple) else self._key(key)
        if self._a is None:
            d = np.broadcast_to(np.zeros((), dtype=object), self._shape)
            f = lambda k: 0 if is_sym(k) else np.zeros(k.shape, dtype=int) if isinstance(k, np.ndarray) and k.dtype == object else k
            k2 = tuple(f(k) for k in kt) if isinstance(kt, tuple) else f(kt)
            return havoc(np.shape(d[k2]), self.dtype, self)
        first = kt[0] if isinstance(kt, tuple) and kt else kt
        rest = kt[1:] if isinstance(kt, tuple) else ()
        if isinstance(first, np.ndarray) and first.dtype == object and all(isinstance(r, slice) and r == slice(None) for r in rest):
            return SymTensor(_rows(self._a, first), self.dtype)
        if isinstance(first, SymInt) and self.ndim > 1 and not rest:
            i = np.empty((), dtype=object)
            i[()] = first
            return SymTensor(_rows(self._a, i), self.dtype)
        if isinstance(kt, tuple) and len(kt) > 1 and any(isinstance(k, np.ndarray) and k.dtype == object for k in kt):
            return SymTensor(_points(self._a, kt), self.dtype)
        r = self._a[kt]
        return SymTensor(r, self.dtype)

    def __setitem__(self, key, value):
        kt = tuple(self._key(k) for k in key) if isinstance(key, tuple) else (key if isinstance(key, SymTensor) and key.dtype == real.bool else self._key(key))
        if is_havoc(value):
            raise Unsupported("storing a learned value")
        v = cast(lift(value), self.dtype)
        if v.ndim == 0:
            v = v.item()
        if isinstance(kt, SymTensor):
            self.a[kt.a] = v
            return
        while isinstance(v, np.ndarray) and v.ndim and v.shape[0] == 1 and v.size == 1:
            v = v[0]
        self.a[kt] = v

    # -------------------------------------------------------------- arithmetic
    def _bin(self, o, op, swap=False):
        if isinstance(o, (list, tuple)) or o is None or isinstance(o, str):
            return NotImplemented
        x, y = (o, self) if swap else (self, o)
        if isinstance(o, np.ndarray):
            o2 = SymTensor(o.astype(object) if o.dtype != object else o, infer(np.asarray(o, dtype=object)))
            x, y = (o2, self) if swap else (self, o2)
        dt = _promote(x, y)
        if op == "div" and dt not in FLOATS:
            dt = real.float32
        if is_havoc(x) or is_havoc(y):
            return havoc(np.broadcast_shapes(shape_of(x), shape_of(y)), dt, x, y)
        if dt == real.bool and op in ("add", "mul"):
            f = Or if op == "add" else And
        else:
            f = _OPS[op]
            if dt != real.bool:
                g = f
                u = lambda v: v.as_int() if isinstance(v, SymBool) else int(v) if isinstance(v, bool) else v
                f = lambda a, b: g(u(a), u(b))
        r = _elementwise(f, lift(x), lift(y))
        if dt not in FLOATS or FLOATS[dt] is not None:
            if not _exact(dt):
                r = cast(r, dt) if isinstance(r, np.ndarray) else cast1(r, dt)
        return SymTensor(r, dt)

    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            return NotImplemented
        if is_havoc(self) or is_havoc(o):
            return havoc(np.broadcast_shapes(shape_of(self), shape_of(o)), real.bool, self, o)
        u = lambda v: v.as_int() if isinstance(v, SymBool) else int(v) if isinstance(v, bool) else v
        f = _COMPARE[op]
        return SymTensor(_elementwise(lambda a, b: f(u(a), u(b)), self.a.view(np.ndarray), lift(o)), real.bool)

    def _inplace(self, op):
        def f(self, o):
            r = self._bin(o, op)
            if r._a is None:
                self._a, self._shape, self.taint = None, tuple(r.shape), r.taint
            else:
                self._a[...] = cast(r.a, self.dtype)
            return self

        return f

    def __neg__(self):
        return self._bin(-1, "mul")

    def __pos__(self):
        return self

    def __abs__(self):
        return self._map(abs)

    abs = __abs__
    neg = __neg__

    def __invert__(self):
        return self._map(_FUNCS["invert"])

    bitwise_not = __invert__

    def logical_not(self):
        return self._map(lambda v: Not(_tobool(v)), real.bool)

    def _map(self, f, dt=None):
        if self._a is None:
            return havoc(self.shape, dt or self.dtype, self)
        return SymTensor(_elementwise(f, self._a.view(np.ndarray)), dt or self.dtype)

    def _logic(self, o, f):
        g = lambda a, b: f(_tobool(a), _tobool(b))
        return SymTensor(_elementwise(g, self.a.view(np.ndarray), lift(o)), real.bool)

    def logical_and(self, o):
        return self._logic(o, And)

    def logical_or(self, o):
        return self._logic(o, Or)

    def logical_xor(self, o):
        return self._logic(o, lambda a, b: Not(core.Iff(a, b)))

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def mul(self, o):
        return self * o

    multiply = mul

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else o * alpha)

    def div(self, o, rounding_mode=None):
        return self / o if rounding_mode is None else self // o

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def lt(self, o):
        return self < o

    def le(self, o):
        return self <= o

    def gt(self, o):
        return self > o

    def ge(self, o):
        return self >= o

    def pow(self, o):
        return self**o

    def remainder(self, o):
        return self % o

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = r._bin(min, "maximum")
        if max is not None:
            r = r._bin(max, "minimum")
        return r

    clip = clamp

    def clamp_(self, min=None, max=None):
        self.a[...] = self.clamp(min, max).a
        return self

    def relu(self):
        if working(self):
            return self._unary("relu")
        return self.clamp(min=0)

    def _unary(self, name):
        """an unknown function of each element"""
        if working(self):
            return self._map(lambda v: LAYERS.scalar(name, v), real.float32)
        return havoc(self.shape, self.dtype, self)

    def sign(self):
        return self._map(_FUNCS["sign"])

    def masked_fill(self, mask, value):
        if isinstance(value, SymTensor):
            value = value.item()
        if is_havoc(self) or is_havoc(mask):
            return havoc(np.broadcast_shapes(shape_of(self), shape_of(mask)), self.dtype, self, mask)
        v = cast1(value, self.dtype)
        return SymTensor(_elementwise(lambda m, x: ite(_tobool(m), v, x), lift(mask), self.a.view(np.ndarray)), self.dtype)

    def masked_fill_(self, mask, value):
        r = self.masked_fill(mask, value)
        self.a[...] = r.a
        return self

    def fill_(self, v):
        self.a[...] = cast1(v.item() if isinstance(v, SymTensor) else v, self.dtype)
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o, **k):
        self.a[...] = cast(o.a, self.dtype)
        return self

    def where(self, cond, other):
        return where(cond, self, other)

    def masked_select(self, mask):
        return self[mask.expand(*self.shape)]

    def index_select(self, dim, idx):
        if dim % self.ndim == 0:
            return self[idx]
        return self.transpose(0, dim)[idx].transpose(0, dim)

    def gather(self, dim, index):
        dim %= self.ndim
        ix = index.a.view(np.ndarray)
        out = np.empty(ix.shape, dtype=object)
        for i in np.ndindex(*ix.shape):
            col = self.a[i[:dim] + (slice(None),) + i[dim + 1 :]]
            out[i] = col.view(SymArray)[ix[i]]
        return SymTensor(out, self.dtype)

    def scatter_(self, dim, index, src=None, value=None, **k):
        if src is None:
            src = value
        ix = index.a.view(np.ndarray)
        dim %= self.ndim
        s = np.broadcast_to(lift(src), ix.shape) if not isinstance(src, SymTensor) else src.a.view(np.ndarray)
        for i in np.ndindex(*ix.shape):
            col = self.a[i[:dim] + (slice(None),) + i[dim + 1 :]].view(SymArray)
            col[ix[i]] = cast1(s[i], self.dtype)
        return self

    def scatter(self, *a, **k):
        return self.clone().scatter_(*a, **k)

    def index_fill_(self, dim, index, value):
        if self.ndim != 1:
            raise Unsupported("index_fill_ n-d")
        for k in index.a.flat:
            self.a[k] = cast1(value, self.dtype)
        return self

    # -------------------------------------------------------------- reductions
    def _red(self, f, dim, keepdim, ident, dt, pre=None):
        if isinstance(dim, (list, real.Size)):
            dim = tuple(dim)
        if self._a is None:
            d = np.broadcast_to(np.zeros(()), self._shape)
            return havoc(np.shape(d.sum(axis=dim, keepdims=keepdim)), dt, self)
        a = self._a.view(np.ndarray)
        if pre is not None:
            a = _elementwise(pre, a) if a.size else a
        return SymTensor(_reduce(f, a, dim, keepdim, ident), dt)

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None, **k):
        dt = as_dtype(dtype) or (self.dtype if self.dtype in FLOATS else real.int64)
        u = lambda v: v.as_int() if isinstance(v, SymBool) else int(v) if isinstance(v, bool) else v
        return self._red(_ARITH["add"], dim if axis is None else axis, keepdim, 0, dt, u)

    def mean(self, dim=None, keepdim=False, **k):
        n = self.numel() if dim is None else self.shape[dim]
        return self.sum(dim, keepdim) / n

    def prod(self, dim=None, keepdim=False, **k):
        return self._red(_mul, dim, keepdim, 1, self.dtype if self.dtype in FLOATS else real.int64)

    def any(self, dim=None, keepdim=False, **k):
        return self._red(Or, dim, keepdim, False, real.bool, _tobool)

    def all(self, dim=None, keepdim=False, **k):
        return self._red(And, dim, keepdim, True, real.bool, _tobool)

    def count_nonzero(self, dim=None):
        return (self != 0).sum(dim)

    def _ext(self, name, dim, keepdim, other=None):
        if isinstance(other, SymTensor):
            return self._bin(other, name)
        if dim is None:
            return self._red(_OPS[name], None, False, None, self.dtype)
        v = self._red(_OPS[name], dim, keepdim, None, self.dtype)
        return _Pair(v, self._arg(name, dim, keepdim))

    def max(self, dim=None, keepdim=False):
        if isinstance(dim, SymTensor):
            return self._bin(dim, "maximum")
        return self._ext("maximum", dim, keepdim)

    def min(self, dim=None, keepdim=False):
        if isinstance(dim, SymTensor):
            return self._bin(dim, "minimum")
        return self._ext("minimum", dim, keepdim)

    def amax(self, dim=None, keepdim=False):
        return self._red(_OPS["maximum"], dim, keepdim, None, self.dtype)

    def amin(self, dim=None, keepdim=False):
        return self._red(_OPS["minimum"], dim, keepdim, None, self.dtype)

    def _arg(self, name, dim, keepdim):
        if self._a is None:
            d = np.broadcast_to(np.zeros(()), self._shape)
            return havoc(np.shape(d.sum(axis=dim, keepdims=keepdim)), real.int64, self)
        a = self._a.view(np.ndarray)
        if dim is None:
            a, dim = a.reshape(-1), 0
        m = np.moveaxis(a, dim, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            best, bi = m[i + (0,)], 0
            for j in range(1, m.shape[-1]):
                x = m[i + (j,)]
                g = x > best if name == "maximum" else x < best
                best, bi = ite(g, x, best), ite(g, j, bi)
            out[i] = bi
        if keepdim:
            out = np.expand_dims(out, dim)
        return SymTensor(out if out.ndim else out.item(), real.int64)

    def argmax(self, dim=None, keepdim=False):
        return self._arg("maximum", dim, keepdim)

    def argmin(self, dim=None, keepdim=False):
        return self._arg("minimum", dim, keepdim)

    def cumsum(self, dim):
        a = np.moveaxis(self.a.view(np.ndarray), dim, 0)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[1:]):
            acc = 0
            for j in range(a.shape[0]):
                acc = acc + a[(j,) + i]
                out[(j,) + i] = acc
        return SymTensor(np.moveaxis(out, 0, dim), self.dtype if self.dtype in FLOATS else real.int64)

    def _sorted(self, dim, descending):
        """stable order along dim: (values, indices)"""
        if not self.ndim:
            return self.a.view(np.ndarray), np.zeros((), dtype=object)
        m = np.array(np.moveaxis(self.a.view(np.ndarray), dim, -1), dtype=object)
        n = m.shape[-1]
        if n > 40:
            raise Unsupported("sorting %d symbolic values" % n)
        idx = np.empty(m.shape, dtype=object)
        for i in np.ndindex(*m.shape[:-1]):
            row = [(m[i + (j,)], j) for j in range(n)]
            for a in range(n):  # insertion by comparing neighbours: stable
                for b in range(n - 1 - a):
                    (x, p), (y, q) = row[b], row[b + 1]
                    sw = y > x if descending else y < x
                    row[b] = (ite(sw, y, x), ite(sw, q, p))
                    row[b + 1] = (ite(sw, x, y), ite(sw, p, q))
            for j in range(n):
                m[i + (j,)], idx[i + (j,)] = row[j]
        return np.moveaxis(m, -1, dim), np.moveaxis(idx, -1, dim)

    def sort(self, dim=-1, descending=False, stable=False):
        if self._a is None:
            return _Pair(havoc(self.shape, self.dtype, self), havoc(self.shape, real.int64, self))
        v, i = self._sorted(dim, descending)
        return _Pair(SymTensor(v, self.dtype), SymTensor(i, real.int64))

    def argsort(self, dim=-1, descending=False, stable=False):
        return self.sort(dim, descending).indices

    def topk(self, k, dim=-1, largest=True, sorted=True):
        p = self.sort(dim, largest)
        return _Pair(p.values.narrow(dim, 0, k), p.indices.narrow(dim, 0, k))

    def new_zeros(self, *s, dtype=None, **k):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, **k):
        return ones(*s, dtype=dtype or self.dtype)

    def new_empty(self, *s, dtype=None, **k):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_full(self, size, v, dtype=None, **k):
        return full(size, v, dtype=dtype or self.dtype)

    def new_tensor(self, v, dtype=None, **k):
        return tensor(v, dtype=dtype or self.dtype)

    def square(self):
        return self * self

    def clamp_min(self, v):
        return self.clamp(min=v)

    def clamp_max(self, v):
        return self.clamp(max=v)

    def is_contiguous(self, *a, **k):
        return True

    def ndimension(self):
        return self.ndim

    def isin(self, vals, **k):
        return isin(self, vals, **k)

    def take_along_dim(self, idx, dim=None):
        return self.gather(dim, idx) if dim is not None else self.reshape(-1).gather(0, idx.reshape(-1))

    def sin(self):
        return _real_math("sin", self)

    def cos(self):
        return _real_math("cos", self)

    def exp(self):
        return _real_math("exp", self)

    def log(self):
        return _real_math("log", self)

    def sqrt(self):
        return _real_math("sqrt", self)

    def nonzero(self, as_tuple=False):
        b = np.empty(self.a.shape, dtype=bool)
        for i in np.ndindex(*b.shape):
            b[i] = bool(_tobool(np.ndarray.__getitem__(self.a, i)))
        r = b.nonzero()
        if as_tuple:
            return tuple(SymTensor(x.astype(object), real.int64) for x in r)
        return SymTensor(np.stack(r, axis=1).astype(object), real.int64)

    def equal(self, o):
        if self.shape != o.shape:
            return False
        return bool(And([x == y for x, y in zip(self.a.flat, o.a.flat)]))

    # ------------------------------------------------------------------ linear
    def softmax(self, dim=-1, **k):
        if working(self):
            x = np.moveaxis(self._a.view(np.ndarray), dim, -1)
            return SymTensor(np.moveaxis(LAYERS.softmax(x), -1, dim), real.float32)
        if self._a is None or not SHIM.losses:
            return havoc(self.shape, real.float32, self)
        raise Unsupported("softmax of symbolic values")

    def logsumexp(self, dim=-1, keepdim=False):
        """ln of the sum of exps along dim: known only as a function of the values"""
        if isinstance(dim, (tuple, list)):
            (dim,) = dim
        dim %= self.ndim
        sh = tuple(1 if i == dim else n for i, n in enumerate(self.shape))
        if self._a is None or not SHIM.losses:
            r = havoc(sh, real.float32, self)
        else:
            out = np.empty(sh, dtype=object)
            x = np.moveaxis(self._a.view(np.ndarray), dim, -1)
            for i in np.ndindex(*x.shape[:-1]):
                np.moveaxis(out, dim, -1)[i + (0,)] = lse(list(x[i]))
            r = SymTensor(out, real.float32)
        return r if keepdim else r.squeeze(dim)

    def log_softmax(self, dim=-1, **k):
        if self._a is None or not SHIM.losses:
            return havoc(self.shape, real.float32, self)
        return self - self.logsumexp(dim, True)

    def matmul(self, o):
        s = _matmul_shape(tuple(self.shape), tuple(o.shape))
        if working(self, o) and self.ndim >= 2 and o.ndim >= 2:
            x, y = self._a.view(np.ndarray), o._a.view(np.ndarray)
            x = np.broadcast_to(x, s[:-2] + x.shape[-2:])
            y = np.broadcast_to(y, s[:-2] + y.shape[-2:])
            lead = "".join(chr(97 + i) for i in range(len(s) - 2))
            return SymTensor(LAYERS.contract("dot%d" % x.shape[-1], "t", (lead + "rt", lead + "tc"), lead + "rc", (x, y)), real.float32)
        return havoc(s, real.float32, self, o)

    bmm = mm = matmul
    __matmul__ = matmul

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_val", "_shape"):
            raise AttributeError(n)
        if n.endswith("_") and hasattr(SymTensor, n[:-1]):
            f = getattr(self, n[:-1])

            def g(*a, **k):
                r = f(*a, **k)
                self.a[...] = cast(r.a, self.dtype)
                return self

            return g
        if hasattr(real.Tensor, n):
            raise Unsupported("tensor attribute %s" % n)
        raise AttributeError(n)


for _n, _op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("floordiv", "floordiv"), ("mod", "mod"), ("lshift", "lshift"), ("rshift", "rshift"), ("pow", "pow"), ("and", "and"), ("or", "or"), ("xor", "xor")):
    setattr(SymTensor, "__%s__" % _n, (lambda op: lambda self, o: self._bin(o, op))(_op))
    setattr(SymTensor, "__r%s__" % _n, (lambda op: lambda self, o: self._bin(o, op, True))(_op))
    setattr(SymTensor, "__i%s__" % _n, SymTensor._inplace(None, _op))
for _n in _COMPARE:
    setattr(SymTensor, "__%s__" % _n, (lambda op: lambda self, o: self._cmp(o, op))(_n))
for _n, _op in (("bitwise_and", "and"), ("bitwise_or", "or"), ("bitwise_xor", "xor"), ("bitwise_left_shift", "lshift"), ("bitwise_right_shift", "rshift"), ("floor_divide", "floordiv"), ("true_divide", "div"), ("maximum", "maximum"), ("minimum", "minimum"), ("fmod", "mod")):
    setattr(SymTensor, _n, (lambda op: lambda self, o: self._bin(o, op))(_op))


def _matmul_shape(x, y):
    if len(x) == 1 and len(y) == 1:
        return ()
    if len(y) == 1:
        return x[:-1]
    if len(x) == 1:
        return y[:-2] + y[-1:]
    if x[-1] != y[-2]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%r and %r)" % (x, y))
    return tuple(np.broadcast_shapes(x[:-2], y[:-2])) + (x[-2], y[-1])


def _rows(a, idx):
    """a[idx] for an object index array (any shape) that may hold symbolic ints"""
    n = a.shape[0]
    out = np.empty(idx.shape + a.shape[1:], dtype=object)
    cols = list(np.ndindex(*a.shape[1:]))
    for i in np.ndindex(*idx.shape):
        k = idx[i]
        for c in cols:
            col = a[(slice(None),) + c] if a.ndim > 1 else a
            out[i + c] = col.view(SymArray)[k] if isinstance(k, SymInt) else np.ndarray.__getitem__(col, int(k))
    return out


def _points(a, kt):
    """a[i, j, ...] with index arrays in every position"""
    if len(kt) != a.ndim or any(isinstance(k, slice) or k is None for k in kt):
        raise Unsupported("mixed symbolic fancy index")
    ks = np.broadcast_arrays(*[k if isinstance(k, np.ndarray) else lift(k) for k in kt])
    out = np.empty(ks[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        kk = tuple(k[i] for k in ks)
        out[i] = a[tuple(int(k) if not is_sym(k) else k for k in kk)]
    return out


# ----------------------------------------------------------------- functions
def tensor(x, dtype=None, device=None, requires_grad=False, **k):
    dt = as_dtype(dtype)
    if isinstance(x, SymTensor):
        return x.clone().to(dtype=dt) if dt else x.clone()
    a = npshim.f_array(x if not isinstance(x, (SymSeq, range)) else list(x)) if isinstance(x, (list, tuple, np.ndarray, range)) else lift(x)
    a = np.asarray(a).view(np.ndarray)
    for v in a.flat:
        if v is None or isinstance(v, (list, str)):
            raise TypeError("cannot make a tensor from %r" % type(v))
    dt = dt or infer(a)
    if isinstance(x, np.ndarray) and dtype is None and not isinstance(x, SymArray) and x.dtype != object:
        dt = real.from_numpy(np.zeros(1, dtype=x.dtype)).dtype
    return SymTensor(cast(a, dt), dt)


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, SymTensor):
        return x.to(dtype=as_dtype(dtype)) if dtype else x
    return tensor(x, dtype)


def from_numpy(x):
    a = npshim.f_asarray(x)
    return SymTensor(a, infer(a))


def _full(shape, v, dtype, default=real.float32):
    a = np.empty(_sh(shape), dtype=object)
    dt = as_dtype(dtype) or default
    a[...] = cast1(v, dt)
    return SymTensor(a, dt)


def zeros(*s, dtype=None, size=None, **k):
    return _full(s if size is None else (size,), 0, dtype)


def ones(*s, dtype=None, size=None, **k):
    return _full(s if size is None else (size,), 1, dtype)


def empty(*s, dtype=None, **k):
    return _full(s, 0, dtype)


def full(size, fill_value, dtype=None, **k):
    if isinstance(fill_value, SymTensor):
        fill_value = fill_value.item()
    b = np.empty((), dtype=object)
    b[()] = fill_value
    return _full((size,), fill_value, dtype, infer(b))


def zeros_like(t, dtype=None, **k):
    return _full(tuple(t.shape), 0, dtype or t.dtype)


def ones_like(t, dtype=None, **k):
    return _full(tuple(t.shape), 1, dtype or t.dtype)


def full_like(t, v, dtype=None, **k):
    return _full(tuple(t.shape), v, dtype or t.dtype)


def arange(*a, dtype=None, device=None, **k):
    c = core.ctx()
    a = [c.concretize(v) if is_sym(v) else v.item() if isinstance(v, SymTensor) else v for v in a]
    r = np.arange(*a)
    dt = as_dtype(dtype) or (real.float32 if r.dtype.kind == "f" else real.int64)
    return SymTensor(cast(r.astype(object), dt), dt)


def cat(ts, dim=0, axis=None, **k):
    ts = list(ts)
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    dim = dim if axis is None else axis
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = real.promote_types(dt, t.dtype)
    if any(is_havoc(t) for t in ts):
        d = [np.broadcast_to(np.zeros(()), tuple(t.shape)) for t in ts]
        sh = np.concatenate(d, dim).shape
        if dim % max(1, len(sh)) != 0:
            return havoc(sh, dt, *ts)
        out, p = havoc(sh, dt), 0
        for t in ts:
            for r, v in taint_of(t).items():
                out.taint[p + r] = v
            p += t.shape[0]
        return out
    keep = [t for t in ts if not (t.ndim == 1 and t.shape[0] == 0)] or ts[:1]
    return SymTensor(np.concatenate([cast(t.a, dt, t.dtype) for t in keep], dim), dt)


concat = concatenate = cat


def stack(ts, dim=0, **k):
    return cat([t.unsqueeze(dim) for t in ts], dim)


def vstack(ts):
    return cat([t if t.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def hstack(ts):
    ts = list(ts)
    return cat(ts, 0 if ts[0].ndim == 1 else 1)


def where(c, a=None, b=None):
    if a is None:
        return c.nonzero(as_tuple=True)
    if any(is_havoc(v) for v in (c, a, b)):
        return havoc(np.broadcast_shapes(*[shape_of(v) for v in (c, a, b)]), _promote(a, b))
    dt = _promote(a, b)
    r = _elementwise(lambda m, x, y: ite(_tobool(m), x, y), lift(c), cast(lift(a), dt), cast(lift(b), dt))
    return SymTensor(r, dt)


def isin(t, vals, **k):
    vs = list(vals.a.flat) if isinstance(vals, SymTensor) else list(vals)
    return t._map(lambda x: Or([x == v for v in vs]), real.bool)


def _real_math(name, t, *more):
    """transcendental function of concrete values"""
    if is_havoc(t):
        return havoc(t.shape)
    conv = lambda v: real.tensor(np.array([[float(x)] for x in v.a.flat], dtype=np.float32 if v.dtype != real.float64 else np.float64)).reshape(tuple(v.shape)) if isinstance(v, SymTensor) else v
    args = [t] + list(more)
    if any(isinstance(v, SymTensor) and any(is_sym(x) for x in v.a.flat) for v in args):
        if working(t) and not more:
            return t._unary(name)
        raise Unsupported("torch.%s of symbolic values" % name)
    r = getattr(real, name)(*[conv(v) for v in args])
    return SymTensor(cast(r.numpy().astype(object), real.float32), real.float32)


def _mathf(name):
    return lambda t, *m, **k: _real_math(name, t, *m)


class _NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f=None):
        return f if callable(f) else self


# ------------------------------------------------------------------ nn modules
class Module:
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def forward(self, *a, **k):
        raise NotImplementedError

    def named_children(self):
        seen = set()
        for n, v in list(self.__dict__.items()):
            if isinstance(v, Module) and id(v) not in seen:
                seen.add(id(v))
                yield n, v

    def children(self):
        return (v for _, v in self.named_children())

    def named_modules(self, prefix="", memo=None):
        memo = set() if memo is None else memo
        if id(self) in memo:
            return
        memo.add(id(self))
        yield prefix, self
        for n, v in self.named_children():
            yield from v.named_modules(prefix + ("." if prefix else "") + n, memo)

    def modules(self):
        return (m for _, m in self.named_modules())

    def apply(self, fn):
        for c in self.children():
            c.apply(fn)
        fn(self)
        return self

    def parameters(self, *a, **k):
        for m in self.modules():
            for v in m.__dict__.values():
                if isinstance(v, SymTensor) and getattr(v, "is_param", False):
                    yield v

    def state_dict(self, *a, **k):
        return {}

    def load_state_dict(self, *a, **k):
        return None

    def _self(self, *a, **k):
        return self

    to = cuda = cpu = float = double = requires_grad_ = _self

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def zero_grad(self, *a, **k):
        pass

    def register_buffer(self, name, t, persistent=True):
        setattr(self, name, t)

    def register_parameter(self, name, t):
        setattr(self, name, t)

    def register_module(self, name, m):
        setattr(self, name, m)

    add_module = register_module


def Parameter(t, requires_grad=True):
    t.is_param = True
    return t


class Sequential(Module):
    def __init__(self, *mods):
        if len(mods) == 1 and isinstance(mods[0], dict):
            mods = list(mods[0].values())
        for i, m in enumerate(mods):
            self.__dict__[str(i)] = m
        self._n = len(mods)

    def __iter__(self):
        return iter([self.__dict__[str(i)] for i in range(self._n)])

    def __len__(self):
        return self._n

    def __getitem__(self, i):
        return list(self)[i]

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class ModuleList(Module):
    def __init__(self, mods=()):
        self._l = []
        for m in mods:
            self.append(m)

    def append(self, m):
        self.__dict__[str(len(self._l))] = m
        self._l.append(m)
        return self

    def __iter__(self):
        return iter(self._l)

    def __len__(self):
        return len(self._l)

    def __getitem__(self, i):
        return self._l[i]


class ModuleDict(Module):
    def __init__(self, mods=None):
        self._d = {}
        for k, v in (mods or {}).items():
            self[k] = v

    def __setitem__(self, k, v):
        self._d[k] = v
        self.__dict__[k] = v

    def __getitem__(self, k):
        return self._d[k]

    def __contains__(self, k):
        return k in self._d

    def items(self):
        return self._d.items()

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()


class Linear(Module):
    def __init__(self, i, o, bias=True, **k):
        self.in_features, self.out_features = i, o
        self.weight = Parameter(havoc((o, i)))
        self.bias = Parameter(havoc((o,))) if bias else None

    def forward(self, x):
        if x.shape[-1] != self.in_features:
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%s and %dx%d)" % (tuple(x.shape), self.in_features, self.out_features))
        s = tuple(x.shape[:-1]) + (self.out_features,)
        w, b = self.weight, self.bias
        if w._val is not None and not any(is_sym(v) or v != 0 for v in w._val.flat):
            return zeros(*s) if b is None else b.expand(*s)
        if working(x):
            return SymTensor(LAYERS.along(("linear",) + LAYERS.uid(w, b), x._a, self.out_features), real.float32)
        return havoc(s, real.float32, x)


class Embedding(Module):
    def __init__(self, n, d, padding_idx=None, **k):
        self.num_embeddings, self.embedding_dim, self.padding_idx = n, d, padding_idx
        self.weight = Parameter(havoc((n, d)))

    def forward(self, idx):
        return embedding(idx, self.weight)


class LayerNorm(Module):
    def __init__(self, shape, *a, **k):
        self.normalized_shape = (shape,) if isinstance(shape, int) else tuple(shape)
        self.weight = Parameter(havoc(self.normalized_shape))
        self.bias = Parameter(havoc(self.normalized_shape))

    def forward(self, x):
        if tuple(x.shape[-len(self.normalized_shape) :]) != self.normalized_shape:
            raise RuntimeError("normalized_shape %r does not fit input %r" % (self.normalized_shape, tuple(x.shape)))
        if working(x) and len(self.normalized_shape) == 1:
            return SymTensor(LAYERS.along(("norm",) + LAYERS.uid(self.weight, self.bias), x._a, x.shape[-1]), real.float32)
        return havoc(x.shape, real.float32, x)


def _conv(nd):
    class Conv(Module):
        def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, **k):
            t = lambda v: (v,) * nd if isinstance(v, int) else v if isinstance(v, str) else tuple(v)
            self.i, self.o = in_channels, out_channels
            self.in_channels, self.out_channels = in_channels, out_channels
            self.k, self.s, self.d = t(kernel_size), t(stride), t(dilation)
            self.p = t(padding)
            self.weight = Parameter(havoc((out_channels, in_channels // groups) + self.k))
            self.bias = Parameter(havoc((out_channels,))) if bias else None

        def forward(self, x):
            if x.ndim != nd + 2 or x.shape[1] != self.i:
                raise RuntimeError("convolution expected %d input channels, got %r" % (self.i, tuple(x.shape)))
            sp = []
            for j in range(nd):
                if self.p == "same":
                    sp.append(x.shape[2 + j])
                    continue
                p = 0 if self.p == "valid" else self.p[j]
                sp.append((x.shape[2 + j] + 2 * p - self.d[j] * (self.k[j] - 1) - 1) // self.s[j] + 1)
            if working(x):
                return SymTensor(LAYERS.whole(("conv",) + LAYERS.uid(self.weight, self.bias), x._a, (self.o,) + tuple(sp)), real.float32)
            return havoc((x.shape[0], self.o) + tuple(sp), real.float32, x)

    Conv.__name__ = "Conv%dd" % nd
    return Conv


class _Pass(Module):
    """Activation: unknown stays unknown"""

    def forward(self, x):
        return x._unary(type(self).__name__)


class ReLU(Module):
    def forward(self, x):
        return x.relu()


class Identity(Module):
    def forward(self, x):
        return x


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        self.p = p

    def forward(self, x):
        return f_dropout(x, self.p, self.training)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        self.a, self.b = start_dim, end_dim

    def forward(self, x):
        return x.flatten(self.a, self.b)


class _Act(_Pass):
    pass


class LogSoftmax(Module):
    def __init__(self, dim=None):
        self.dim = dim

    def forward(self, x):
        return x.log_softmax(self.dim)


def _loss(name, f):
    class Loss(Module):
        def __init__(self, *a, **k):
            self.args = a, k

        def forward(self, x, y):
            return f(x, y, *self.args[0], **self.args[1])

    Loss.__name__ = name
    return Loss


class Softmax(Module):
    def __init__(self, dim=None):
        self.dim = dim

    def forward(self, x):
        return x.softmax(self.dim)


class BatchNorm(Module):
    def __init__(self, n, *a, **k):
        self.n = n

    def forward(self, x):
        return havoc(x.shape, real.float32, x)


# ---------------------------------------------------------------- functional
def embedding(idx, weight, *a, **k):
    if weight._val is None or (LAYERS.on and weight.is_param) or is_havoc(idx):
        if not is_havoc(idx):
            for v in idx.a.flat:
                ok = And(v >= 0, v < weight.shape[0])
                if not (ok if isinstance(ok, bool) else bool(ok)):
                    raise IndexError("index out of range in self")
            if LAYERS.on and len(weight.shape) == 2:
                key, a = ("table",) + LAYERS.uid(weight), idx.a.view(np.ndarray)
                out = np.empty(a.shape + (weight.shape[1],), dtype=object)
                for i in np.ndindex(*a.shape):
                    v = LAYERS.index(a[i])
                    for j in range(weight.shape[1]):
                        out[i + (j,)] = LAYERS.app((key, j), v)
                return SymTensor(out, real.float32)
        return havoc(tuple(idx.shape) + tuple(weight.shape[1:]))
    n = weight.shape[0]
    for v in idx.a.flat:
        ok = And(v >= 0, v < n)
        if not (ok if isinstance(ok, bool) else bool(ok)):
            raise IndexError("index out of range in self")
    return SymTensor(_rows(weight.a, idx.a.view(np.ndarray)), weight.dtype)


def pad(t, pads, mode="constant", value=0):
    pads = [core.ctx().concretize(p) if is_sym(p) else int(p) for p in pads]
    if mode != "constant":
        raise Unsupported("pad mode")
    if is_havoc(t):
        s = list(t.shape)
        for j in range(len(pads) // 2):
            s[-1 - j] += pads[2 * j] + pads[2 * j + 1]
        return havoc(s, t.dtype, t)
    a = t.a.view(np.ndarray)
    for j in range(len(pads) // 2):
        ax = a.ndim - 1 - j
        lo, hi = pads[2 * j], pads[2 * j + 1]
        k = [slice(None)] * a.ndim
        k[ax] = slice(max(0, -lo), a.shape[ax] - max(0, -hi))
        a = a[tuple(k)]
        parts = []
        for n in (lo, hi):
            s = list(a.shape)
            s[ax] = max(0, n)
            e = np.empty(s, dtype=object)
            e[...] = cast1(value or 0, t.dtype)
            parts.append(e)
        a = np.concatenate([parts[0], a, parts[1]], ax)
    return SymTensor(a, t.dtype)


def one_hot(t, num_classes=-1):
    if num_classes < 0:
        raise Unsupported("one_hot without a class count")
    a = t.a.view(np.ndarray)
    out = np.empty(a.shape + (num_classes,), dtype=object)
    for i in np.ndindex(*a.shape):
        for c in range(num_classes):
            out[i + (c,)] = ite(a[i] == c, 1, 0)
    return SymTensor(out, real.int64)


def _known(*ts):
    return all(t._a is not None for t in ts)


def nll_loss(logp, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", _smooth=0.0):
    if logp.ndim != 2:
        raise Unsupported("nll_loss of %d dimensions" % logp.ndim)
    if logp.shape[0] != target.shape[0]:
        raise ValueError("Expected input batch_size (%d) to match target batch_size (%d)." % (logp.shape[0], target.shape[0]))
    if not SHIM.losses or not _known(logp, target) or (weight is not None and not _known(weight)):
        return havoc(()) if reduction != "none" else havoc((logp.shape[0],))
    n, width = logp.shape
    y = target.a.view(np.ndarray)
    losses, weights = [], []
    for b in range(n):
        row = logp.a.view(np.ndarray)[b]
        w = 1 if weight is None else weight.a.view(SymArray)[y[b]]
        if bool(y[b] == ignore_index):
            losses.append(0)
            weights.append(0)
            continue
        losses.append(-(w * row.view(SymArray)[y[b]]) if not _smooth else -(1 - _smooth) * w * row.view(SymArray)[y[b]] - _smooth * sum(row) / width)
        weights.append(w)
    if reduction == "none":
        return SymTensor(np.array(losses, dtype=object), real.float32)
    total = sum(losses)
    if reduction == "mean":
        total = total / sum(weights)
    return SymTensor(np.array(total, dtype=object), real.float32)


def cross_entropy(logits, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0):
    if logits.ndim == 2 and logits.shape[0] != target.shape[0]:
        raise ValueError("Expected input batch_size (%d) to match target batch_size (%d)." % (logits.shape[0], target.shape[0]))
    if not SHIM.losses or not _known(logits, target):
        return havoc(()) if reduction != "none" else havoc((logits.shape[0],))
    if label_smoothing and weight is not None:
        raise Unsupported("label smoothing with weights")
    return nll_loss(logits.log_softmax(-1), target, weight, None, ignore_index, None, reduction, label_smoothing)


def linear(x, w, b=None):
    if working(x):
        return SymTensor(LAYERS.along(("linear",) + LAYERS.uid(w, b), x._a, w.shape[0]), real.float32)
    return havoc(tuple(x.shape[:-1]) + (w.shape[0],), real.float32, x)


def sdpa(q, k, v, *a, **kw):
    if working(q, k, v) and not a and not kw:
        w = q.matmul(k.transpose(-2, -1)) / math.sqrt(q.shape[-1])
        return w.softmax(-1).matmul(v)
    return havoc(tuple(q.shape[:-1]) + (v.shape[-1],), real.float32, q, k, v)


def layer_norm(x, shape, *a, **k):
    if working(x) and len(shape) == 1 and not k:
        return SymTensor(LAYERS.along(("norm",) + LAYERS.uid(*[p for p in a if isinstance(p, SymTensor)]), x._a, x.shape[-1]), real.float32)
    return havoc(x.shape, real.float32, x)


def f_dropout(x, p=0.5, training=True, inplace=False):
    if not training or not p:
        return x
    if working(x):
        return x._map(lambda v: ite(core.SymBool(LAYERS.new(core.z3.BoolSort())), v / (1 - p) if p < 1 else 0, 0))
    return havoc(x.shape, x.dtype, x)


def einsum(eq, *ts):
    ins, out = eq.replace(" ", "").split("->")
    dims = {}
    for names, t in zip(ins.split(","), ts):
        for n, s in zip(names, t.shape):
            dims[n] = s
    if working(*ts):
        return SymTensor(LAYERS.contract(eq, None, ins.split(","), out, [t._a.view(np.ndarray) for t in ts]), real.float32)
    return havoc(tuple(dims[n] for n in out), real.float32, *ts)


def randperm(n, **k):
    if SHIM.rand is None:
        raise Unsupported("torch.randperm outside a sampling check")
    return SHIM.rand.permutation(int(n))


def randint(low, high=None, size=None, **k):
    if high is None or isinstance(high, (tuple, list)):
        low, high, size = 0, low, size if size is not None else high
    if SHIM.rand is None:
        raise Unsupported("torch.randint outside a sampling check")
    return SHIM.rand.integers(int(low), int(high), _sh((size,)))


def multinomial(w, n, replacement=False, **k):
    if SHIM.rand is None:
        raise Unsupported("torch.multinomial outside a sampling check")
    m = w.shape[-1]
    if replacement:
        return SHIM.rand.integers(0, m, (n,))
    return SHIM.rand.permutation(m)[:n]


def manual_seed(*a):
    return None


class _Named(types.ModuleType):
    """A namespace: what it defines, then dtypes etc. of the real module; other
    functions of the real module exist but cannot be used symbolically."""

    def __init__(self, name, realmod, names):
        types.ModuleType.__init__(self, name)
        self.__dict__["_real"] = realmod
        self.__dict__["__path__"] = []
        self.__dict__.update(names)

    def __getattr__(self, n):
        v = getattr(self.__dict__["_real"], n)
        if isinstance(v, (real.dtype, int, float, str)) or n in ("Size", "device", "dtype", "cuda", "backends", "version", "strided", "inf", "pi", "finfo", "iinfo", "set_num_threads", "get_num_threads"):
            return v
        if callable(v) and not isinstance(v, type):
            if n in _TENSOR_METHODS:
                return lambda t, *a, **k: getattr(t, n)(*a, **k)

            def f(*a, **k):
                raise Unsupported("%s.%s" % (self.__name__, n))

            return f
        return v


_TENSOR_METHODS = {n for n in vars(SymTensor) if not n.startswith("_")}

_nn_init = _Named("torch.nn.init", real.nn.init, {n: (lambda t, *a, **k: t) for n in dir(real.nn.init) if n.endswith("_") and not n.startswith("_")})
_F = _Named(
    "torch.nn.functional",
    real.nn.functional,
    dict(
        embedding=embedding, pad=pad, one_hot=one_hot, cross_entropy=cross_entropy, linear=linear, layer_norm=layer_norm, dropout=f_dropout,
        scaled_dot_product_attention=sdpa,
        softmax=lambda t, dim=-1, **k: t.softmax(dim), log_softmax=lambda t, dim=-1, **k: t.log_softmax(dim), nll_loss=nll_loss,
        relu=lambda t, inplace=False: t.relu(), gelu=lambda t, *a, **k: t._unary("GELU"), silu=lambda t, *a, **k: t._unary("SiLU"), tanh=lambda t: t._unary("Tanh"), sigmoid=lambda t: t._unary("Sigmoid"),
    ),
)
_modules = _Named("torch.nn.modules", real.nn.modules, {})
_nn = _Named(
    "torch.nn",
    real.nn,
    dict(
        Module=Module, Parameter=Parameter, Sequential=Sequential, ModuleList=ModuleList, ModuleDict=ModuleDict, Linear=Linear, Embedding=Embedding,
        LayerNorm=LayerNorm, Conv1d=_conv(1), Conv2d=_conv(2), Conv3d=_conv(3), ReLU=ReLU, GELU=type("GELU", (_Act,), {}), SiLU=type("SiLU", (_Act,), {}),
        Tanh=type("Tanh", (_Act,), {}), Sigmoid=type("Sigmoid", (_Act,), {}), LeakyReLU=type("LeakyReLU", (_Act,), {}), Dropout=Dropout, Identity=Identity,
        Flatten=Flatten, Softmax=Softmax, LogSoftmax=LogSoftmax, CrossEntropyLoss=_loss("CrossEntropyLoss", cross_entropy), NLLLoss=_loss("NLLLoss", nll_loss), BatchNorm1d=BatchNorm, BatchNorm2d=BatchNorm, init=_nn_init, functional=_F, modules=_modules,
    ),
)


def _flat(name):
    return lambda t, *a, **k: getattr(t, name)(*a, **k)


_torch = _Named(
    "torch",
    real,
    dict(
        nn=_nn, Tensor=SymTensor, tensor=tensor, as_tensor=as_tensor, from_numpy=from_numpy, zeros=zeros, ones=ones, empty=empty, full=full,
        zeros_like=zeros_like, ones_like=ones_like, empty_like=zeros_like, full_like=full_like, arange=arange, cat=cat, concat=cat, concatenate=cat,
        stack=stack, vstack=vstack, hstack=hstack, where=where, isin=isin, einsum=einsum, embedding=embedding,
        exp=_mathf("exp"), sin=_mathf("sin"), cos=_mathf("cos"), log=_mathf("log"), sqrt=_mathf("sqrt"),
        pow=lambda x, y: _real_math("pow", x, y) if isinstance(x, SymTensor) else _real_math("pow", tensor(float(x)), y),
        no_grad=_NoGrad, inference_mode=_NoGrad, enable_grad=_NoGrad, set_grad_enabled=lambda *a: _NoGrad(),
        is_tensor=lambda v: isinstance(v, SymTensor), randperm=randperm, randint=randint, multinomial=multinomial, manual_seed=manual_seed,
        bmm=lambda a, b: a.matmul(b), matmul=lambda a, b: a.matmul(b), mm=lambda a, b: a.matmul(b),
        softmax=lambda t, dim=-1, **k: t.softmax(dim), log_softmax=lambda t, dim=-1, **k: t.log_softmax(dim), logsumexp=lambda t, dim, keepdim=False: t.logsumexp(dim, keepdim), relu=lambda t: t.relu(),
        equal=lambda a, b: a.equal(b), numel=lambda t: t.numel(), device=real.device, flatten=_flat("flatten"),
        LongTensor=lambda x: tensor(x, real.int64), FloatTensor=lambda x: tensor(x, real.float32),
        save=lambda *a, **k: None, load=lambda *a, **k: {},
    ),
)


class Shim:
    """Installs the stand-ins while the modules under test are imported."""

    def __init__(self):
        self.rand = None
        self.losses = False  # whether losses are worked out
        self.mods = {"torch": _torch, "torch.nn": _nn, "torch.nn.functional": _F, "torch.nn.init": _nn_init, "torch.nn.modules": _modules}

    def reset(self):
        self.rand = None
        self.losses = False
        LAYERS.on = False
        LAYERS.facts = []

    def install(self):
        self._old = {k: sys.modules.get(k) for k in self.mods}
        sys.modules.update(self.mods)

    def remove(self):
        for k, v in self._old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


SHIM = Shim()
