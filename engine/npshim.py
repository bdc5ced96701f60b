"""numpy stand-ins that carry symbolic elements.

SymArray is a real ndarray (dtype=object) so that views, aliasing, broadcasting,
fancy indexing and in-place updates are numpy's own; only the places where numpy
would need a concrete number (symbolic indexes, truth values of comparisons,
reductions that compare) are overridden.
"""
import numpy as np

from . import core
from .core import SymInt, SymBool, SymReal, is_sym, ite, And, Or, Not, norm, Unsupported


def _elem_has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(_elem_has_sym(y) for y in x.flat)
    if isinstance(x, (list, tuple)):
        return any(_elem_has_sym(y) for y in x)
    return False


def has_sym(x):
    return _elem_has_sym(x)


def wrap(a):
    """ndarray -> SymArray (object)."""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            a = a.astype(object)
        return a.view(SymArray)
    return a


def plain(a):
    """Normalise numpy scalars stored inside an object array."""
    return a


class SymArray(np.ndarray):
    # ------------------------------------------------------------- indexing
    def _sym_positions(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        pos = [i for i, k in enumerate(key) if isinstance(k, (SymInt, SymBool))]
        return key, pos

    @staticmethod
    def _clean_key(key):
        """Lists / object arrays of ints used as fancy indexes -> int arrays."""

        def one(k):
            if isinstance(k, SymSeq):
                k = list(k)
            if isinstance(k, (list, np.ndarray)):
                a = np.asarray(k, dtype=object) if not isinstance(k, np.ndarray) else k
                if a.dtype == object:
                    flat = [x for x in a.flat]
                    if any(isinstance(x, (bool, np.bool_, SymBool)) for x in flat):
                        return np.array([bool(x) for x in flat], dtype=bool).reshape(a.shape)
                    if a.ndim == 1 and any(isinstance(x, (list, tuple, np.ndarray)) for x in flat):
                        return k
                    return np.array([int(core.ctx().concretize(x)) if is_sym(x) else int(x) for x in flat], dtype=int).reshape(a.shape)
                return k
            if isinstance(k, float) and k == int(k):
                return int(k)
            if isinstance(k, slice):
                c = core.ctx()
                return slice(*[c.concretize(v) if is_sym(v) else v for v in (k.start, k.stop, k.step)])
            return k

        if isinstance(key, tuple):
            return tuple(one(k) for k in key)
        return one(key)

    def _fancy_sym(self, key):
        """1-d fancy index holding symbolic ints -> the list, else None"""
        if isinstance(key, SymSeq):
            key = list(key)
        if isinstance(key, (list, np.ndarray)) and (not isinstance(key, np.ndarray) or key.dtype == object):
            k = list(key.flat) if isinstance(key, np.ndarray) else list(key)
            if k and any(isinstance(x, SymInt) for x in k) and all(isinstance(x, (SymInt, int, np.integer)) for x in k):
                return k
        return None

    def _axis_of(self, key, pos):
        return sum(1 for k in key[:pos] if k is not None and k is not np.newaxis)

    def _choices(self, k, n):
        """Possible concrete values of symbolic index k on an axis of length n,
        raising IndexError on the paths where it is out of range."""
        if isinstance(k, SymBool):
            k = k.as_int()
            if isinstance(k, int):
                return [(k, True)], k
        if k.lo < -n or k.hi >= n:
            ok = And(k >= -n, k < n)
            if not ok if isinstance(ok, bool) else not bool(ok):
                raise IndexError("index out of bounds for axis with size %d" % n)
        if k.dom is not None:
            return [v for v in k.dom if -n <= v < n], k
        vals = [v for v in range(max(k.lo, -n), min(k.hi, n - 1) + 1)]
        return vals, k

    def _row_sym(self, key):
        """(int, ..., list holding symbolic ints) -> (position, list) else None"""
        if not isinstance(key, tuple) or len(key) != self.ndim:
            return None
        at = [i for i, k in enumerate(key) if not isinstance(k, (int, np.integer, SymInt))]
        if len(at) != 1:
            return None
        fs = self._fancy_sym(key[at[0]])
        return None if fs is None else (at[0], fs)

    def __getitem__(self, key):
        row = self._row_sym(key)
        if row is not None:
            i, fs = row
            out = np.empty(len(fs), dtype=object)
            for j, k in enumerate(fs):
                out[j] = self[key[:i] + (k,) + key[i + 1 :]]
            return out.view(SymArray)
        fs = self._fancy_sym(key)
        if fs is not None:
            if self.ndim != 1:
                return np.ndarray.__getitem__(self, self._clean_key(key))
            out = np.empty(len(fs), dtype=object)
            for i, k in enumerate(fs):
                out[i] = self[k]
            return out.view(SymArray)
        if isinstance(key, SymInt) and self.ndim == 1:
            vals, k = self._choices(key, self.shape[0])
            return _read(_select(self, vals, k), self, k, [(v, np.ndarray.__getitem__(self, v)) for v in vals])
        keyt, pos = self._sym_positions(key)
        if not pos:
            r = np.ndarray.__getitem__(self, self._clean_key(key))
            return r
        # symbolic + something else
        full = len([k for k in keyt if k is not None]) == self.ndim and all(isinstance(k, (int, np.integer, SymInt)) for k in keyt)
        if full:
            p = pos[0]
            vals, k = self._choices(keyt[p], self.shape[self._axis_of(keyt, p)])
            if isinstance(vals[0], tuple):
                return self[keyt[:p] + (k,) + keyt[p + 1 :]]
            rs = [self[keyt[:p] + (v,) + keyt[p + 1 :]] for v in vals]
            r = _merge(rs, vals, k)
            return _read(r, self, k, list(zip(vals, rs))) if len(pos) == 1 else r
        # result is an array (maybe a view): choose the index on this path
        c = core.ctx()
        nk = tuple(c.concretize(k) if isinstance(k, SymInt) else (int(k) if isinstance(k, SymBool) else k) for k in keyt)
        return np.ndarray.__getitem__(self, self._clean_key(nk if isinstance(key, tuple) else nk[0]))

    def __setitem__(self, key, value):
        if isinstance(value, SymSeq):
            value = list(value)
        row = self._row_sym(key)
        if row is not None:
            i, fs = row
            va = np.broadcast_to(np.asarray(value, dtype=object), (len(fs),))
            for k, v in zip(fs, va):
                self[key[:i] + (k,) + key[i + 1 :]] = v
            return
        fs = self._fancy_sym(key)
        if fs is not None:
            if self.ndim != 1:
                np.ndarray.__setitem__(self, self._clean_key(key), value)
                return
            va = np.broadcast_to(np.asarray(value, dtype=object), (len(fs),))
            for k, v in zip(fs, va):
                self[k] = v
            return
        if isinstance(key, SymArray) and key.dtype == object and key.size and any(isinstance(x, SymBool) for x in key.flat) and key.shape == self.shape:
            va = np.asarray(value, dtype=object)
            if va.ndim == 0:
                for i in np.ndindex(*self.shape):
                    np.ndarray.__setitem__(self, i, ite(key[i], va.item(), np.ndarray.__getitem__(self, i)))
                return
        keyt, pos = self._sym_positions(key)
        if not pos:
            np.ndarray.__setitem__(self, self._clean_key(key), value)
            return
        full = len([k for k in keyt if k is not None]) == self.ndim and all(isinstance(k, (int, np.integer, SymInt)) for k in keyt)
        if full:
            p = pos[0]
            vals, k = self._choices(keyt[p], self.shape[self._axis_of(keyt, p)])
            prov = value.prov if isinstance(value, SymInt) else None
            if prov is not None and (prov[0] is not k and not prov[0].e.eq(k.e) or len(pos) > 1):
                prov = None
            for v in vals:
                kk = keyt[:p] + (v,) + keyt[p + 1 :]
                rest = kk if len(kk) > 1 else kk[0]
                if len(pos) == 1:
                    old = np.ndarray.__getitem__(self, rest)
                    if prov is not None and v in prov[1] and prov[1][v] is old and isinstance(norm(old), (int, SymInt)):
                        np.ndarray.__setitem__(self, rest, norm(old) + ite(k == v, prov[2], 0))
                        continue
                    np.ndarray.__setitem__(self, rest, ite(k == v, value, old))
                else:
                    self[rest] = ite(k == v, value, self[rest])
            return
        c = core.ctx()
        nk = tuple(c.concretize(k) if isinstance(k, SymInt) else (int(k) if isinstance(k, SymBool) else k) for k in keyt)
        np.ndarray.__setitem__(self, self._clean_key(nk if isinstance(key, tuple) else nk[0]), value)

    # ------------------------------------------------------------- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) else x for x in inputs]
        outs = None
        if out is not None:
            outs = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        name = ufunc.__name__
        if method == "__call__":
            if name in _CMP:
                r = _elementwise(_CMP[name], *ins)
            elif name in _FUNCS:
                r = _elementwise(_FUNCS[name], *ins)
            else:
                f = _ARITH.get(name)
                if f is not None:
                    r = _elementwise(f, *ins)
                elif not any(has_sym(x) for x in ins):
                    r = ufunc(*[_numeric(x) for x in ins], **kw)
                else:
                    raise Unsupported("numpy ufunc %s on symbolic data" % name)
            if outs is not None:
                w = kw.get("where", True)
                if w is not True:
                    raise Unsupported("ufunc where=")
                outs[0][...] = r
                return out[0]
            return wrap(r) if isinstance(r, np.ndarray) else r
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            a = ins[0]
            f = {**_CMP, **_FUNCS, **_ARITH}.get(name)
            if f is None:
                raise Unsupported("reduce " + name)
            ident = {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True}.get(name)
            return _reduce(f, a, axis, keep, ident)
        if method == "at":
            idx = ins[1]
            for k in np.asarray(idx, dtype=object).flat:
                inputs[0][k] = _ARITH[name](inputs[0][k], ins[2]) if name in _ARITH else _FUNCS[name](inputs[0][k], ins[2])
            return None
        if method == "outer":
            a, b = (np.asarray(x, dtype=object) for x in ins)
            f = {**_CMP, **_FUNCS, **_ARITH}[name]
            r = np.empty(a.shape + b.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                for j in np.ndindex(*b.shape):
                    r[i + j] = f(a[i], b[j])
            return r.view(SymArray)
        if method == "accumulate":
            a = ins[0]
            f = {**_FUNCS, **_ARITH}[name]
            r = np.empty(a.shape, dtype=object)
            acc = None
            if a.ndim != 1:
                raise Unsupported("accumulate on n-d")
            for i in range(a.shape[0]):
                acc = a[i] if acc is None else f(acc, a[i])
                r[i] = acc
            return r.view(SymArray)
        raise Unsupported("ufunc method " + method)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch(func, args, kwargs)

    def __array_finalize__(self, obj):
        pass

    # ------------------------------------------------------------- methods
    def astype(self, dtype=None, *a, **k):
        d = np.dtype(dtype) if dtype is not None and not isinstance(dtype, _DtypeShim) else None
        r = np.array(self.view(np.ndarray), dtype=object, copy=True)
        if d is not None and d.kind == "b":
            for i in np.ndindex(*r.shape):
                r[i] = _tobool(r[i])
        elif d is not None and d.kind in "iu":
            for i in np.ndindex(*r.shape):
                v = r[i]
                if isinstance(v, SymReal):
                    raise Unsupported("astype int of symbolic real")
                r[i] = v if is_sym(v) else int(v)
        return r.view(SymArray)

    def copy(self, *a, **k):
        return np.array(self.view(np.ndarray), dtype=object, copy=True).view(SymArray)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(_ARITH["add"], self.view(np.ndarray), axis, keepdims, 0)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(_ARITH["multiply"], self.view(np.ndarray), axis, keepdims, 1)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(_FUNCS["maximum"], self.view(np.ndarray), axis, keepdims, None)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(_FUNCS["minimum"], self.view(np.ndarray), axis, keepdims, None)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(Or, self.view(np.ndarray), axis, keepdims, False)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(And, self.view(np.ndarray), axis, keepdims, True)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def nonzero(self):
        b = np.empty(self.shape, dtype=bool)
        for i in np.ndindex(*self.shape):
            b[i] = bool(np.ndarray.__getitem__(self, i))
        return np.nonzero(b)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def argmax(self, axis=None, **k):
        if axis is not None or self.ndim != 1:
            raise Unsupported("argmax axis")
        best, bi = self[0], 0
        for i in range(1, self.shape[0]):
            g = self[i] > best
            best, bi = ite(g, self[i], best), ite(g, i, bi)
        return bi

    def __iter__(self):
        if self.ndim != 1:
            return np.ndarray.__iter__(self)
        xs = [np.ndarray.__getitem__(self, i) for i in range(self.shape[0])]
        low = [x for x in xs if isinstance(x, SymInt) and x.lo < 0]
        # Counters are usually never negative; one query for all of them replaces
        # one per element when the code tests each.
        if len(low) > 2 and core.ctx() is not None and core.ctx().always(And([x >= 0 for x in low])):
            xs = [core._mk(x.e, x.w, 0, x.hi) if isinstance(x, SymInt) and x.lo < 0 else x for x in xs]
        return iter(xs)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def __contains__(self, x):
        return bool(Or([e == x for e in self.flat]))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.item())

    def __int__(self):
        v = self.item()
        return int(v)

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.item().__index__()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        r = np.empty(self.shape, dtype=object)
        import copy as _c

        for i in np.ndindex(*self.shape):
            v = np.ndarray.__getitem__(self, i)
            r[i] = v if is_sym(v) or isinstance(v, (int, float)) else _c.deepcopy(v, memo)
        return r.view(SymArray)

    def __repr__(self):
        return "<SymArray %s>" % (self.shape,)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def _tobool(v):
    if isinstance(v, SymBool):
        return v
    if isinstance(v, (SymInt, SymReal)):
        return v != 0
    return bool(v)


def _read(r, arr, k, items):
    """Remember where a value was read, so that writing back value + const to the
    same place is seen as adding to the element."""
    if isinstance(r, SymInt):
        q = SymInt(r.e, r.w, r.lo, r.hi, r.dom, r.tab, r.lin)
        q.prov = (k, dict(items), 0)
        return q
    return r


def _select(arr, vals, k):
    """arr[k] for a 1-d object array; vals = possible concrete indices."""
    rs = [np.ndarray.__getitem__(arr, v) for v in vals]
    return _merge(rs, vals, k)


def _merge(rs, vals, k):
    if all(norm(r) is not None for r in rs):
        if k.tab is not None:
            ns = [norm(r) for r in rs]
            if all(isinstance(n, int) for n in ns):
                d = dict(zip(vals, ns))
                return core.from_table(k.tab[0], [d.get(v, ns[-1]) for v in k.tab[1]])
        # linear shape?  k // d * c + b  or  k * c + b   (keeps terms small)
        if len(rs) > 8 and all(isinstance(norm(r), int) for r in rs):
            ns = [norm(r) for r in rs]
            for d in (1, 4):
                c = None
                if vals[0] >= 0:
                    j = next((j for j in range(1, len(vals)) if vals[j] // d != vals[0] // d), None)
                    if j is not None:
                        c = ns[j] - ns[0]
                        b = ns[0] - c * (vals[0] // d)
                        if all(n == c * (v // d) + b for n, v in zip(ns, vals)):
                            return (k // d) * c + b
                    elif all(n == ns[0] for n in ns):
                        return ns[0]
        r = rs[-1]
        for v, x in zip(reversed(vals[:-1]), reversed(rs[:-1])):
            r = ite(k == v, x, r)
        return r
    # lists etc: group by shape, choose the group on this path, merge inside it
    groups = {}
    for v, x in zip(vals, rs):
        if isinstance(x, (list, tuple)):
            sig = (type(x), len(x))
        elif isinstance(x, np.ndarray):
            sig = (SymArray, x.shape)
        else:
            raise Unsupported("symbolic index into table of %r" % type(x))
        groups.setdefault(sig, []).append((v, x))
    gl = sorted(groups.items(), key=lambda g: len(g[1]))
    chosen = gl[-1]
    for g in gl[:-1]:
        if bool(Or([k == v for v, _ in g[1]])):
            chosen = g
            break
    (typ, shape), items = chosen
    vs = [v for v, _ in items]
    if len(vs) == 1:
        return items[0][1]
    if typ is SymArray:
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = _merge([x[i] for _, x in items], vs, k)
        return out.view(SymArray)
    n = shape
    return typ(_merge_aligned([x[i] for _, x in items], vs, k) for i in range(n))


def _merge_aligned(xs, vs, k):
    """Merge int columns of a table whose rows are a subset of indices."""
    ns = [norm(x) for x in xs]
    if all(isinstance(n, int) for n in ns) and len(ns) > 3 and min(vs) >= 0:
        for d in (4, 1):
            for c in (1,):
                b = ns[0] - c * (vs[0] // d)
                if all(n == c * (v // d) + b for n, v in zip(ns, vs)):
                    return (k // d) * c + b
    return _merge(xs, vs, k)


def _numeric(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return np.array(x.tolist())
        except Exception:
            return x
    return x


def _elementwise(f, *ins):
    arrs = [x if isinstance(x, np.ndarray) else _as_obj(x) for x in ins]
    if all(a.ndim == 0 for a in arrs):
        return f(*[a.item() for a in arrs])
    b = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = b.shape if b is not None else arrs[0].shape
    out = np.empty(shape, dtype=object)
    if len(arrs) > 1:
        bs = np.broadcast_arrays(*arrs)
    else:
        bs = arrs
    for i in np.ndindex(*shape):
        out[i] = f(*[_py(a[i]) for a in bs])
    return out


def _py(v):
    if isinstance(v, np.generic):
        return v.item()
    return v


def _as_obj(x):
    if isinstance(x, SymSeq):
        x = list(x)
    if isinstance(x, (list, tuple)):
        return _to_obj_array(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _reduce(f, a, axis, keep, ident):
    a = np.asarray(a)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        else:
            for ax in sorted((x % a.ndim for x in axis), reverse=True):
                a = np.asarray(_reduce(f, a, ax, keep, ident))
            return wrap(a)
    if axis is None:
        items = [_py(x) for x in a.flat]
        if not items:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return ident
        r = items[0] if f not in (And, Or) else _tobool(items[0])
        for x in items[1:]:
            r = f(r, x)
        if keep:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SymArray)
        return r
    axis = axis % a.ndim
    moved = np.moveaxis(a, axis, 0)
    out = np.empty(moved.shape[1:], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = _reduce(f, moved[(slice(None),) + i], None, False, ident)
    if keep:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out.item()
    return out.view(SymArray)


def _sqrt(a):
    if is_sym(a):
        raise Unsupported("sqrt")
    return np.sqrt(a)


_CMP = {
    "equal": lambda a, b: _eq(a, b),
    "not_equal": lambda a, b: Not(_eq(a, b)),
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
}


def _eq(a, b):
    r = a == b
    return r


def _isclose(a, b, rtol=1e-5, atol=1e-8):
    d = abs(a - b)
    if not is_sym(d) and not is_sym(b):
        return bool(d <= atol + rtol * abs(b))
    if isinstance(a, (SymInt, SymBool, int)) and isinstance(norm(b), int) and not isinstance(b, bool) and abs(norm(b)) < 10000:
        return a == norm(b)
    return d <= core.Fraction(atol) + core.Fraction(rtol) * abs(b)


def _inv(a):
    if isinstance(a, (bool, SymBool)):
        return Not(a)
    return ~a


_FUNCS = {
    "maximum": lambda a, b: ite(a >= b, a, b),
    "minimum": lambda a, b: ite(a <= b, a, b),
    "fmax": lambda a, b: ite(a >= b, a, b),
    "fmin": lambda a, b: ite(a <= b, a, b),
    "logical_and": And,
    "logical_or": Or,
    "logical_not": Not,
    "logical_xor": lambda a, b: Not(core.Iff(a, b)),
    "absolute": abs,
    "fabs": abs,
    "sign": lambda a: ite(a > 0, 1, ite(a < 0, -1, 0)),
    "invert": _inv,
    "bitwise_and": lambda a, b: And(a, b) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else a & b,
    "bitwise_or": lambda a, b: Or(a, b) if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) else a | b,
    "bitwise_xor": lambda a, b: a ^ b,
    "isfinite": lambda a: True,
    "isnan": lambda a: False,
    "isinf": lambda a: False,
    "floor": lambda a: a if isinstance(a, (SymInt, int)) else np.floor(a),
    "ceil": lambda a: a if isinstance(a, (SymInt, int)) else np.ceil(a),
    "rint": lambda a: a if isinstance(a, (SymInt, int)) else np.rint(a),
    "sqrt": _sqrt,
}
_ARITH = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "power": lambda a, b: a**b,
    "left_shift": lambda a, b: a << b,
    "right_shift": lambda a, b: a >> b,
    "square": lambda a: a * a,
}


class SymSeq(list):
    """A list constant of the module under test, indexable by symbolic ints."""

    def __getitem__(self, k):
        if isinstance(k, SymInt):
            a = np.empty(len(self), dtype=object)
            for i, v in enumerate(self):
                a[i] = v
            return a.view(SymArray)[k]
        return list.__getitem__(self, k)


class SymSet(set):
    """A set constant of the module under test; symbolic numbers are looked up by value."""

    def __contains__(self, x):
        if isinstance(x, (SymInt, SymBool)):
            return bool(core.Or([x == v for v in self if isinstance(v, (int, float))]))
        return set.__contains__(self, x)


class SymDict(dict):
    """A dict constant of the module under test, readable under symbolic numbers."""

    def _at(self, k, miss):
        keys = [v for v in self if isinstance(v, (int, float))]
        if not bool(core.Or([k == v for v in keys])):
            return miss()
        vals = [(v, dict.__getitem__(self, v)) for v in keys]
        if any(norm(v) is None for _, v in vals):
            for v, x in vals[:-1]:
                if bool(k == v):
                    return x
            return vals[-1][1]
        r = vals[-1][1]
        for v, x in vals[:-1]:
            r = core.ite(k == v, x, r)
        return r

    def __getitem__(self, k):
        if isinstance(k, (SymInt, SymBool)):

            def miss():
                raise KeyError(k)

            return self._at(k, miss)
        return dict.__getitem__(self, k)

    def get(self, k, default=None):
        if isinstance(k, (SymInt, SymBool)):
            return self._at(k, lambda: default)
        return dict.get(self, k, default)

    def __contains__(self, k):
        if isinstance(k, (SymInt, SymBool)):
            return bool(core.Or([k == v for v in self if isinstance(v, (int, float))]))
        return dict.__contains__(self, k)


def _to_obj_array(x):
    """np.array(x) for nested lists that may hold symbolic values / SymArrays."""

    def shape_of(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            s0 = shape_of(v[0])
            for w in v[1:]:
                if shape_of(w) != s0:
                    return None
            return None if s0 is None else (len(v),) + s0
        if isinstance(v, (range, map, filter)):
            return shape_of(list(v))
        if hasattr(v, "_sym_data"):
            return v._sym_data().shape
        return ()

    if isinstance(x, range):
        x = list(x)
    s = shape_of(x)
    if s is None:
        # ragged: 1-d object array of whatever
        if isinstance(x, (list, tuple)):
            out = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                out[i] = v
            return out
        raise ValueError("inhomogeneous shape")
    out = np.empty(s, dtype=object)

    def fill(pre, v):
        if hasattr(v, "_sym_data"):
            v = v._sym_data()
        if isinstance(v, np.ndarray):
            for i in np.ndindex(*v.shape):
                out[pre + i] = _py(v[i])
        elif isinstance(v, (list, tuple, range)):
            for i, w in enumerate(v):
                fill(pre + (i,), w)
        else:
            out[pre] = _py(v)

    fill((), x)
    return out


class _DtypeShim:
    pass


# ------------------------------------------------------------------ np functions
def _mkfull(shape, v):
    c = core.ctx()
    if isinstance(shape, (list, tuple)):
        shape = tuple(c.concretize(s) if is_sym(s) else int(s) for s in shape)
    else:
        shape = c.concretize(shape) if is_sym(shape) else int(shape)
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a.view(SymArray)


def _dt_bool(dtype):
    return dtype is bool or dtype is np.bool_ or dtype == "bool"


def f_zeros(shape, dtype=None, **k):
    return _mkfull(shape, False if _dt_bool(dtype) else 0)


def f_ones(shape, dtype=None, **k):
    return _mkfull(shape, True if _dt_bool(dtype) else 1)


def f_full(shape, v, dtype=None, **k):
    return _mkfull(shape, v)


def f_empty(shape, dtype=None, **k):
    return _mkfull(shape, None if dtype is object else 0)


def f_array(x, dtype=None, copy=True, **k):
    if isinstance(x, np.ndarray):
        r = np.array(x.view(np.ndarray), dtype=object, copy=True).view(SymArray)
    else:
        r = _to_obj_array(x).view(SymArray)
    if _dt_bool(dtype):
        r = r.astype(bool)
    nd = k.get("ndmin", 0)
    while r.ndim < nd:
        r = r[np.newaxis]
    return r


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray):
        return x.astype(bool) if _dt_bool(dtype) else x
    return f_array(x, dtype)


def f_arange(*a, dtype=None, **k):
    c = core.ctx()
    a = [c.concretize(v) if is_sym(v) else v for v in a]
    return wrap(np.arange(*a).astype(object))


def f_zeros_like(a, dtype=None, **k):
    return _mkfull(np.shape(a), False if _dt_bool(dtype) else 0)


def f_ones_like(a, dtype=None, **k):
    return _mkfull(np.shape(a), True if _dt_bool(dtype) else 1)


def f_full_like(a, v, dtype=None, **k):
    return _mkfull(np.shape(a), v)


def f_where(cond, *xy):
    if not xy:
        return f_asarray(cond).nonzero()
    return wrap(_elementwise(lambda c, a, b: ite(c, a, b), *[np.asarray(v) if isinstance(v, np.ndarray) else _as_obj(v) for v in (cond,) + tuple(xy)]))


def f_copy(a, *r, **k):
    return f_array(a)


def f_clip(a, lo=None, hi=None, *r, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))

    def g(v):
        if lo is not None:
            v = ite(v < lo, lo, v)
        if hi is not None:
            v = ite(v > hi, hi, v)
        return v

    if not isinstance(a, (np.ndarray, list, tuple)):
        return g(a)
    return wrap(_elementwise(g, f_asarray(a)))


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return f_asarray(a).sum(axis=axis, keepdims=keepdims)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return And([x for x in np.asarray(f_isclose(a, b, rtol, atol)).flat])


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = _elementwise(lambda x, y: _isclose(x, y, rtol, atol), *[v if isinstance(v, np.ndarray) else _as_obj(v) for v in (a, b)])
    return r if not isinstance(r, np.ndarray) else wrap(r)


def f_array_equal(a, b, **k):
    a, b = f_asarray(a), f_asarray(b)
    if a.shape != b.shape:
        return False
    return And([x == y for x, y in zip(a.flat, b.flat)])


def _meth(name):
    def f(a, *args, **k):
        return getattr(f_asarray(a), name)(*args, **k)

    return f


def f_count_nonzero(a, axis=None, **k):
    return _reduce(_ARITH["add"], _elementwise(lambda v: ite(v != 0, 1, 0), f_asarray(a)), axis, False, 0)


def f_isin(a, vals, **k):
    vals = list(np.asarray(f_asarray(vals)).flat)
    return wrap(_elementwise(lambda x: Or([x == v for v in vals]), f_asarray(a)))


def f_nonzero(a):
    return f_asarray(a).nonzero()


def f_flatnonzero(a):
    return f_asarray(a).ravel().nonzero()[0]


def f_argwhere(a):
    return np.transpose(f_asarray(a).nonzero())


def f_repeat(a, n, axis=None):
    r = np.repeat(np.asarray(f_asarray(a)).view(np.ndarray), n, axis=axis)
    return wrap(r)


def f_diff(a, **k):
    a = f_asarray(a)
    return a[1:] - a[:-1]


def f_dot(a, b):
    a, b = f_asarray(a), f_asarray(b)
    if a.ndim == b.ndim == 1:
        return (a * b).sum()
    raise Unsupported("np.dot n-d")


def f_take(a, idx, axis=None, **k):
    a = f_asarray(a)
    if axis is None:
        a = a.ravel()
        return a[idx]
    raise Unsupported("np.take axis")


def f_cumsum(a, axis=None, **k):
    return np.add.accumulate(f_asarray(a))


def f_sort(a, *r, **k):
    items = list(f_asarray(a).flat)
    return f_array(sorted(items))


def f_unique(a, *r, **k):
    if r or k:
        raise Unsupported("np.unique options")
    out = []
    for x in f_sort(a):
        if not out or not (x == out[-1]):
            out.append(x)
    return f_array(out)


def f_bincount(a, weights=None, minlength=0):
    r = _mkfull(minlength, 0)
    for x in f_asarray(a).flat:
        r[x] += 1
    return r


def f_eye(n, *r, **k):
    return wrap(np.eye(n).astype(object))


_TABLE = {
    np.zeros: f_zeros,
    np.ones: f_ones,
    np.full: f_full,
    np.empty: f_empty,
    np.array: f_array,
    np.asarray: f_asarray,
    np.asanyarray: f_asarray,
    np.ascontiguousarray: f_asarray,
    np.arange: f_arange,
    np.zeros_like: f_zeros_like,
    np.ones_like: f_ones_like,
    np.empty_like: f_zeros_like,
    np.full_like: f_full_like,
    np.where: f_where,
    np.copy: f_copy,
    np.clip: f_clip,
    np.sum: f_sum,
    np.allclose: f_allclose,
    np.isclose: f_isclose,
    np.array_equal: f_array_equal,
    np.max: _meth("max"),
    np.amax: _meth("max"),
    np.min: _meth("min"),
    np.amin: _meth("min"),
    np.any: _meth("any"),
    np.all: _meth("all"),
    np.prod: _meth("prod"),
    np.mean: _meth("mean"),
    np.argmax: _meth("argmax"),
    np.count_nonzero: f_count_nonzero,
    np.isin: f_isin,
    np.nonzero: f_nonzero,
    np.flatnonzero: f_flatnonzero,
    np.argwhere: f_argwhere,
    np.repeat: f_repeat,
    np.diff: f_diff,
    np.dot: f_dot,
    np.take: f_take,
    np.cumsum: f_cumsum,
    np.sort: f_sort,
    np.unique: f_unique,
    np.bincount: f_bincount,
    np.eye: f_eye,
    np.identity: f_eye,
    np.fromiter: lambda it, dtype=None, count=-1, **k: f_array(list(it)),
}

# numpy functions that only move elements around: safe on object arrays
_STRUCT = {
    "reshape", "ravel", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "transpose", "moveaxis", "swapaxes",
    "expand_dims", "squeeze", "broadcast_to", "tile", "roll", "flip", "split", "array_split", "append", "delete", "insert", "pad",
    "atleast_1d", "atleast_2d", "rollaxis", "fliplr", "flipud", "rot90", "shape", "ndim", "size", "resize", "copyto", "diag",
}


def dispatch(func, args, kwargs):
    f = _TABLE.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = getattr(func, "__name__", "?")
    if name in _STRUCT:

        def strip(x):
            if isinstance(x, SymSeq):
                x = list(x)
            if isinstance(x, SymArray):
                return x.view(np.ndarray)
            if isinstance(x, (list, tuple)):
                if has_sym(x) and not any(isinstance(y, np.ndarray) for y in x):
                    return _to_obj_array(x)
                return type(x)(strip(y) for y in x)
            return x

        if name == "copyto":
            args[0][...] = args[1]
            return None
        r = func(*[strip(a) for a in args], **{k: strip(v) for k, v in kwargs.items()})
        if isinstance(r, (list, tuple)) and r and isinstance(r[0], np.ndarray):
            return [wrap(x) for x in r]
        return wrap(r) if isinstance(r, np.ndarray) else r
    if not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()):
        r = func(*[_numeric(a) if isinstance(a, SymArray) else a for a in args], **kwargs)
        return r
    raise Unsupported("numpy function %s on symbolic data" % name)


class NumpyShim:
    """Stands for the name `np` in the modules under test."""

    def __init__(self):
        self.__name__ = "numpy"

    def __getattr__(self, name):
        real = getattr(np, name)
        f = _TABLE.get(real) if callable(real) and getattr(real, "__hash__", None) else None
        if f is not None:
            return f
        if name in _STRUCT:
            return lambda *a, **k: dispatch(real, a, k)
        if isinstance(real, np.ufunc):
            return _UfuncShim(real)
        if callable(real) and not isinstance(real, type) and name not in ("errstate", "dtype", "seterr", "printoptions"):

            def g(*a, **k):
                if any(has_sym(x) for x in a) or any(isinstance(x, SymArray) for x in a):
                    return dispatch(real, a, k)
                return real(*a, **k)

            return g
        return real


class _UfuncShim:
    def __init__(self, real):
        self._u = real

    def __call__(self, *a, **k):
        if any(isinstance(x, SymArray) for x in a) or not any(has_sym(x) for x in a):
            return self._u(*[list(x) if isinstance(x, SymSeq) else x for x in a], **k)
        a = [f_asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
        n = self._u.__name__
        f = _CMP.get(n) or _FUNCS.get(n) or _ARITH.get(n)
        if f is None:
            raise Unsupported("numpy ufunc %s" % n)
        r = _elementwise(f, *[x if isinstance(x, np.ndarray) else _as_obj(x) for x in a])
        return wrap(r) if isinstance(r, np.ndarray) else r

    def __getattr__(self, n):
        return getattr(self._u, n)
