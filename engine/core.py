"""Dynamic symbolic execution of real Python bytecode with z3.

The code under test runs unmodified in CPython on proxy values.  Every time a
symbolic condition is used as a Python truth value the explorer asks z3 which
outcomes are possible on the current path and schedules the others; a harness
is re-executed once per feasible path until none is left.  Integers are signed
bit-vectors whose width always covers the (interval) range of the value, so
nothing wraps: they are mathematical integers.  Reals are z3 Reals.
"""
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

sys.setrecursionlimit(20000)


class Unsupported(BaseException):
    """The engine cannot encode an operation: inconclusive, never a pass."""


class Inconclusive(BaseException):
    """Solver said unknown, or a bound/fuel limit was hit."""


class Infeasible(BaseException):
    """The current path's assumptions are contradictory: drop the path."""


class PathEnd(BaseException):
    """A definite violation was found on this path; stop executing it."""


# ----------------------------------------------------------------------------
_CTX = None


def ctx():
    return _CTX


def set_ctx(c):
    global _CTX
    _CTX = c


class Stats:
    FIELDS = (
        "paths",
        "branches",
        "forks",
        "queries",
        "sat",
        "unsat",
        "unknown",
        "checks",
        "solver_time",
        "infeasible",
        "replayed",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class SymContext:
    """One symbolic path."""

    symbolic = True

    def __init__(self, solver, prefix, stats, tier="quick", max_branches=60000, known=()):
        self.solver = solver  # IncSolver
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []  # (prefix) alternatives found
        self.stats = stats
        self.model = None
        self.vars = {}
        self.kinds = {}
        self.checks = []  # (cond_expr, label, info)
        self.covers = set()
        self.cover_tries = {}
        self.obs = []
        self.aborted = None
        self.violation = None
        self.max_branches = max_branches
        self.tier = tier
        self.known = set(known)
        self.notes = {}
        self.tokens = {}
        self.uf_calls = {}
        self.cleanups = []
        self.decided = {}
        solver.restart()

    # ------------------------------------------------------------ variables
    def _name(self, name):
        if name in self.vars:
            raise Unsupported("duplicate variable " + name)
        self._last = name
        return name

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.vars[name] = lo
            self.kinds[name] = "const"
            return lo
        hit = _VARCACHE.get((name, lo, hi))
        if hit is not None:
            s, c = hit
            self.vars[name] = s
            self.kinds[name] = "int"
            if c is not None:
                self._add_known(c)
            return s
        if lo >= 0:
            w = max(int(hi).bit_length(), 1)
            v = z3.BitVec("%s[%d,%d]" % (name, lo, hi), w)
            e = z3.ZeroExt(1, v)
            s = SymInt(e, w + 1, lo, hi)
            full = lo == 0 and hi == (1 << w) - 1
            if hi - lo < 40:
                s.tab = (Base(name, s.e, s.w, tuple(range(lo, hi + 1))), tuple(range(lo, hi + 1)))
        else:
            w = max(int(hi).bit_length(), int(~lo).bit_length()) + 1
            v = z3.BitVec("%s[%d,%d]" % (name, lo, hi), w)
            s = SymInt(v, w, lo, hi)
            full = False
        self.vars[name] = s
        self.kinds[name] = "int"
        c = None
        if not full:
            c = z3.simplify(z3.And(s.e >= z3.BitVecVal(lo, s.w), s.e <= z3.BitVecVal(hi, s.w)))
            self._add_known(c)
        _VARCACHE[(name, lo, hi)] = (s, c)
        return s

    def choice(self, name, values):
        """An integer that is one of `values` (any of them)."""
        values = tuple(sorted(set(values)))
        if len(values) == 1:
            return self.int(name, values[0], values[0])
        if len(values) == values[-1] - values[0] + 1:
            return self.int(name, values[0], values[-1])
        hit = _VARCACHE.get((name, values))
        self._name(name)
        self.kinds[name] = "int"
        if hit is None:
            # the solver's name says which values: equal terms have equal bounds
            w = _bits(values[0], values[-1])
            s = SymInt(z3.BitVec("%s%s" % (name, list(values)), w), w, values[0], values[-1])
            s = SymInt(s.e, s.w, s.lo, s.hi, values if len(values) <= DOM_MAX else None)
            if len(values) <= TAB_MAX:
                s.tab = (Base((name, values), s.e, s.w, values), values)
            c = z3.simplify(z3.Or([s.e == bvv(v, s.w) for v in values]))
            _VARCACHE[(name, values)] = (s, c)
        else:
            s, c = hit
        self.vars[self._last] = s
        self._add_known(c)
        return s

    def _add_known(self, c):
        self.solver.push_add(c)
        if self.model is not None and self._eval_bool(c) is not True:
            self.model = None

    def bool(self, name):
        name = self._name(name)
        b = SymBool(z3.Bool(name))
        self.vars[name] = b
        self.kinds[name] = "bool"
        return b

    def real(self, name, lo=None, hi=None):
        name = self._name(name)
        r = SymReal(z3.Real(name))
        self.vars[name] = r
        self.kinds[name] = "real"
        if lo is not None:
            self._assume_expr(r.e >= realval(lo))
        if hi is not None:
            self._assume_expr(r.e <= realval(hi))
        return r

    def whole(self, name, lo, hi):
        """An integer for use in real arithmetic (harnesses with reals=True)."""
        name = self._name(name)
        v = z3.Int(name)
        r = SymReal(z3.ToReal(v))
        self.vars[name] = v
        self.kinds[name] = "whole"
        self._assume_expr(v >= lo)
        self._assume_expr(v <= hi)
        return r

    def unknown_real(self, name, facts):
        """A real the encoding knows only facts about (not an input)."""
        self.n_unknown = getattr(self, "n_unknown", 0) + 1
        r = SymReal(z3.Real("%s#%d" % (name, self.n_unknown)))
        for f in facts(r):
            if isinstance(f, SymBool):
                self._assume_expr(f.e)
            elif not f:
                raise Infeasible()
        return r

    def pick(self, name, options):
        """A concrete member of options, forked over."""
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize(i)]

    def fork_int(self, name, lo, hi):
        return self.concretize(self.int(name, lo, hi))

    # ------------------------------------------------------------ solving
    def _check(self, *extra):
        return self.solver.check(self.stats, *extra)

    def _need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def _eval_bool(self, e):
        v = self._need_model().eval(e, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _assume_expr(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.solver.push_add(e)
        if self.model is not None:
            if self._eval_bool(e) is not True:
                self.model = None

    def assume(self, cond):
        """Constrain the inputs.  Checked for feasibility at once."""
        if isinstance(cond, SymBool):
            self._assume_expr(cond.e)
            if self.pos >= len(self.prefix):
                self._need_model()
        elif not cond:
            raise Infeasible()

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def branch(self, e):
        """Decide a symbolic boolean on this path."""
        self.stats.branches += 1
        known = self.decided.get(e)
        if known is not None:
            return known
        taken = self._branch(e)
        self.decided[e] = taken
        return taken

    def always(self, cond):
        """Does cond hold on the whole path?  (no fork; replays the recorded answer)"""
        if not isinstance(cond, SymBool):
            return bool(cond)
        if self.pos < len(self.prefix):
            rec = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(rec)
            return rec[0]
        self.pos += 1
        yes = self._eval_bool(cond.e) is True and self._check(z3.Not(cond.e)) == z3.unsat
        self.trace.append((yes, True))
        return yes

    def _branch(self, e):
        if len(self.trace) > self.max_branches:
            self.abort(Inconclusive("branch bound %d reached" % self.max_branches))
        if self.pos < len(self.prefix):
            taken, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((taken, forced))
            if not forced:
                self.solver.push_add(e if taken else z3.Not(e))
                self.model = None
            return taken
        taken = self._eval_bool(e)
        if taken is None:
            self.model = None
            taken = self._eval_bool(e)
            if taken is None:
                r = self._check(e)
                taken = r == z3.sat
        other = z3.Not(e) if taken else e
        r = self._check(other)
        self.pos += 1
        if r == z3.unsat:
            self.trace.append((taken, True))
            return taken
        self.stats.forks += 1
        self.pending.append(self.trace + [(not taken, False)])
        self.trace.append((taken, False))
        self.solver.push_add(e if taken else z3.Not(e))
        return taken

    def concretize(self, x):
        """A concrete value for a SymInt on this path (forks over all)."""
        if not isinstance(x, SymInt):
            return x
        if x.hi - x.lo > 4096:
            self.abort(Unsupported("concretising a value with range %d..%d" % (x.lo, x.hi)))
        while True:
            # deterministic on replay: record the value tried in the trace
            if self.pos < len(self.prefix):
                rec = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(rec)
                v, taken, forced = rec
                if not forced:
                    e = x.e == z3.BitVecVal(v, x.w)
                    self.solver.push_add(e if taken else z3.Not(e))
                    self.model = None
                if taken:
                    return v
                continue
            self.stats.branches += 1
            m = self._need_model()
            v = m.eval(x.e, model_completion=True).as_signed_long()
            e = x.e == z3.BitVecVal(v, x.w)
            r = self._check(z3.Not(e))
            self.pos += 1
            if r == z3.unsat:
                self.trace.append((v, True, True))
            else:
                self.stats.forks += 1
                self.pending.append(self.trace + [(v, False, False)])
                self.trace.append((v, True, False))
                self.solver.push_add(e)
            return v

    # ------------------------------------------------------------ asserting
    def check(self, cond, label, info=None):
        self.stats.checks += 1
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            self.checks.append((e, label, info))
        else:
            if not cond:
                self.checks.append((z3.BoolVal(False), label, info))
                if label not in self.known:
                    raise PathEnd()

    def cover(self, label, cond=True):
        if label in self.covers:
            return
        if isinstance(cond, SymBool):
            if self._eval_bool(cond.e) is not True:
                if self.cover_tries.get(label, 20) <= 0:
                    return
                self.cover_tries[label] = self.cover_tries.get(label, 20) - 1
                if self._check(cond.e) != z3.sat:
                    return
            self.cover_tries[label] = 0
        elif not cond:
            return
        self.covers.add(label)

    def observe(self, name, value):
        """Value compared with a concrete run of the real code for this path."""
        self.obs.append((name, value))

    def note(self, k, v):
        self.notes[k] = v

    def input_values(self, model):
        out = {}
        for n, v in self.vars.items():
            k = self.kinds[n]
            if k == "const":
                out[n] = v
            elif k == "int":
                out[n] = model.eval(v.e, model_completion=True).as_signed_long()
            elif k == "whole":
                out[n] = model.eval(v, model_completion=True).as_long()
            elif k == "bool":
                out[n] = z3.is_true(model.eval(v.e, model_completion=True))
            else:
                q = model.eval(v.e, model_completion=True)
                if z3.is_algebraic_value(q):
                    q = q.approx(20)
                out[n] = [q.numerator_as_long(), q.denominator_as_long()]
        return out

    def finish(self):
        """Discharge the path's assertions.  Returns list of violations
        (label, info, inputs) and leaves self.model a model of the path."""
        out = []
        if not self.checks:
            return out
        live = [c for c in self.checks if c[1] not in self.known]
        kn = [c for c in self.checks if c[1] in self.known]
        for group in ([live] if live else []) + [[c] for c in kn]:
            neg = z3.Or([z3.Not(c[0]) for c in group]) if len(group) > 1 else z3.Not(group[0][0])
            r = self._check(neg)
            if r == z3.unsat:
                continue
            m = self.solver.model()
            bad = None
            for e, label, info in group:
                if not z3.is_true(m.eval(e, model_completion=True)):
                    bad = (label, info)
                    break
            out.append((bad[0], conc(bad[1], m), self.input_values(m)))
        return out

    def value(self, model, v):
        return conc(v, model)


class IncSolver:
    """z3 solver whose assertion stack is reused between paths sharing a prefix."""

    def __init__(self, timeout_ms=60000, fd=True):
        self.timeout_ms = timeout_ms
        self.fd = fd  # pure bit-vector problems
        self._fresh()

    def _fresh(self):
        self.s = z3.SolverFor("QF_FD") if self.fd else z3.Solver()
        self.s.set("timeout", self.timeout_ms)
        self.stack = []
        self.n = 0

    def restart(self):
        self.n = 0

    def push_add(self, e):
        if self.n < len(self.stack):
            if self.stack[self.n].eq(e):
                self.n += 1
                return
            self.s.pop(len(self.stack) - self.n)
            del self.stack[self.n :]
        self.s.push()
        self.s.add(e)
        self.stack.append(e)
        self.n += 1

    def _align(self):
        if self.n < len(self.stack):
            self.s.pop(len(self.stack) - self.n)
            del self.stack[self.n :]

    def check(self, stats, *extra):
        self._align()
        t = time.perf_counter()
        stats.queries += 1
        r = self.s.check(*extra)
        self.last = self.s
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", self.timeout_ms * 2)
            s2.add(*self.stack)
            s2.add(*extra)
            r = s2.check()
            self.last = s2
        stats.solver_time += time.perf_counter() - t
        if r == z3.sat:
            stats.sat += 1
        elif r == z3.unsat:
            stats.unsat += 1
        else:
            stats.unknown += 1
            exc = Inconclusive("solver returned unknown: " + self.last.reason_unknown())
            if _CTX is not None:
                _CTX.aborted = exc
            raise exc
        return r

    def model(self):
        return self.last.model()


class ConcContext:
    """The same harness on plain values: replay of one assignment."""

    symbolic = False

    def __init__(self, inputs, tier="quick"):
        self.inputs = inputs
        self.failed = []
        self.covers = set()
        self.obs = []
        self.tier = tier
        self.notes = {}
        self.known = set()
        self.cleanups = []
        self.used = set()

    def _get(self, name, default):
        self.used.add(name)
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise Infeasible()
        return v

    def choice(self, name, values):
        v = self._get(name, min(values))
        if v not in values:
            raise Infeasible()
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None):
        n, d = self._get(name, [0, 1])
        v = n / d
        return v

    def whole(self, name, lo, hi):
        return self.int(name, lo, hi)

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def fork_int(self, name, lo, hi):
        return self.int(name, lo, hi)

    def concretize(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, label, info=None):
        if not cond:
            self.failed.append((label, conc(info, None)))
            if len(self.failed) > 300:  # code that goes on for ever would do so here
                raise PathEnd()

    def cover(self, label, cond=True):
        if cond:
            self.covers.add(label)

    def observe(self, name, value):
        self.obs.append((name, value))

    def note(self, k, v):
        self.notes[k] = v


# ----------------------------------------------------------------------------
def conc(v, m):
    """Evaluate a (possibly nested) symbolic value under a model to plain data."""
    import numpy as np

    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_signed_long()
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymReal):
        q = z3.simplify(m.eval(v.e, model_completion=True))
        if z3.is_algebraic_value(q):
            q = q.approx(20)
        return Fraction(q.numerator_as_long(), q.denominator_as_long())
    if isinstance(v, np.ndarray):
        return [conc(x, m) for x in v] if v.ndim else conc(v.item(), m)
    if isinstance(v, (list, tuple)):
        return [conc(x, m) for x in v]
    if isinstance(v, dict):
        return {k: conc(x, m) for k, x in v.items()}
    if isinstance(v, (np.integer, np.floating, np.bool_)):
        return v.item()
    if hasattr(v, "_sym_data"):
        return conc(v._sym_data(), m)
    if hasattr(v, "tolist"):
        return v.tolist()
    return v


def _bits(lo, hi):
    """Signed width for [lo, hi]."""
    return max(lo.bit_length() if lo >= 0 else (~lo).bit_length(), hi.bit_length() if hi >= 0 else (~hi).bit_length()) + 1


_VARCACHE = {}
_BVV = {}


def bvv(v, w):
    r = _BVV.get((v, w))
    if r is None:
        r = _BVV[(v, w)] = z3.BitVecVal(v, w)
    return r


def realval(v):
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite real constant")
        return z3.RealVal(str(Fraction(v)))
    return z3.RealVal(int(v))


_np = None


def _numpy():
    global _np
    if _np is None:
        import numpy

        _np = numpy
    return _np


def norm(v):
    """Python/numpy scalar -> int | Fraction-able float | Sym*; None if other."""
    if isinstance(v, (SymInt, SymBool, SymReal)):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return int(v) if v == v and abs(v) != float("inf") and v == int(v) else v
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else v
    np = _numpy()
    if isinstance(v, np.bool_):
        return int(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.floating):
        return norm(float(v))
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return norm(v.item())
    return None


class _Sym:
    __array_priority__ = 1000
    __slots__ = ()
    dtype = object

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def to_int(v):
    """Coerce to SymInt or int."""
    if isinstance(v, SymBool):
        return v.as_int()
    return v


class SymBool(_Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        e = z3.simplify(self.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return _CTX.branch(e)

    def as_int(self):
        e = z3.simplify(self.e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return SymInt(z3.If(e, bvv(1, 2), bvv(0, 2)), 2, 0, 1, None, None, _indicator(e, 1, 0))

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e))
        if isinstance(o, _numpy().bool_):
            return self if bool(o) else False
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _numpy().bool_)):
            return True if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e))
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, _numpy().bool_)):
            return ~self if o else self
        if isinstance(o, SymBool):
            return SymBool(z3.Xor(self.e, o.e))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __invert__(self):  # numpy logical not semantics (np.bool_), not int
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        if norm(o) is None:
            return False
        return mk_int(self.as_int()) == o

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        return mk_int(self.as_int()) < o

    def __le__(self, o):
        return mk_int(self.as_int()) <= o

    def __gt__(self, o):
        return mk_int(self.as_int()) > o

    def __ge__(self, o):
        return mk_int(self.as_int()) >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __neg__(self):
        return -self.as_int()

    def __truediv__(self, o):
        return self.as_int() / o

    def __lshift__(self, o):
        return self.as_int() << o

    def __rlshift__(self, o):
        return o << self.as_int()

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return "<symbool>"

    def __format__(self, s):
        return "<symbool>"

    def astype(self, t, **k):
        return self

    def copy(self):
        return self

    logical_not = __invert__


def mk_int(v):
    """Wrap a python int as SymInt-compatible (leave ints alone)."""
    return v


def _const(v, w):
    return bvv(v, w)


def _parts(r):
    """arguments for _mk from a SymInt or int"""
    if isinstance(r, int):
        return bvv(r, _bits(r, r)), _bits(r, r), r, r
    return r.e, r.w, r.lo, r.hi


def _ext(s, w):
    """expr of s (SymInt or int) at width w >= needed."""
    if isinstance(s, int):
        return bvv(s, w)
    if s.w == w:
        return s.e
    if s.w < w:
        return z3.SignExt(w - s.w, s.e)
    return z3.Extract(w - 1, 0, s.e)


def _rng(s):
    return (s, s) if isinstance(s, int) else (s.lo, s.hi)


def values_of(x, default=None):
    """The values an int or SymInt may take, as a set (over-approximated)."""
    if isinstance(x, SymInt):
        return set(x.dom) if x.dom is not None else set(range(x.lo, x.hi + 1))
    return {int(x)}


DOM_MAX = 96  # value sets larger than this are kept as a range only
DOM_PROD = 256


TAB_MAX = 160


class Base:
    """A variable with few values; terms over it alone are tables."""

    def __init__(self, key, e, w, values):
        self.key, self.e, self.w, self.values = key, e, w, values
        self.conds = {}

    def cond(self, bits):
        """The z3 condition that the variable is where bits are set."""
        if all(bits):
            return True
        if not any(bits):
            return False
        c = self.conds.get(bits)
        if c is None:
            n = sum(bits)
            neg = n * 2 > len(bits) or (n * 2 == len(bits) and not bits[0])
            vs = [v for v, b in zip(self.values, bits) if b != neg]
            if len(vs) > 3 and vs[-1] - vs[0] == len(vs) - 1:
                c = z3.And(self.e >= bvv(vs[0], self.w), self.e <= bvv(vs[-1], self.w))
            else:
                c = z3.Or([self.e == bvv(v, self.w) for v in vs]) if len(vs) > 1 else self.e == bvv(vs[0], self.w)
            c = z3.simplify(z3.Not(c) if neg else c)
            self.conds[bits] = c
        return c


def from_table(base, res):
    """The term that takes res[i] when base has its i-th value."""
    distinct = sorted(set(res), key=lambda r: (res.count(r), r))
    if len(distinct) == 1:
        return distinct[0]
    lo, hi = min(distinct), max(distinct)
    w = _bits(lo, hi)
    e = bvv(distinct[-1], w)
    for r in distinct[:-1]:
        e = z3.If(base.cond(tuple(x == r for x in res)), bvv(r, w), e)
    return SymInt(z3.simplify(e), w, lo, hi, tuple(sorted(distinct)), (base, tuple(res)))


def _tab2(a, b, f):
    if isinstance(a, SymInt) and a.tab is not None:
        if isinstance(b, int):
            return a.tab[0], tuple(f(x, b) for x in a.tab[1])
        if b.tab is not None and b.tab[0] is a.tab[0]:
            return a.tab[0], tuple(f(x, y) for x, y in zip(a.tab[1], b.tab[1]))
        return None
    if isinstance(a, int) and b.tab is not None:
        return b.tab[0], tuple(f(a, y) for y in b.tab[1])
    return None


# Linear forms: constant + sum of coefficient * term, terms being truth values or
# integers.  They keep x - 1 + 1 from growing and give exact bounds for counters.
LIN_MAX = 24


def _lin(s):
    if isinstance(s, int):
        return s, {}
    if s.lin is None:
        return 0, {s.e.get_id(): (1, s.e, s.w, s.lo, s.hi)}
    return s.lin


def _lin_add(a, b, ca, cb):
    (ka, da), (kb, db) = _lin(a), _lin(b)
    if len(da) + len(db) > LIN_MAX:
        return None, False
    d = dict(da) if ca == 1 else {k: (v[0] * ca,) + v[1:] for k, v in da.items()}
    cancelled = False
    for k, v in db.items():
        o = d.get(k)
        if o is None:
            d[k] = v if cb == 1 else (v[0] * cb,) + v[1:]
        else:
            cancelled = True
            c = o[0] + cb * v[0]
            if c:
                d[k] = (c,) + v[1:]
            else:
                del d[k]
    return (ca * ka + cb * kb, d), cancelled


def _lin_range(lin):
    lo = hi = lin[0]
    for c, _, _, a, b in lin[1].values():
        lo += c * a if c > 0 else c * b
        hi += c * b if c > 0 else c * a
    return lo, hi


def _lin_expr(lin, w):
    e = bvv(lin[0], w)
    for c, t, tw, a, b in lin[1].values():
        if z3.is_bool(t):
            e = e + z3.If(t, bvv(c, w), bvv(0, w))
        else:
            e = e + bvv(c, w) * _ext(SymInt(t, tw, a, b), w)
    return e


def _indicator(c, a, b):
    """lin of `a if c else b` for a z3 Bool c and ints a, b"""
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    return b, {c.get_id(): (a - b, c, 1, 0, 1)}


def _dom(s):
    """The possible values (sorted tuple) if few and known, else None."""
    if isinstance(s, int):
        return (s,)
    if s.dom is not None:
        return s.dom
    if s.hi - s.lo < 8:
        return tuple(range(s.lo, s.hi + 1))
    return None


def _dom2(a, b, f):
    """Value set of f(a, b); None when not tracked."""
    if (isinstance(a, int) or a.dom is None) and (isinstance(b, int) or b.dom is None):
        return None
    da, db = _dom(a), _dom(b)
    if da is None or db is None or len(da) * len(db) > DOM_PROD:
        return None
    return {f(x, y) for x in da for y in db}


def _mk(e, w, lo, hi, dom=None, tab=None, lin=None):
    """Build a SymInt of range [lo,hi] from an expr of width w (>= needed)."""
    if tab is not None:
        dom = set(tab[1])
    if lin is not None:
        a, b = _lin_range(lin)
        lo, hi = max(lo, a), min(hi, b)
    if dom is not None:
        lo, hi = max(lo, min(dom)), min(hi, max(dom))
        if len(dom) == hi - lo + 1 or len(dom) > DOM_MAX:
            dom = None
        else:
            dom = tuple(sorted(dom))
    if lo == hi:
        return lo
    need = _bits(lo, hi)
    if need < w:
        e = z3.Extract(need - 1, 0, e)
        w = need
    return SymInt(z3.simplify(e), w, lo, hi, dom, tab, lin)


class SymInt(_Sym):
    __slots__ = ("e", "w", "lo", "hi", "dom", "tab", "lin", "prov")

    def __init__(self, e, w, lo, hi, dom=None, tab=None, lin=None):
        self.tab = tab  # (Base, values): the term as a table over one variable
        self.lin = lin
        self.prov = None  # where an array element was read from (npshim)
        self.e = e
        self.w = w
        self.lo = lo
        self.hi = hi
        self.dom = dom

    # -------------------------------------------------- helper
    @staticmethod
    def _other(o):
        o = norm(o)
        if isinstance(o, SymBool):
            o = o.as_int()
        return o

    def _arith(self, o, f, rng, ca=0, cb=0):
        o = SymInt._other(o)
        if o is None:
            return NotImplemented
        if isinstance(o, (float, Fraction, SymReal)):
            return NotReal
        lo, hi = rng(_rng(self), _rng(o))
        w = max(_bits(lo, hi), self.w, 2 if isinstance(o, int) else o.w, _bits(*_rng(o)))
        tab = _tab2(self, o, f)
        lin = None
        if ca and tab is None:
            lin, cancelled = _lin_add(self, o, ca, cb)
            if lin is not None and cancelled:
                if not lin[1]:
                    return lin[0]
                if len(lin[1]) == 1 and lin[0] == 0:
                    ((c, t, tw, a, b),) = lin[1].values()
                    if c == 1 and not z3.is_bool(t):
                        return SymInt(t, tw, a, b)
                a, b = _lin_range(lin)
                lo, hi = max(lo, a), min(hi, b)
                w = max(w, _bits(a, b), _bits(lin[0], lin[0]), *[max(_bits(v[0], v[0]), v[2] if not z3.is_bool(v[1]) else 2) for v in lin[1].values()])
                return _mk(_lin_expr(lin, w), w, lo, hi, _dom2(self, o, f), None, lin)
        r = _mk(f(_ext(self, w), _ext(o, w)), w, lo, hi, None if tab else _dom2(self, o, f), tab, lin)
        if self.prov is not None and cb and ca == 1 and isinstance(o, int) and isinstance(r, SymInt):
            r.prov = (self.prov[0], self.prov[1], self.prov[2] + cb * o)
        return r

    def __add__(self, o):
        o2 = SymInt._other(o)
        if isinstance(o2, int) and o2 == 0:
            return self
        r = self._arith(o, lambda a, b: a + b, lambda a, b: (a[0] + b[0], a[1] + b[1]), 1, 1)
        return self.as_real() + o if r is NotReal else r

    __radd__ = __add__

    def __sub__(self, o):
        o2 = SymInt._other(o)
        if isinstance(o2, int) and o2 == 0:
            return self
        r = self._arith(o, lambda a, b: a - b, lambda a, b: (a[0] - b[1], a[1] - b[0]), 1, -1)
        return self.as_real() - o if r is NotReal else r

    def __rsub__(self, o):
        r = self._arith(o, lambda a, b: b - a, lambda a, b: (b[0] - a[1], b[1] - a[0]), -1, 1)
        return o - self.as_real() if r is NotReal else r

    def __mul__(self, o):
        o2 = SymInt._other(o)
        if isinstance(o2, int):
            if o2 == 0:
                return 0
            if o2 == 1:
                return self

        def rng(a, b):
            c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            return min(c), max(c)

        r = self._arith(o, lambda a, b: a * b, rng)
        return self.as_real() * o if r is NotReal else r

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    def _divmod(self, o):
        """floor semantics"""
        o = SymInt._other(o)
        if isinstance(o, SymInt):
            o = _CTX.concretize(o)
        if isinstance(o, (float, Fraction, SymReal)):
            raise Unsupported("floor division by a non-integer")
        if o is None:
            return None
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod(-o) if isinstance(-self, SymInt) else divmod(-self, -o)
            return q, -r
        return self._div(o), self._mod(o)

    def _div(self, o):
        if self.tab is not None:
            res = tuple(v // o for v in self.tab[1])
            if res == self.tab[1]:
                return self
            return from_table(self.tab[0], res) if self.tab[0].values != self.tab[1] or o & (o - 1) else _mk(*_parts(self._div0(o)), tab=(self.tab[0], res))
        r = self._div0(o)
        if self.dom is not None and isinstance(r, SymInt):
            return _mk(r.e, r.w, r.lo, r.hi, {v // o for v in self.dom})
        return r

    def _mod(self, o):
        if self.tab is not None:
            res = tuple(v % o for v in self.tab[1])
            if res == self.tab[1]:
                return self
            return from_table(self.tab[0], res) if self.tab[0].values != self.tab[1] or o & (o - 1) else _mk(*_parts(self._mod0(o)), tab=(self.tab[0], res))
        r = self._mod0(o)
        if self.dom is not None and isinstance(r, SymInt):
            return _mk(r.e, r.w, r.lo, r.hi, {v % o for v in self.dom})
        return r

    def _div0(self, o):
        qlo, qhi = self.lo // o, self.hi // o
        if qlo == qhi:
            return qlo
        w = max(self.w, _bits(0, o))
        a = _ext(self, w)
        b = bvv(o, w)
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            return _mk(a >> k, w, qlo, qhi)
        if self.lo >= 0:
            return _mk(z3.UDiv(a, b), w, qlo, qhi)
        off = -(self.lo // o)  # make non-negative
        w2 = max(_bits(0, self.hi + off * o), w)
        a2 = _ext(self, w2) + bvv(off * o, w2)
        q = z3.UDiv(a2, bvv(o, w2)) - bvv(off, w2)
        return _mk(q, w2, qlo, qhi)

    def _mod0(self, o):
        if self.lo // o == self.hi // o:
            return self - (self.lo // o) * o
        w = max(self.w, _bits(0, o))
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            return _mk(_ext(self, w) & bvv(o - 1, w), w, 0, o - 1)
        if self.lo >= 0:
            return _mk(z3.URem(_ext(self, w), bvv(o, w)), w, 0, o - 1)
        off = -(self.lo // o)
        w2 = max(_bits(0, self.hi + off * o), w)
        a2 = _ext(self, w2) + bvv(off * o, w2)
        return _mk(z3.URem(a2, bvv(o, w2)), w2, 0, o - 1)

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            r = self._div(o)
            c = _CTX
            # a harness may ask for quotients to be decided at once (usually one query)
            return c.concretize(r) if c is not None and getattr(c, "pin_quotients", False) else r
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return self._mod(o)
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o):
        return o // _CTX.concretize(self)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % _CTX.concretize(self)

    def __truediv__(self, o):
        return self.as_real() / o

    def __rtruediv__(self, o):
        return SymReal.lift(o) / self.as_real()

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return _CTX.concretize(self) ** o

    def __rpow__(self, o):
        return o ** _CTX.concretize(self)

    def __lshift__(self, o):
        o = SymInt._other(o)
        if isinstance(o, SymInt):
            o = _CTX.concretize(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << _CTX.concretize(self)

    def __rshift__(self, o):
        o = SymInt._other(o)
        if isinstance(o, SymInt):
            o = _CTX.concretize(o)
        if o < 0:
            raise ValueError("negative shift count")
        return self._div(1 << o)

    def __rrshift__(self, o):
        return o >> _CTX.concretize(self)

    def _bit(self, o, f, kind):
        o = SymInt._other(o)
        if o is None or isinstance(o, (float, Fraction, SymReal)):
            return NotImplemented
        a, b = _rng(self), _rng(o)
        w = max(self.w, _bits(*b))
        if a[0] >= 0 and b[0] >= 0:
            if kind == "and":
                lo, hi = 0, min(a[1], b[1])
            else:
                m = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
                lo, hi = (max(a[0], b[0]) if kind == "or" else 0), m
        elif kind == "and" and (a[0] >= 0 or b[0] >= 0):
            lo, hi = 0, (a[1] if a[0] >= 0 else b[1]) if (a[0] < 0 or b[0] < 0) else min(a[1], b[1])
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        tab = _tab2(self, o, f)
        return _mk(f(_ext(self, w), _ext(o, w)), w, lo, hi, None if tab else _dom2(self, o, f), tab)

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b, "and")

    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b, "xor")

    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    # -------------------------------------------------- comparisons
    def _cmp(self, o, f, always, never):
        o = SymInt._other(o)
        if o is None:
            return NotImplemented
        if isinstance(o, (float, Fraction, SymReal)):
            return None
        a, b = _rng(self), _rng(o)
        if always(a, b):
            return True
        if never(a, b):
            return False
        t = _tab2(self, o, f)
        if t is not None:
            c = t[0].cond(t[1])
            return c if isinstance(c, bool) else SymBool(c)
        w = max(self.w, _bits(*b))
        e = z3.simplify(f(_ext(self, w), _ext(o, w)))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __eq__(self, o):
        if self.dom is not None and isinstance(o, int):
            if o not in self.dom:
                return False
        elif isinstance(o, SymInt) and (self.dom is not None or o.dom is not None):
            a, b = _dom(self), _dom(o)
            if a is not None and b is not None and not set(a) & set(b):
                return False
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a[0] == a[1] == b[0] == b[1], lambda a, b: a[1] < b[0] or b[1] < a[0])
        if r is NotImplemented:
            return False
        return self.as_real() == o if r is None else r

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b, lambda a, b: a[1] < b[0], lambda a, b: a[0] >= b[1])
        return self.as_real() < o if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b, lambda a, b: a[1] <= b[0], lambda a, b: a[0] > b[1])
        return self.as_real() <= o if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b, lambda a, b: a[0] > b[1], lambda a, b: a[1] <= b[0])
        return self.as_real() > o if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b, lambda a, b: a[0] >= b[1], lambda a, b: a[1] < b[0])
        return self.as_real() >= o if r is None else r

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        return hash(_CTX.concretize(self))

    def __index__(self):
        return _CTX.concretize(self)

    def __int__(self):
        return _CTX.concretize(self)

    def __float__(self):
        return float(_CTX.concretize(self))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def as_real(self):
        if self.dom is not None:
            e = realval(self.dom[-1])
            for v in self.dom[:-1]:
                e = z3.If(self.e == bvv(v, self.w), realval(v), e)
            return SymReal(e)
        n = self.hi - self.lo
        if n <= 64:
            e = realval(self.hi)
            for v in range(self.hi - 1, self.lo - 1, -1):
                e = z3.If(self.e == bvv(v, self.w), realval(v), e)
            return SymReal(e)
        if self.lo >= 0:
            return SymReal(z3.ToReal(z3.BV2Int(self.e)))
        off = -self.lo
        sh = self + off
        return SymReal(z3.ToReal(z3.BV2Int(sh.e)) - off)

    def bit_length(self):
        return _CTX.concretize(self).bit_length()

    def is_integer(self):
        return True

    def __repr__(self):
        return "<SymInt %d..%d>" % (self.lo, self.hi)

    def __str__(self):
        return int_token(self)

    def __format__(self, s):
        return int_token(self)

    def astype(self, t, **k):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class _NR:
    pass


NotReal = _NR()


class SymReal(_Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(o):
        o = norm(o)
        if o is None:
            return None
        if isinstance(o, SymReal):
            return o
        if isinstance(o, SymBool):
            o = o.as_int()
        if isinstance(o, SymInt):
            return o.as_real()
        return SymReal(realval(o))

    def _bin(self, o, f, swap=False):
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return SymReal(z3.simplify(f(o.e, self.e) if swap else f(self.e, o.e)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(norm(o), int) and norm(o) == 0:
            return 0
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, a, b):
        z = z3.simplify(b.e == 0)
        if z3.is_true(z) or (not z3.is_false(z) and bool(SymBool(z))):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.simplify(a.e / b.e))

    def __truediv__(self, o):
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return self._div(self, o)

    def __rtruediv__(self, o):
        return self._div(SymReal.lift(o), self)

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("real power")

    def _cmp(self, o, f):
        n = norm(o)
        if isinstance(n, float) and n in (float("inf"), float("-inf")):
            return None
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        e = z3.simplify(f(self.e, o.e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented or r is None else r

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return norm(o) > 0 if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return norm(o) > 0 if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return norm(o) < 0 if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return norm(o) < 0 if r is None else r

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __repr__(self):
        return "<SymReal>"

    __str__ = __repr__

    def __format__(self, s):
        return "<symreal>"

    def astype(self, t, **k):
        return self

    def copy(self):
        return self


SYM = (SymInt, SymBool, SymReal)


# ---------------------------------------------------------------- logic helpers
def is_sym(v):
    return isinstance(v, SYM)


def _b(v):
    """to z3 Bool or python bool"""
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, (SymInt, SymReal)):
        r = v != 0
        return r.e if isinstance(r, SymBool) else r
    return bool(v)


def _wrap(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        b = _b(x)
        if b is False:
            return False
        if b is not True:
            es.append(b)
    if not es:
        return True
    return _wrap(z3.And(es))


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        b = _b(x)
        if b is True:
            return True
        if b is not False:
            es.append(b)
    if not es:
        return False
    return _wrap(z3.Or(es))


def Not(x):
    if x is NotImplemented:
        return NotImplemented
    b = _b(x)
    return (not b) if isinstance(b, bool) else _wrap(z3.Not(b))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = _b(a), _b(b)
    if isinstance(a, bool):
        return (b if a else (not b if isinstance(b, bool) else z3.Not(b))) if isinstance(b, bool) else _wrap(b if a else z3.Not(b))
    if isinstance(b, bool):
        return _wrap(a if b else z3.Not(a))
    return _wrap(a == b)


def ite(c, a, b):
    """Merge two values; raises Unsupported if they cannot be merged."""
    c = _b(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    np = _numpy()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != B.shape:
            raise Unsupported("ite of arrays of different shape")
        out = np.empty(A.shape, dtype=object)
        cs = SymBool(c)
        for i in np.ndindex(*A.shape):
            out[i] = ite(cs, A[i], B[i])
        return out
    an, bn = norm(a), norm(b)
    if an is None or bn is None:
        if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
            cs = SymBool(c)
            return type(a)(ite(cs, x, y) for x, y in zip(a, b))
        if type(a) is type(b) and not is_sym(a):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        raise Unsupported("ite of %r and %r" % (type(a), type(b)))
    if (isinstance(a, (bool, np.bool_)) or isinstance(a, SymBool)) and (isinstance(b, (bool, np.bool_)) or isinstance(b, SymBool)):
        ea, eb = _b(a), _b(b)
        ea = z3.BoolVal(ea) if isinstance(ea, bool) else ea
        eb = z3.BoolVal(eb) if isinstance(eb, bool) else eb
        return _wrap(z3.If(c, ea, eb))
    if isinstance(an, SymBool):
        an = an.as_int()
    if isinstance(bn, SymBool):
        bn = bn.as_int()
    if isinstance(an, (float, Fraction, SymReal)) or isinstance(bn, (float, Fraction, SymReal)):
        return SymReal(z3.If(c, SymReal.lift(an).e, SymReal.lift(bn).e))
    if isinstance(an, int) and isinstance(bn, int) and an == bn:
        return an
    key = (c.get_id(), an if isinstance(an, int) else (an.e.get_id(), an.lo, an.hi), bn if isinstance(bn, int) else (bn.e.get_id(), bn.lo, bn.hi))
    hit = _ITE.get(key)
    if hit is not None:
        return hit[0]
    r = _ite_int(c, an, bn)
    if len(_ITE) > 200000:
        _ITE.clear()
    _ITE[key] = (r, c, an, bn)
    return r


_ITE = {}


def _ite_int(c, an, bn):
    if isinstance(an, int) and isinstance(bn, int):
        lo, hi = min(an, bn), max(an, bn)
        w = _bits(lo, hi)
        r = SymInt(z3.simplify(z3.If(c, bvv(an, w), bvv(bn, w))), w, lo, hi, (lo, hi) if hi - lo > 1 else None, None, _indicator(c, an, bn))
        return r
    ra, rb = _rng(an), _rng(bn)
    lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
    w = _bits(lo, hi)
    dom = None
    if hi - lo >= 2:
        da, db = _dom(an), _dom(bn)
        if da is not None and db is not None:
            dom = set(da) | set(db)
    return _mk(z3.If(c, _ext(an, w), _ext(bn, w)), w, lo, hi, dom)


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def smin(a, b):
    return ite(a <= b, a, b)


def smax(a, b):
    return ite(a >= b, a, b)


def select(seq, i):
    """seq[i] for symbolic i over a python sequence of mergeable values."""
    if not isinstance(i, SymInt):
        return seq[i]
    vals = [(k, seq[k]) for k in range(max(i.lo, 0), min(i.hi, len(seq) - 1) + 1) if i.dom is None or k in i.dom]
    if i.tab is not None and all(type(v) is int for _, v in vals):
        d = dict(vals)
        return from_table(i.tab[0], [d.get(v, vals[-1][1]) for v in i.tab[1]])
    r = vals[-1][1]
    for k, v in reversed(vals[:-1]):
        r = ite(i == k, v, r)
    return r


# ---------------------------------------------------------------- tokens
# Symbolic integers spelled as text: decimal digits of another script, so that
# the code under test can split/slice/join the text and hand it to int().
_DIG = "০১২৩৪৫৬৭৮৯"
_TOKBASE = 1000000


def int_token(x):
    c = _CTX
    n = _TOKBASE + len(c.tokens)
    c.tokens[n] = x
    return "".join(_DIG[int(ch)] for ch in str(n))


def parse_token(s):
    if _CTX is None or not isinstance(s, str):
        return None
    t = s.strip()
    if len(t) == 7 and all(ch in _DIG for ch in t):
        n = int("".join(str(_DIG.index(ch)) for ch in t))
        return _CTX.tokens.get(n)
    if any(ch in _DIG for ch in t):
        raise Unsupported("symbolic number used inside other text: %r" % s)
    return None
