"""Rewrites counting code so that symbolic tests are merged into the counted value and do
not fork: `if test: n += 1` in loops, `sum(1 for x in xs if test)`, `len([x for x in xs if test])`,
`any(...)`, `all(...)` and `a if test else b` with plain arms.  With plain tests the
rewritten code does what the original does."""
import ast

from . import core
from .core import SymBool, SymInt, SymReal, is_sym, ite


def truth(t):
    if isinstance(t, SymBool):
        return t
    if isinstance(t, (SymInt, SymReal)):
        return t != 0
    return bool(t)


def both(*fs):
    """`a and b` as a test; the operands are comparisons of plain reads"""
    out = []
    for f in fs:
        t = truth(f())
        if t is False:
            return False
        out.append(t)
    return core.And(out)


def either(*fs):
    out = []
    for f in fs:
        t = truth(f())
        if t is True:
            return True
        out.append(t)
    return core.Or(out)


def negate(t):
    return core.Not(truth(t))


def total(pairs, start=0):
    r = start
    for t, f in pairs:
        if t is True:
            r = r + f()
        elif t is not False:
            r = r + ite(t, f(), 0)
    return r


def pick(t, a, b):
    t = truth(t)
    if t is True or t is False:
        return a if t else b
    return ite(t, a, b)


def anyof(ts):
    out = []
    for t in ts:
        t = truth(t)
        if t is True:
            return True
        out.append(t)
    return core.Or(out)


def allof(ts):
    out = []
    for t in ts:
        t = truth(t)
        if t is False:
            return False
        out.append(t)
    return core.And(out)


NAMES = {"__verif_truth__": truth, "__verif_and__": both, "__verif_or__": either, "__verif_not__": negate, "__verif_total__": total, "__verif_pick__": pick, "__verif_any__": anyof, "__verif_all__": allof,
         "__verif_sym__": lambda t: isinstance(t, SymBool), "__verif_ite__": ite}


def plain(n):
    """reads and sums: nothing that could fail or have an effect"""
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return plain(n.value)
    if isinstance(n, ast.BinOp):
        return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and plain(n.left) and plain(n.right)
    if isinstance(n, ast.UnaryOp):
        return isinstance(n.op, (ast.USub, ast.UAdd)) and plain(n.operand)
    return False


def test_like(n):
    if isinstance(n, ast.Compare):
        return len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)) and plain(n.left) and plain(n.comparators[0])
    if isinstance(n, ast.BoolOp):
        return all(test_like(v) for v in n.values)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return test_like(n.operand)
    return isinstance(n, ast.Name)


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def as_test(n):
    """an expression of the test's value that does not fork"""
    if isinstance(n, ast.BoolOp) and test_like(n):
        return call("__verif_and__" if isinstance(n.op, ast.And) else "__verif_or__", *[lam(as_test(v)) for v in n.values])
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and test_like(n):
        return call("__verif_not__", as_test(n.operand))
    return call("__verif_truth__", n)


def load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())


class Merge(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.loops = 0

    def counting(self, body):
        """only counting, so it can be carried out under a condition"""
        for s in body:
            if isinstance(s, ast.AugAssign):
                if not (isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.target, (ast.Name, ast.Attribute)) and plain(s.value) and (isinstance(s.target, ast.Name) or plain(s.target.value))):
                    return False
            elif isinstance(s, ast.If):
                if not (test_like(s.test) and self.counting(s.body) and self.counting(s.orelse)):
                    return False
            elif not isinstance(s, ast.Pass):
                return False
        return True

    def under(self, cond, body):
        """the statements carried out where cond (a name) holds"""
        out = []
        for s in body:
            if isinstance(s, ast.AugAssign):
                new = ast.BinOp(left=load(s.target), op=s.op, right=s.value)
                out.append(ast.copy_location(ast.Assign(targets=[s.target], value=call("__verif_ite__", cond, new, load(s.target))), s))
            elif isinstance(s, ast.If):
                self.n += 1
                a, b = "__verif_c%d" % self.n, "__verif_d%d" % self.n
                t = as_test(s.test)
                out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=t), s))
                out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())], value=call("__verif_and__", lam(cond), lam(call("__verif_not__", ast.Name(id=a, ctx=ast.Load()))))), s))
                out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=call("__verif_and__", lam(cond), lam(ast.Name(id=a, ctx=ast.Load())))), s))
                out += self.under(ast.Name(id=a, ctx=ast.Load()), s.body)
                out += self.under(ast.Name(id=b, ctx=ast.Load()), s.orelse)
        return out

    def guard_continues(self, body):
        """`if c: continue; rest` -> `if c: pass; else: rest` where all of it counts"""
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and test_like(s.test):
                rest = self.guard_continues(body[i + 1:])
                if rest and self.counting(rest):
                    return body[:i] + [ast.copy_location(ast.If(test=s.test, body=[ast.copy_location(ast.Pass(), s)], orelse=rest), s)]
        return body

    def visit_For(self, n):
        n.body = self.guard_continues(n.body)
        self.loops += 1
        self.generic_visit(n)
        self.loops -= 1
        return n

    def visit_FunctionDef(self, n):
        loops, self.loops = self.loops, 0
        self.generic_visit(n)
        self.loops = loops
        return n

    def visit_If(self, n):
        import copy
        # outside loops merging gains little and keeps decided things undecided
        if not self.loops or not (self.counting(n.body) and self.counting(n.orelse)):
            self.generic_visit(n)
            return n
        self.n += 1
        a, b = "__verif_c%d" % self.n, "__verif_d%d" % self.n
        A, B = ast.Name(id=a, ctx=ast.Load()), ast.Name(id=b, ctx=ast.Load())
        merged = self.under(A, copy.deepcopy(n.body))
        if n.orelse:
            merged.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=b, ctx=ast.Store())], value=call("__verif_not__", A)), n))
            merged += self.under(B, copy.deepcopy(n.orelse))
        test = as_test(self.visit(n.test))
        self.generic_visit(n)
        n.test = A
        return [ast.copy_location(ast.Assign(targets=[ast.Name(id=a, ctx=ast.Store())], value=test), n),
                ast.copy_location(ast.If(test=call("__verif_sym__", A), body=merged or [ast.Pass()], orelse=[n]), n)]

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if plain(n.body) and plain(n.orelse):
            return ast.copy_location(call("__verif_pick__", as_test(n.test), n.body, n.orelse), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if not (isinstance(n.func, ast.Name) and not n.keywords and n.args):
            return n
        name, g = n.func.id, n.args[0]
        if not (isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1):
            return n
        c = g.generators[0]
        if c.is_async:
            return n
        if name in ("any", "all") and not c.ifs and test_like(g.elt):
            g = ast.GeneratorExp(elt=as_test(g.elt), generators=g.generators)
            return ast.copy_location(call("__verif_%s__" % name, g), n)
        if name == "len" and isinstance(g, ast.ListComp):
            elt = ast.Constant(value=1)
        elif name == "sum":
            elt = g.elt
        else:
            return n
        if name == "sum" and not c.ifs and test_like(elt) and not isinstance(elt, ast.Name):
            c.ifs, elt = [elt], ast.Constant(value=1)
        if not c.ifs or not plain(elt):
            return n
        t = as_test(c.ifs[0]) if len(c.ifs) == 1 else (call("__verif_and__", *[lam(as_test(x)) for x in c.ifs]) if all(test_like(x) for x in c.ifs) else None)
        if t is None:
            return n
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[t, lam(elt)], ctx=ast.Load()), generators=[ast.comprehension(target=c.target, iter=c.iter, ifs=[], is_async=0)])
        return ast.copy_location(call("__verif_total__", g, *n.args[1:]), n)
