"""Mechanical refactorings that keep the behaviour, applied to every function
of the package at once (or to one with -f): no check may report a violation.

usage: refactor.py [-t T1,T2] [-p C01,C02] [-f function] [-k]
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NCDIFF_REPO', '/repo')


def calls(e):
    return any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr))
               for x in ast.walk(e))


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq,
               ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
               ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
               ast.LtE: ast.Gt}.get(type(e.ops[0]))
        # orders of configs are partial
        if inv and not isinstance(e.ops[0], (ast.Lt, ast.Gt, ast.LtE,
                                             ast.GtE)):
            return ast.Compare(e.left, [inv()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


class T(ast.NodeTransformer):
    only = None
    f = None
    count = 0
    n = 0

    def visit_FunctionDef(self, f):
        if self.only and f.name != self.only:
            self.generic_visit(f) if any(
                isinstance(x, ast.FunctionDef) for x in f.body) else None
            return f
        self.f = f
        self.enter(f)
        self.generic_visit(f)
        return f

    def enter(self, f):
        pass

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        return c

    def fresh(self, base='tmp'):
        T.n += 1
        return '%s_%d' % (base, T.n)


class swap(T):
    """if/else branches swapped"""
    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse or len(s.orelse) == 1 and isinstance(
                s.orelse[0], ast.If):
            return s
        self.count += 1
        return ast.If(negate(s.test), s.orelse, s.body)


class swapall(T):
    """every if/else swapped, elif chains become nested"""
    def visit_If(self, s):
        self.generic_visit(s)
        self.count += 1
        return ast.If(negate(s.test), s.orelse or [ast.Pass()], s.body)


class retvar(T):
    """results get a name first"""
    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
            return s
        self.count += 1
        n = self.fresh('result')
        return [ast.Assign([ast.Name(n, ast.Store())], s.value),
                ast.Return(ast.Name(n, ast.Load()))]


class condvar(T):
    """conditions of if get a name first"""
    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, (ast.Name, ast.Constant)) or len(
                s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and 0:
            return s
        self.count += 1
        n = self.fresh('cond')
        return [ast.Assign([ast.Name(n, ast.Store())], s.test),
                ast.If(ast.Name(n, ast.Load()), s.body, s.orelse)]


class nestand(T):
    """if a and b -> if a: if b"""
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse or not isinstance(s.test, ast.BoolOp) or not isinstance(
                s.test.op, ast.And):
            return s
        self.count += 1
        body = s.body
        for v in reversed(s.test.values):
            body = [ast.If(v, body, [])]
        return body[0]


def ends(body):
    return isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue,
                                 ast.Break))


class earlyelse(T):
    """code behind a branch that leaves goes to the else branch"""
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and \
                    body[i + 1:]:
                self.count += 1
                rest = self.block(body[i + 1:])
                return body[:i] + [ast.If(s.test, s.body, rest)]
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(
                    n, (ast.FunctionDef, ast.For, ast.While, ast.If)):
                setattr(n, k, self.block(b))
        return n


class guard(T):
    """else behind a branch that leaves is dropped"""
    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                self.count += 1
                out.append(ast.If(s.test, s.body, []))
                out.extend(self.block(s.orelse))
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b:
                setattr(n, k, self.block(b))
        return n


class continues(T):
    """for x: if c: body -> for x: if not c: continue; body"""
    def visit_For(self, s):
        self.generic_visit(s)
        if len(s.body) and isinstance(s.body[-1], ast.If) and \
                not s.body[-1].orelse:
            i = s.body[-1]
            self.count += 1
            s.body[-1:] = [ast.If(negate(i.test), [ast.Continue()], [])] + \
                i.body
        return s


class tmpargs(T):
    """arguments that are calls get a name first"""
    def stmt(self, s, e):
        if not isinstance(e, ast.Call) or isinstance(e.func, ast.Name) and \
                e.func.id == 'super':
            return s
        pre = []
        for i, a in enumerate(e.args):
            if isinstance(a, (ast.Name, ast.Constant, ast.Starred,
                              ast.Lambda, ast.GeneratorExp)):
                continue
            n = self.fresh('arg')
            pre.append(ast.Assign([ast.Name(n, ast.Store())], a))
            e.args[i] = ast.Name(n, ast.Load())
            self.count += 1
        return pre + [s]

    def visit_Expr(self, s):
        return self.stmt(s, s.value)

    def visit_Assign(self, s):
        return self.stmt(s, s.value)

    def visit_Return(self, s):
        return self.stmt(s, s.value)


class complloop(T):
    """x = [e for ...] -> loop"""
    def conv(self, name, c, ctx):
        add = 'add' if isinstance(c, ast.SetComp) else 'append'
        new = ast.Call(ast.Name('set', ast.Load()), [], []) if isinstance(
            c, ast.SetComp) else ast.List([], ast.Load())
        body = [ast.Expr(ast.Call(ast.Attribute(
            ast.Name(name, ast.Load()), add, ast.Load()), [c.elt], []))]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [ast.Assign([ast.Name(name, ast.Store())], new)] + body

    def visit_Assign(self, s):
        if isinstance(s.value, (ast.ListComp, ast.SetComp)) and len(
                s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n = s.targets[0].id
            if any(isinstance(x, ast.Name) and x.id == n
                   for x in ast.walk(s.value)):
                return s
            self.count += 1
            return self.conv(n, s.value, s)
        return s

    def visit_Return(self, s):
        if isinstance(s.value, (ast.ListComp, ast.SetComp)):
            self.count += 1
            n = self.fresh('found')
            return self.conv(n, s.value, s) + [ast.Return(
                ast.Name(n, ast.Load()))]
        return s


class loopcomp(T):
    """x = []; for ..: if c: x.append(e) -> comprehension"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, k, self.block(b))
        return n

    def block(self, body):
        out = []
        for s in body:
            c = self.comp(s)
            if c and out and isinstance(out[-1], ast.Assign) and isinstance(
                    out[-1].targets[0], ast.Name) and \
                    out[-1].targets[0].id == c[0] and isinstance(
                        out[-1].value, ast.List) and \
                    not out[-1].value.elts:
                self.count += 1
                out[-1] = ast.Assign([ast.Name(c[0], ast.Store())], c[1])
            else:
                out.append(s)
        return out

    def comp(self, s):
        ifs = []
        if not isinstance(s, ast.For) or s.orelse or len(s.body) != 1:
            return None
        b = s.body[0]
        while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
            ifs.append(b.test)
            b = b.body[0]
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and \
                isinstance(b.value.func, ast.Attribute) and \
                b.value.func.attr == 'append' and isinstance(
                    b.value.func.value, ast.Name):
            n = b.value.func.value.id
            if any(isinstance(x, ast.Name) and x.id == n for t in
                   ifs + [s.iter, b.value.args[0]] for x in ast.walk(t)):
                return None
            return n, ast.ListComp(b.value.args[0], [ast.comprehension(
                s.target, s.iter, ifs, 0)])


class oreq(T):
    """x == a or x == b <-> x in (a, b)"""
    def visit_BoolOp(self, e):
        self.generic_visit(e)
        op = ast.Eq if isinstance(e.op, ast.Or) else ast.NotEq
        if all(isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(
                v.ops[0], op) and isinstance(v.comparators[0], ast.Constant)
                for v in e.values) and len({ast.dump(v.left)
                                            for v in e.values}) == 1:
            self.count += 1
            return ast.Compare(
                e.values[0].left, [ast.In() if op is ast.Eq else ast.NotIn()],
                [ast.Tuple([v.comparators[0] for v in e.values],
                           ast.Load())])
        return e

    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(e.comparators[0], (ast.List, ast.Tuple)) and \
                len(e.comparators[0].elts) > 1 and not calls(e.left):
            yes = isinstance(e.ops[0], ast.In)
            self.count += 1
            return ast.BoolOp(ast.Or() if yes else ast.And(), [ast.Compare(
                copy.deepcopy(e.left), [ast.Eq() if yes else ast.NotEq()],
                [x]) for x in e.comparators[0].elts])
        return e


class flip(T):
    """a == b -> b == a"""
    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
            if self.f.name in ('__eq__', '__ne__'):
                return e
            self.count += 1
            return ast.Compare(e.comparators[0], e.ops, [e.left])
        return e


class demorgan(T):
    """a and b -> not (not a or not b) in conditions"""
    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp):
            self.count += 1
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [negate(v) for v in s.test.values]))
        return s


class ifexp(T):
    """if c: return a; return b -> return a if c else b; same for x = ..."""
    def one(self, b):
        return b[0] if len(b) == 1 else None

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, k, self.block(b))
        return n

    def block(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.If):
                a = self.one(s.body)
                b = self.one(s.orelse)
                if not s.orelse and i + 1 < len(body):
                    b = body[i + 1] if isinstance(
                        body[i + 1], ast.Return) else None
                    if isinstance(a, ast.Return) and b is not None and \
                            a.value is not None and b.value is not None:
                        self.count += 1
                        out.append(ast.Return(ast.IfExp(s.test, a.value,
                                                        b.value)))
                        i += 2
                        continue
                elif isinstance(a, ast.Return) and isinstance(
                        b, ast.Return) and a.value and b.value:
                    self.count += 1
                    out.append(ast.Return(ast.IfExp(s.test, a.value,
                                                    b.value)))
                    i += 1
                    continue
                elif isinstance(a, ast.Assign) and isinstance(
                        b, ast.Assign) and len(a.targets) == 1 and \
                        ast.dump(a.targets[0]) == ast.dump(
                            b.targets[0]) and isinstance(a.targets[0],
                                                         ast.Name):
                    self.count += 1
                    out.append(ast.Assign(a.targets, ast.IfExp(
                        s.test, a.value, b.value)))
                    i += 1
                    continue
            out.append(s)
            i += 1
        return out


class noifexp(T):
    """x = a if c else b -> if statement"""
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp) and isinstance(s.targets[0],
                                                         ast.Name):
            self.count += 1
            return ast.If(s.value.test,
                          [ast.Assign(s.targets, s.value.body)],
                          [ast.Assign(s.targets, s.value.orelse)])
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            self.count += 1
            return ast.If(s.value.test, [ast.Return(s.value.body)],
                          [ast.Return(s.value.orelse)])
        if isinstance(s.value, ast.Compare) and not isinstance(
                s.value.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            self.count += 1
            return ast.If(s.value, [ast.Return(ast.Constant(True))],
                          [ast.Return(ast.Constant(False))])
        return s


class listwrap(T):
    """for x in e -> for x in list(e)"""
    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.iter, ast.Call) and isinstance(
                s.iter.func, ast.Name) and s.iter.func.id in (
                    'range', 'enumerate', 'reversed', 'zip', 'list', 'iter'):
            return s
        if isinstance(s.iter, ast.Call) and isinstance(
                s.iter.func, ast.Attribute) and \
                s.iter.func.attr in ('iter', 'walk', 'getchildren'):
            return s
        self.count += 1
        s.iter = ast.Call(ast.Name('list', ast.Load()), [s.iter], [])
        return s


class kids(T):
    """x.getchildren() -> list(x)"""
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and \
                e.func.attr == 'getchildren' and not e.args:
            self.count += 1
            return ast.Call(ast.Name('list', ast.Load()), [e.func.value], [])
        return e


class rename(T):
    """local variables get other names"""
    def enter(self, f):
        a = f.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        names = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)} - params
        names -= {n for x in ast.walk(f) if isinstance(
            x, (ast.Global, ast.Nonlocal)) for n in x.names}
        hs = {x.name for x in ast.walk(f) if isinstance(
            x, ast.ExceptHandler)}
        inner = [g for g in ast.walk(f) if isinstance(
            g, (ast.FunctionDef, ast.Lambda)) and g is not f]
        for g in inner:
            names -= {x.arg for x in g.args.args}
        names -= hs
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in names:
                self.count += 1
                x.id = x.id + '_v'


class params(T):
    """parameters of private methods get other names"""
    def enter(self, f):
        if not f.name.startswith('_') or f.name.startswith('__'):
            return


class fstring(T):
    """'..{}..'.format(a) -> f-string"""
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and \
                isinstance(e.func.value, ast.Constant) and isinstance(
                    e.func.value.value, str) and not e.keywords:
            parts = e.func.value.value.split('{}')
            if len(parts) != len(e.args) + 1 or any(
                    '{' in x or '}' in x for x in parts):
                return e
            vals = []
            for i, x in enumerate(parts):
                if x:
                    vals.append(ast.Constant(x))
                if i < len(e.args):
                    if any(isinstance(y, ast.Constant) and isinstance(
                            y.value, str) for y in ast.walk(e.args[i])):
                        return e
                    vals.append(ast.FormattedValue(e.args[i], -1, None))
            self.count += 1
            return ast.JoinedStr(vals)
        return e


class concat(T):
    """'{a}{}'.format -> + of strings"""
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and \
                isinstance(e.func.value, ast.Constant) and isinstance(
                    e.func.value.value, str) and not e.keywords:
            parts = e.func.value.value.split('{}')
            if len(parts) != len(e.args) + 1 or any(
                    '{' in x or '}' in x for x in parts):
                return e
            out = None
            for i, x in enumerate(parts):
                for y in ([ast.Constant(x)] if x else []) + (
                        [ast.Call(ast.Name('str', ast.Load()),
                                  [e.args[i]], [])]
                        if i < len(e.args) else []):
                    out = y if out is None else ast.BinOp(out, ast.Add(), y)
            self.count += 1
            return out
        return e


class grow(T):
    """x.append(e) -> x = x + [e] for local lists"""
    def enter(self, f):
        self.loc = {s.targets[0].id for s in ast.walk(f)
                    if isinstance(s, ast.Assign) and isinstance(
                        s.targets[0], ast.Name) and isinstance(
                            s.value, ast.List)}
        a = f.args
        self.loc -= {x.arg for x in a.args}
        # no other name
        for s in ast.walk(f):
            if isinstance(s, ast.Assign):
                self.loc -= {y.id for y in ast.walk(s.value) if isinstance(
                    y, ast.Name)} if not isinstance(
                        s.value, (ast.Call, ast.Subscript)) else set()
            if isinstance(s, ast.FunctionDef) and s is not f:
                self.loc = set()

    def visit_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr == 'append' and isinstance(
                    v.func.value, ast.Name) and v.func.value.id in self.loc:
            self.count += 1
            n = v.func.value.id
            return ast.Assign([ast.Name(n, ast.Store())], ast.BinOp(
                ast.Name(n, ast.Load()), ast.Add(),
                ast.List(v.args, ast.Load())))
        return s


class notis(T):
    """a is not None -> not a is None"""
    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.IsNot, ast.NotIn)):
            self.count += 1
            return ast.UnaryOp(ast.Not(), ast.Compare(
                e.left, [ast.Is() if isinstance(e.ops[0], ast.IsNot)
                         else ast.In()], e.comparators))
        return e


class whilefor(T):
    """for x in e -> iterator with while? no: enumerate added"""
    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.iter, ast.Call) and isinstance(
                s.iter.func, ast.Name) and s.iter.func.id == 'enumerate':
            return s
        self.count += 1
        return ast.For(ast.Tuple([ast.Name(self.fresh('i'), ast.Store()),
                                  s.target], ast.Store()),
                       ast.Call(ast.Name('enumerate', ast.Load()), [s.iter],
                                []), s.body, s.orelse)


class indexed(T):
    """for x in xs -> for i in range(len(xs)): x = xs[i], for names"""
    def ok(self, s):
        n = s.iter
        def lst(v):
            return isinstance(v, (ast.List, ast.ListComp)) or isinstance(
                v, ast.Call) and (isinstance(v.func, ast.Name) and v.func.id
                                  in ('list', 'sorted') or isinstance(
                                      v.func, ast.Attribute) and v.func.attr
                                  in ('getchildren', 'xpath', 'findall',
                                      'split', 'search'))
        asg = [a for a in ast.walk(self.f) if isinstance(a, ast.Assign) and
               isinstance(a.targets[0], ast.Name) and isinstance(
                   n, ast.Name) and a.targets[0].id == n.id]
        return isinstance(n, ast.Name) and isinstance(
            s.target, (ast.Name, ast.Tuple)) and (all(
                lst(a.value) for a in asg) if asg else n.id in {
                    a.arg for a in self.f.args.args}) and not any(
                    isinstance(x, ast.Name) and x.id == n.id
                    for b in s.body for x in ast.walk(b))

    def visit_For(self, s):
        self.generic_visit(s)
        if not self.ok(s):
            return s
        self.count += 1
        i = self.fresh('i')
        s.body.insert(0, ast.Assign([s.target], ast.Subscript(
            s.iter, ast.Name(i, ast.Load()), ast.Load())))
        return ast.For(ast.Name(i, ast.Store()), ast.Call(
            ast.Name('range', ast.Load()), [ast.Call(
                ast.Name('len', ast.Load()), [s.iter], [])], []),
            s.body, s.orelse)


class whiles(indexed):
    """for x in xs -> while i < len(xs): x = xs[i]; i += 1"""
    def visit_For(self, s):
        self.generic_visit(s)
        if not self.ok(s) or s.orelse:
            return s
        self.count += 1
        i = self.fresh('i')
        s.body.insert(0, ast.Assign([s.target], ast.Subscript(
            s.iter, ast.Name(i, ast.Load()), ast.Load())))
        s.body.insert(1, ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(),
                                       ast.Constant(1)))
        return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [
                    ast.Call(ast.Name('len', ast.Load()), [s.iter], [])]),
                    s.body, [])]


class helper(T):
    """right hand sides that use only self and parameters become methods"""
    def visit_ClassDef(self, c):
        self.new = []
        self.generic_visit(c)
        c.body.extend(self.new)
        return c

    def visit_Assign(self, s):
        f = self.f
        if f is None:
            return s
        a = [x.arg for x in f.args.args]
        if not a or a[0] != 'self' or not hasattr(self, 'new') or not calls(
                s.value) or isinstance(s.value, ast.Call) and isinstance(
                    s.value.func, ast.Name) and not s.value.args:
            return s
        if any(isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.ListComp,
                              ast.SetComp, ast.DictComp, ast.Await,
                              ast.Yield)) or isinstance(x, ast.Name) and
               (x.id == 'super') for x in ast.walk(s.value)):
            return s
        stores = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                  isinstance(x.ctx, ast.Store)} | set(a)
        stores |= {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        used = sorted({x.id for x in ast.walk(s.value)
                       if isinstance(x, ast.Name) and x.id in stores and
                       x.id != 'self'})
        if any(isinstance(g, ast.FunctionDef) and g is not f
               for g in ast.walk(f)):
            return s
        self.count += 1
        n = self.fresh('_get')
        self.new.append(ast.FunctionDef(
            n, ast.arguments([], [ast.arg(x) for x in ['self'] + used],
                             None, [], [], None, []),
            [ast.Return(s.value)], [], None))
        s.value = ast.Call(ast.Attribute(
            ast.Name('self', ast.Load()), n, ast.Load()),
            [ast.Name(x, ast.Load()) for x in used], [])
        return s


class predicate(T):
    """conditions become methods"""
    def visit_ClassDef(self, c):
        self.new = []
        self.generic_visit(c)
        c.body.extend(self.new)
        return c

    def visit_If(self, s):
        self.generic_visit(s)
        f = self.f
        if f is None:
            return s
        a = [x.arg for x in f.args.args]
        if not a or a[0] != 'self' or not hasattr(self, 'new'):
            return s
        if any(isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.ListComp,
                              ast.SetComp, ast.DictComp)) or isinstance(
                                  x, ast.Name) and x.id == 'super'
               for x in ast.walk(s.test)) or isinstance(
                   s.test, (ast.Name, ast.Constant)):
            return s
        if any(isinstance(g, ast.FunctionDef) and g is not f
               for g in ast.walk(f)):
            return s
        stores = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                  isinstance(x.ctx, ast.Store)} | set(a)
        stores |= {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        stores |= {x.name for x in ast.walk(f) if isinstance(
            x, ast.ExceptHandler) and x.name}
        used = sorted({x.id for x in ast.walk(s.test)
                       if isinstance(x, ast.Name) and x.id in stores and
                       x.id != 'self'})
        self.count += 1
        n = self.fresh('_is')
        self.new.append(ast.FunctionDef(
            n, ast.arguments([], [ast.arg(x) for x in ['self'] + used],
                             None, [], [], None, []),
            [ast.Return(s.test)], [], None))
        s.test = ast.Call(ast.Attribute(
            ast.Name('self', ast.Load()), n, ast.Load()),
            [ast.Name(x, ast.Load()) for x in used], [])
        return s


class body(T):
    """bodies of loops become methods"""
    def visit_ClassDef(self, c):
        self.new = []
        self.generic_visit(c)
        c.body.extend(self.new)
        return c

    def visit_For(self, s):
        self.generic_visit(s)
        f = self.f
        if f is None:
            return s
        a = [x.arg for x in f.args.args]
        if not a or a[0] != 'self' or not hasattr(self, 'new'):
            return s
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue,
                                  ast.Yield, ast.FunctionDef, ast.Lambda,
                                  ast.Delete, ast.Raise, ast.AugAssign)):
                    return s
        st = {x.id for b in s.body for x in ast.walk(b)
              if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        inside = {id(x) for b in s.body for x in ast.walk(b)}
        if any(isinstance(x, ast.Name) and x.id in st and
               id(x) not in inside for x in ast.walk(f)):
            return s
        stores = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                  isinstance(x.ctx, ast.Store)} | set(a)
        stores |= {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        used = sorted({x.id for b in s.body for x in ast.walk(b)
                       if isinstance(x, ast.Name) and x.id in stores and
                       x.id != 'self'} - st)
        self.count += 1
        n = self.fresh('_each')
        self.new.append(ast.FunctionDef(
            n, ast.arguments([], [ast.arg(x) for x in ['self'] + used],
                             None, [], [], None, []),
            s.body, [], None))
        s.body = [ast.Expr(ast.Call(ast.Attribute(
            ast.Name('self', ast.Load()), n, ast.Load()),
            [ast.Name(x, ast.Load()) for x in used], []))]
        return s


class anyall(T):
    """for x in e: if c: return True / return False -> any()"""
    def generic_visit(self, n):
        super().generic_visit(n)
        b = getattr(n, 'body', None)
        if isinstance(b, list):
            out = []
            i = 0
            while i < len(b):
                s = b[i]
                nx = b[i + 1] if i + 1 < len(b) else None
                if isinstance(s, ast.For) and not s.orelse and len(
                        s.body) == 1 and isinstance(s.body[0], ast.If) and \
                        not s.body[0].orelse and len(s.body[0].body) == 1 \
                        and isinstance(s.body[0].body[0], ast.Return) and \
                        isinstance(nx, ast.Return):
                    r = s.body[0].body[0].value
                    if isinstance(r, ast.Constant) and isinstance(
                            nx.value, ast.Constant) and {
                                r.value, nx.value.value} == {True, False}:
                        e = ast.Call(ast.Name('any', ast.Load()), [
                            ast.GeneratorExp(s.body[0].test, [
                                ast.comprehension(s.target, s.iter, [], 0)])],
                            [])
                        if not r.value:
                            e = ast.UnaryOp(ast.Not(), e)
                        self.count += 1
                        out.append(ast.Return(e))
                        i += 2
                        continue
                out.append(s)
                i += 1
            n.body = out
        return n


class noop(T):
    """just another layout"""
    def enter(self, f):
        self.count += 1


class nothing(T):
    """statements that do nothing"""
    def enter(self, f):
        self.count += 1
        i = 1 if ast.get_docstring(f) is not None else 0
        f.body.insert(i, ast.Assign([ast.Name('_unused', ast.Store())],
                                    ast.Constant(None)))


class logs(T):
    """a debug message at the start of every branch and loop"""
    def msg(self):
        self.count += 1
        return ast.Expr(ast.Call(ast.Attribute(
            ast.Name('logger', ast.Load()), 'debug', ast.Load()),
            [ast.Constant('here')], []))

    def visit_If(self, s):
        self.generic_visit(s)
        s.body.insert(0, self.msg())
        return s

    def visit_For(self, s):
        self.generic_visit(s)
        s.body.insert(0, self.msg())
        return s


class tryraise(T):
    """else branch for if that ends function: explicit return None"""
    def enter(self, f):
        if not ends(f.body) and not any(isinstance(x, ast.Yield)
                                        for x in ast.walk(f)):
            self.count += 1
            f.body.append(ast.Return(ast.Constant(None)))


class unpack(T):
    """for a, b in e -> for t in e: a, b = t"""
    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.target, ast.Tuple):
            self.count += 1
            n = self.fresh('pair')
            t = s.target
            s.target = ast.Name(n, ast.Store())
            s.body.insert(0, ast.Assign([t], ast.Name(n, ast.Load())))
        return s


class getitem(T):
    """d.get('k') is None <-> 'k' not in d ; on attrib only: skipped"""


class aug(T):
    """x += e -> x = x + e for names"""
    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and \
                not isinstance(s.value, (ast.List, ast.ListComp)):
            self.count += 1
            return ast.Assign([s.target], ast.BinOp(
                ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return s


class selfvar(T):
    """self.device -> a local name, at the start of methods"""
    def enter(self, f):
        a = [x.arg for x in f.args.args]
        if not a or a[0] != 'self' or f.name == '__init__':
            return
        if any(isinstance(x, (ast.FunctionDef, ast.Yield)) and x is not f
               for x in ast.walk(f)):
            return
        hit = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and
               x.attr == 'device' and isinstance(x.value, ast.Name) and
               x.value.id == 'self']
        if not hit or any(isinstance(x.ctx, ast.Store) for x in hit):
            return
        self.count += 1

        class R(ast.NodeTransformer):
            def visit_Attribute(s2, x):
                if x in hit:
                    return ast.Name('dev_', ast.Load())
                s2.generic_visit(x)
                return x
        R().visit(f)
        i = 1 if ast.get_docstring(f) is not None else 0
        f.body.insert(i, ast.Assign([ast.Name('dev_', ast.Store())],
                                    ast.Attribute(ast.Name(
                                        'self', ast.Load()), 'device',
                                        ast.Load())))


class consts(T):
    """string constants of functions become names of the module"""
    def visit_Module(self, m):
        self.table = {}
        self.generic_visit(m)
        i = 0
        for k, s in enumerate(m.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or k == 0:
                i = k + 1
        m.body[i:i] = [ast.Assign([ast.Name(n, ast.Store())],
                                  ast.Constant(v))
                       for v, n in self.table.items()]
        return m

    def visit_JoinedStr(self, e):
        return e

    def visit_Constant(self, e):
        if self.f is None or not isinstance(e.value, str) or \
                not e.value.strip() or len(e.value) > 60 or \
                self.doc is e:
            return e
        self.count += 1
        n = self.table.setdefault(e.value, 'TEXT_%d' % len(self.table))
        return ast.Name(n, ast.Load())

    def enter(self, f):
        self.doc = None
        if f.body and isinstance(f.body[0], ast.Expr) and isinstance(
                f.body[0].value, ast.Constant):
            self.doc = f.body[0].value


class inline(T):
    """names used once, in the next statement, go"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, k, self.block(b))
        return n

    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if self.f is not None and isinstance(p, ast.Assign) and len(
                    p.targets) == 1 and isinstance(
                        p.targets[0], ast.Name) and isinstance(
                            s, (ast.Return, ast.Assign, ast.Expr, ast.If)):
                n = p.targets[0].id
                uses = [x for x in ast.walk(self.f) if isinstance(
                    x, ast.Name) and x.id == n]
                where = s.test if isinstance(s, ast.If) else s.value
                here = [x for x in ast.walk(where or ast.Pass())
                        if isinstance(x, ast.Name) and x.id == n]
                first = next((x for x in ast.walk(where or ast.Pass())
                              if isinstance(x, (ast.Name, ast.Call)) and
                              isinstance(getattr(x, 'ctx', ast.Load()),
                                         ast.Load)), None)
                simple = not calls(p.value) and not any(isinstance(
                    x, (ast.Attribute, ast.Subscript))
                    for x in ast.walk(p.value)) or not calls(where)
                if len(uses) == 2 and len(here) == 1 and simple and not any(
                        isinstance(x, (ast.Lambda, ast.ListComp,
                                       ast.GeneratorExp, ast.SetComp,
                                       ast.DictComp, ast.BoolOp, ast.IfExp))
                        for x in ast.walk(where)):
                    v = p.value

                    class R(ast.NodeTransformer):
                        def visit_Name(s2, x):
                            return v if x.id == n else x
                    self.count += 1
                    R().visit(s)
                    out[-1] = s
                    continue
            out.append(s)
        return out


class matchcase(T):
    """if x == 'a' .. elif x == 'b' .. -> match"""
    def visit_If(self, s):
        chain = []
        c = s
        subj = None
        while True:
            t = c.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                    isinstance(t.left, ast.Name)):
                break
            if isinstance(t.ops[0], ast.Eq) and isinstance(
                    t.comparators[0], ast.Constant) and isinstance(
                        t.comparators[0].value, str):
                vals = [t.comparators[0]]
            elif isinstance(t.ops[0], ast.In) and isinstance(
                    t.comparators[0], (ast.List, ast.Tuple)) and all(
                        isinstance(x, ast.Constant)
                        for x in t.comparators[0].elts):
                vals = t.comparators[0].elts
            else:
                break
            if subj is not None and t.left.id != subj:
                break
            subj = t.left.id
            chain.append((vals, c.body))
            if len(c.orelse) == 1 and isinstance(c.orelse[0], ast.If):
                c = c.orelse[0]
                rest = [c]
                continue
            rest = c.orelse
            break
        else:
            pass
        if len(chain) < 2:
            self.generic_visit(s)
            return s
        self.count += 1
        cases = []
        for vals, body in chain:
            pats = [ast.MatchValue(v) for v in vals]
            cases.append(ast.match_case(
                pats[0] if len(pats) == 1 else ast.MatchOr(pats), None, body))
        if rest:
            cases.append(ast.match_case(ast.MatchAs(None, None), None, rest))
        m = ast.Match(ast.Name(subj, ast.Load()), cases)
        for k in cases:
            k.body = [y for x in k.body for y in self.many(x)]
        return m

    def many(self, x):
        r = self.visit(x)
        return r if isinstance(r, list) else [r]


class kwcalls(T):
    """arguments of methods of the same class are passed by name"""
    def visit_ClassDef(self, c):
        self.sig = {f.name: f for f in c.body
                    if isinstance(f, ast.FunctionDef)}
        self.generic_visit(c)
        return c

    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and isinstance(
                e.func.value, ast.Name) and e.func.value.id == 'self' and \
                e.func.attr in getattr(self, 'sig', {}) and e.args:
            f = self.sig[e.func.attr]
            a = [x.arg for x in f.args.args]
            if not any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                       for d in f.decorator_list):
                a = a[1:]
            elif f.decorator_list and len(f.decorator_list) > 1:
                return e
            if f.args.vararg or f.args.kwarg or f.args.posonlyargs or any(
                    isinstance(x, ast.Starred) for x in e.args):
                return e
            if f.decorator_list and not isinstance(
                    f.decorator_list[0], ast.Name):
                return e
            if f.decorator_list and f.decorator_list[0].id not in (
                    'staticmethod', 'classmethod'):
                return e
            self.count += 1
            e.keywords = [ast.keyword(n, v) for n, v in
                          zip(a[1:], e.args[1:])] + e.keywords
            e.args = e.args[:1]
        return e


class mixin(T):
    """half of the methods go to a new base class"""
    def visit_Module(self, m):
        out = []
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                fs = [f for f in c.body if isinstance(f, ast.FunctionDef) and
                      not f.name.startswith('__') and
                      not f.decorator_list and not any(
                          isinstance(x, ast.Name) and x.id == 'super'
                          for x in ast.walk(f)) and not any(
                              isinstance(x, (ast.Name, ast.Attribute)) and
                              (getattr(x, 'id', None) or getattr(
                                  x, 'attr', '')).startswith('__') and
                              not (getattr(x, 'id', None) or getattr(
                                  x, 'attr', '')).endswith('__')
                              for x in ast.walk(f))]
                if len(fs) > 2 and not self.only:
                    mv = fs[::2]
                    self.count += len(mv)
                    n = '_%sParts' % c.name
                    out.append(ast.ClassDef(n, [], [], mv, [], []))
                    c.body = [x for x in c.body if x not in mv] or [
                        ast.Pass()]
                    c.bases = [ast.Name(n, ast.Load())] + [
                        b for b in c.bases if not (
                            isinstance(b, ast.Name) and b.id == 'object')]
            out.append(c)
        m.body = out
        return m


class private(T):
    """private methods get other names"""
    def visit_Module(self, m):
        self.count += 1
        for x in ast.walk(m):
            for k in ('name', 'attr', 'id'):
                v = getattr(x, k, None)
                if isinstance(v, str) and v.startswith('_') and \
                        not v.startswith('__') and v in PRIVATE:
                    setattr(x, k, v + '_impl')
        return m


PRIVATE = set()


class anyloop(T):
    """return any(..) / all(..) -> loop"""
    def visit_Return(self, s):
        v = s.value
        neg = False
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            v, neg = v.operand, True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in ('any', 'all') and isinstance(
                    v.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = v.args[0]
            self.count += 1
            yes = v.func.id == 'any'
            body = [ast.If(g.elt if yes else negate(g.elt),
                           [ast.Return(ast.Constant(yes != neg))], [])]
            for c in reversed(g.generators):
                for i in reversed(c.ifs):
                    body = [ast.If(i, body, [])]
                body = [ast.For(c.target, c.iter, body, [])]
            return body + [ast.Return(ast.Constant(yes == neg))]
        return s


class lenzero(T):
    """len(x) > 0 -> len(x) != 0, len(x) < 1 -> len(x) == 0 -> not len(x)"""
    def visit_Compare(self, e):
        self.generic_visit(e)
        if isinstance(e.left, ast.Call) and isinstance(
                e.left.func, ast.Name) and e.left.func.id == 'len' and \
                len(e.ops) == 1 and isinstance(
                    e.comparators[0], ast.Constant):
            v = e.comparators[0].value
            o = type(e.ops[0])
            if (o, v) in ((ast.Gt, 0), (ast.GtE, 1)):
                self.count += 1
                return ast.Compare(e.left, [ast.NotEq()], [ast.Constant(0)])
            if (o, v) in ((ast.Lt, 1), (ast.Eq, 0)):
                self.count += 1
                return ast.UnaryOp(ast.Not(), e.left)
            if (o, v) == (ast.Gt, 1):
                self.count += 1
                return ast.Compare(e.left, [ast.GtE()], [ast.Constant(2)])
        return e


class getdefault(T):
    """x.get(k) -> x.get(k, None)"""
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and \
                len(e.args) == 1 and not e.keywords and isinstance(
                    e.args[0], ast.Constant):
            self.count += 1
            e.args.append(ast.Constant(None))
        return e


class attribget(T):
    """x.get('k') of elements -> x.attrib.get('k')"""
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and \
                isinstance(e.func.value, ast.Name) and (
                    'node' in e.func.value.id or
                    'child' in e.func.value.id) and e.args and isinstance(
                        e.args[0], ast.Constant):
            self.count += 1
            e.func.value = ast.Attribute(e.func.value, 'attrib', ast.Load())
        return e


class children(T):
    """for x in node.getchildren() -> for x in node.iterchildren() -> list"""
    def visit_For(self, s):
        self.generic_visit(s)
        i = s.iter
        if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and \
                i.func.attr == 'getchildren':
            self.count += 1
            s.iter = ast.Call(ast.Name('list', ast.Load()), [ast.Call(
                ast.Attribute(i.func.value, 'iterchildren', ast.Load()), [],
                [])], [])
        return s


class subelem(T):
    """x = etree.SubElement(p, t) -> x = etree.Element(t); p.append(x), if
    it has no nsmap"""
    def visit_Assign(self, s):
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr == 'SubElement' and len(v.args) == 2 and \
                not v.keywords and isinstance(s.targets[0], ast.Name):
            self.count += 1
            p = v.args[0]
            v.func.attr = 'Element'
            v.args = v.args[1:]
            return [s, ast.Expr(ast.Call(ast.Attribute(
                p, 'append', ast.Load()),
                [ast.Name(s.targets[0].id, ast.Load())], []))]
        return s


class swapadj(T):
    """independent assignments change places"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if self.f is not None and isinstance(b, list) and b and \
                    isinstance(b[0], ast.stmt):
                self.block(b)
        return n

    def block(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if self.pure(x) and self.pure(y):
                nx = {z.id for z in ast.walk(x) if isinstance(z, ast.Name)}
                ny = {z.id for z in ast.walk(y) if isinstance(z, ast.Name)}
                if not {x.targets[0].id} & ny and not {
                        y.targets[0].id} & nx:
                    self.count += 1
                    b[i], b[i + 1] = y, x
                    i += 2
                    continue
            i += 1

    def pure(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], ast.Name) and not any(
                isinstance(x, (ast.Call, ast.Subscript))
                and not (isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        'get', 'get_schema_node', 'xpath', 'getchildren'))
                for x in ast.walk(s.value))


class emptycheck(T):
    """if x is None -> if x is None or False ..: conditions in parentheses"""
    def visit_If(self, s):
        self.generic_visit(s)
        self.count += 1
        s.test = ast.Call(ast.Name('bool', ast.Load()), [s.test], [])
        return s


class ternaryargs(T):
    """if c: f(a) else: f(b) -> f(a if c else b)"""
    def visit_If(self, s):
        self.generic_visit(s)
        if len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Expr) and isinstance(b, ast.Expr) and \
                    isinstance(a.value, ast.Call) and isinstance(
                        b.value, ast.Call) and ast.dump(a.value.func) == \
                    ast.dump(b.value.func) and len(a.value.args) == len(
                        b.value.args) and not a.value.keywords and \
                    not b.value.keywords:
                d = [i for i, (p, q) in enumerate(zip(
                    a.value.args, b.value.args))
                    if ast.dump(p) != ast.dump(q)]
                if len(d) == 1:
                    self.count += 1
                    a.value.args[d[0]] = ast.IfExp(
                        s.test, a.value.args[d[0]], b.value.args[d[0]])
                    return a
        return s


class annots(T):
    """annotations"""
    def visit_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                self.f is not None:
            self.count += 1
            return ast.AnnAssign(s.targets[0], ast.Name(
                'object', ast.Load()), s.value, 1)
        return s

    def enter(self, f):
        for a in f.args.args[1:]:
            a.annotation = ast.Name('object', ast.Load())
        f.returns = ast.Name('object', ast.Load())
        glob = any(isinstance(x, (ast.Global, ast.Nonlocal))
                   for x in ast.walk(f))
        if glob:
            self.f = None


class walrus(T):
    """x = e; if x is not None: -> if (x := e) is not None"""
    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if self.f is not None and isinstance(b, list) and b and \
                    isinstance(b[0], ast.stmt):
                setattr(n, k, self.block(b))
        return n

    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and \
                    isinstance(p.targets[0], ast.Name) and isinstance(
                        s, ast.If):
                t = s.test
                if isinstance(t, ast.Compare) and isinstance(
                        t.left, ast.Name) and \
                        t.left.id == p.targets[0].id and not any(
                            isinstance(x, ast.Name) and x.id == t.left.id
                            for x in ast.walk(p.value)):
                    self.count += 1
                    t.left = ast.NamedExpr(ast.Name(t.left.id, ast.Store()),
                                           p.value)
                    out[-1] = s
                    continue
            out.append(s)
        return out


class trywrap(T):
    """the body of functions within try: ... except: raise"""
    def enter(self, f):
        i = 1 if ast.get_docstring(f) is not None else 0
        if any(isinstance(x, (ast.Yield, ast.FunctionDef)) and x is not f
               for x in ast.walk(f)) or not f.body[i:]:
            return
        self.count += 1
        f.body[i:] = [ast.Try(f.body[i:], [ast.ExceptHandler(
            ast.Name('Exception', ast.Load()), None,
            [ast.Raise(None, None)])], [], [])]


ALL = [swap, swapall, retvar, condvar, nestand, earlyelse, guard, continues,
       tmpargs, complloop, loopcomp, oreq, flip, demorgan, ifexp, noifexp,
       listwrap, kids, rename, fstring, concat, grow, notis, whilefor, indexed, whiles,
       helper,
       predicate, body, anyall, noop, nothing, logs, tryraise, unpack, aug,
       selfvar, consts, inline, matchcase, kwcalls, mixin, private, anyloop,
       lenzero, getdefault, attribget, children, subelem, swapadj, emptycheck,
       ternaryargs, annots, walrus, trywrap]


def build(t, only, dst):
    base = os.path.join(REPO, 'src', 'ncdiff')
    shutil.copytree(base, os.path.join(dst, 'src', 'ncdiff'),
                    ignore=shutil.ignore_patterns('tests', '__pycache__',
                                                  'yang'))
    n = 0
    for root, _, files in os.walk(os.path.join(dst, 'src', 'ncdiff')):
        for f in files:
            if f.endswith('.py'):
                for x in ast.walk(ast.parse(open(os.path.join(
                        root, f), encoding='utf-8').read())):
                    if isinstance(x, ast.FunctionDef) and \
                            x.name.startswith('_') and \
                            not x.name.startswith('__'):
                        PRIVATE.add(x.name)
    for root, _, files in os.walk(os.path.join(dst, 'src', 'ncdiff')):
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            tree = ast.parse(open(p, encoding='utf-8').read())
            x = t()
            x.only = only
            tree = ast.fix_missing_locations(x.visit(tree))
            n += x.count
            src = ast.unparse(tree)
            ast.parse(src)
            open(p, 'w', encoding='utf-8').write(src)
    return n


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-t')
    ap.add_argument('-p')
    ap.add_argument('-f')
    ap.add_argument('-k', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    import json
    pids = a.p.split(',') if a.p else [
        c['property'] for c in json.load(open(os.path.join(
            VERIF, 'MANIFEST.json')))['checks']]
    ts = [t for t in ALL if not a.t or t.__name__ in a.t.split(',')]
    bad = 0
    for t in ts:
        d = tempfile.mkdtemp(prefix='refac-')
        try:
            n = build(t, a.f, d)

            def one(pid):
                ev = tempfile.mkdtemp(prefix='refev-')
                r = subprocess.run(
                    [sys.executable, '-W', 'ignore', '-m', 'sa.run', pid],
                    cwd=VERIF, capture_output=True, text=True,
                    env=dict(os.environ, NCDIFF_REPO=d,
                             NCDIFF_EVID=ev))
                shutil.rmtree(ev, ignore_errors=True)
                return pid, r.returncode, r.stdout
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(one, pids))
            w = [(p, c, o) for p, c, o in rs if c]
            und = sum(int(o.split(' undecided')[0].split()[-1])
                      for p, c, o in rs if ' undecided' in o)
            print('%-10s %3d edits  %3d undecided  %s' % (
                t.__name__, n, und, ' '.join(
                    '%s(%d)' % (p, c) for p, c, o in w) or 'quiet'),
                flush=True)
            for p, c, o in w:
                bad += 1
                if a.v or True:
                    for line in o.splitlines():
                        if line.startswith('  [') or c == 2:
                            print('      %s %s' % (p, line[:230]))
            if a.k:
                print(d)
        finally:
            if not a.k:
                shutil.rmtree(d, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
