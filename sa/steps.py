"""Loops as transition systems: the body of a loop becomes a function from
the state before an iteration to the state after it, so that the path
analysis sees one arbitrary iteration instead of the first ones."""
import ast
import copy

from .load import Func


class _Jump(ast.NodeTransformer):
    """continue/break of this loop -> return of the state"""

    def __init__(self, ret):
        self.ret = ret

    def visit_Continue(self, node):
        return self.ret('next', node)

    def visit_Break(self, node):
        return self.ret('break', node)

    def visit_For(self, node):
        node.orelse = [self.visit(x) for x in node.orelse]
        return node

    visit_While = visit_For

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_FunctionDef
    visit_AsyncFunctionDef = visit_FunctionDef


def stored(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


def comp_only(nodes):
    """names bound by comprehensions only"""
    inside, outside = set(), set()

    def go(n, c):
        for x in ast.iter_child_nodes(n):
            cc = c or isinstance(x, ast.comprehension)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                (inside if isinstance(n, ast.comprehension) or c
                 else outside).add(x.id)
            go(x, cc)
    for n in nodes:
        go(ast.Module(body=[n], type_ignores=[]), False)
    return inside - outside


class Step(object):
    """fn: the synthetic function; state: names in the order returned;
    target: names bound by the loop; iter: what is iterated"""

    def __init__(self, fn, state, loop, kind):
        self.fn = fn
        self.state = state
        self.loop = loop
        self.kind = kind
        self.target = sorted(stored([loop.target])) if isinstance(
            loop, ast.For) else []

    def pos(self, name):
        return self.state.index(name)


def locals_of(fn):
    a = fn.node.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    body = [n for n in fn.node.body]
    st = stored(body) - comp_only(body)
    return out, sorted(st - set(out))


def block_of(fn, loop):
    """(block, index, blocks around it) that contains the loop"""
    def go(block):
        for i, n in enumerate(block):
            if n is loop:
                return block, i
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) \
                        and not isinstance(n, (ast.FunctionDef, ast.For,
                                               ast.While)):
                    r = go(b)
                    if r:
                        return r
    return go(fn.node.body)


def _mk(fn, name, params, body, like):
    body = body or [ast.Pass()]
    inner = [n for n in fn.node.body if isinstance(n, ast.FunctionDef)]
    d = ast.FunctionDef(
        name=name, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=p) for p in params],
            kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None,
            kwarg=None), body=inner + body, decorator_list=[], returns=None,
        type_params=[])
    ast.copy_location(d, like)
    ast.fix_missing_locations(d)
    return Func(d, fn.module, fn.cls, fn.kind if fn.kind in (
        'method', 'static') else 'static')


def step(fn, loop):
    """one arbitrary iteration of the loop"""
    params, loc = locals_of(fn)
    inner = {n.name for n in fn.node.body if isinstance(n, ast.FunctionDef)}
    state = [x for x in params + loc if x not in inner]
    pre = []
    for n in fn.node.body:
        if n is loop or loop in list(ast.walk(n)):
            break
        pre.append(n)
    live = [x for x in state if x in stored(loop.body) and
            (x in params or x in stored(pre) - comp_only(pre))]

    def ret(kind, at):
        r = ast.Return(value=ast.Tuple(elts=[ast.Constant(value=kind)] + [
            ast.Name(id=x, ctx=ast.Load()) for x in live],
            ctx=ast.Load()))
        return ast.fix_missing_locations(ast.copy_location(r, at))
    body = copy.deepcopy(loop.body)
    t = _Jump(ret)
    body = [t.visit(n) for n in body]
    body.append(ret('next', loop.body[-1]))
    f = _mk(fn, fn.node.name, state, body, loop)
    return Step(f, ['#'] + live, loop, 'for')


def before(fn, loop):
    """the state when the loop starts (prefix of its block)"""
    r = block_of(fn, loop)
    if not r or r[0] is not fn.node.body:
        return None
    block, i = r
    params, loc = locals_of(fn)
    pre = [copy.deepcopy(n) for n in block[:i]
           if not isinstance(n, ast.FunctionDef)]
    have = stored(pre) - comp_only(pre)
    state = [x for x in params + loc if x in params or x in have]
    v = ast.Return(value=ast.Tuple(elts=[loop.iter if isinstance(
        loop, ast.For) else ast.Constant(value=None)] + [
        ast.Name(id=x, ctx=ast.Load()) for x in state], ctx=ast.Load()))
    ast.copy_location(v, loop)
    f = _mk(fn, fn.node.name, params, pre + [v], fn.node)
    return Step(f, ['iter'] + state, loop, 'before')


def after(fn, loop):
    """what follows the loop, from an arbitrary state"""
    r = block_of(fn, loop)
    if not r or r[0] is not fn.node.body:
        return None
    block, i = r
    params, loc = locals_of(fn)
    inner = {n.name for n in fn.node.body if isinstance(n, ast.FunctionDef)}
    state = [x for x in params + loc if x not in inner]
    post = [copy.deepcopy(n) for n in block[i + 1:]
            if not isinstance(n, ast.FunctionDef)]
    f = _mk(fn, fn.node.name, state, post, loop)
    return Step(f, state, loop, 'after')


def toploops(fn):
    return [n for n in fn.node.body if isinstance(n, (ast.For, ast.While))]


def _between(fn, first, last):
    i, j = fn.node.body.index(first), fn.node.body.index(last)
    return [copy.deepcopy(n) for n in fn.node.body[i + 1:j]
            if not isinstance(n, ast.FunctionDef)]


def entry_names(fn, last, first):
    params, loc = locals_of(fn)
    pre = _between(fn, first, last)
    return ['iter'] + sorted(stored(pre) - comp_only(pre))


def step_entry(fn, last, first):
    """state when the loop last starts, from an arbitrary state after the
    loop first"""
    params, loc = locals_of(fn)
    pre = _between(fn, first, last)
    ns = entry_names(fn, last, first)[1:]
    v = ast.Return(value=ast.Tuple(elts=[last.iter] + [
        ast.Name(id=x, ctx=ast.Load()) for x in ns], ctx=ast.Load()))
    ast.copy_location(v, last)
    return _mk(fn, fn.node.name, params + loc, pre + [v], last)
