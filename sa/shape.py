"""Loop shapes brought to one form before the analysis: index loops over a
collection that stays the same become loops over its members."""
import ast

GROWING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add',
           'update', 'discard', 'sort', 'reverse', 'popitem', 'setdefault'}


def _len_of(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'len' and len(e.args) == 1 and not e.keywords:
        return e.args[0]
    return None


def _plain(e):
    """a name or a chain of attributes of a name"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def _walk(stmts):
    for s in stmts:
        for x in ast.walk(s):
            yield x


def _fixed(coll, body):
    """the collection is neither rebound nor changed in the body"""
    d = ast.dump(coll)
    root = coll
    while isinstance(root, ast.Attribute):
        root = root.value
    for x in _walk(body):
        if isinstance(x, ast.Name) and x.id == root.id and not isinstance(
                x.ctx, ast.Load):
            return False
        if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(
                x.ctx, ast.Load) and (
                    isinstance(x, ast.Subscript) and
                    d == _load(x.value) or _load(x) == d):
            return False
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                x.func.attr in GROWING and _load(x.func.value) == d:
            return False
        # handed to something that may change it
        if isinstance(x, ast.Call) and not _len_of(x) and any(
                _load(a) == d for a in x.args):
            return False
    return True


def _load(e):
    return ast.dump(e).replace('ctx=Store()', 'ctx=Load()').replace(
        'ctx=Del()', 'ctx=Load()')


class _Item(ast.NodeTransformer):
    def __init__(self, coll, idx, name):
        self.d = ast.dump(coll)
        self.idx = idx
        self.name = name
        self.n = 0

    def visit_Subscript(self, s):
        self.generic_visit(s)
        if isinstance(s.ctx, ast.Load) and isinstance(
                s.slice, ast.Name) and s.slice.id == self.idx and \
                ast.dump(s.value) == self.d:
            self.n += 1
            return ast.copy_location(ast.Name(self.name, ast.Load()), s)
        return s


def _uses(stmts, name):
    return [x for x in _walk(stmts) if isinstance(x, ast.Name) and
            x.id == name]


class Shape(object):
    def __init__(self, fn):
        self.fn = fn
        self.n = 0

    def run(self):
        self.block(self.fn.body)

    def block(self, body):
        self.tries(body)
        self.elements(body)
        for j, s in enumerate(body):
            if isinstance(s, ast.While):
                r = self.wh(s, body, j)
                if r is not None:
                    s = body[j] = r
            if isinstance(s, ast.For):
                self.ranges(s)
                self.indexes(s)
                self.targets(s)
            for k in ('body', 'orelse', 'finalbody'):
                b = getattr(s, k, None)
                if isinstance(b, list) and b and isinstance(
                        b[0], ast.stmt) and not isinstance(
                            s, (ast.FunctionDef, ast.ClassDef)):
                    self.block(b)
            for h in getattr(s, 'handlers', ()):
                self.block(h.body)

    def tries(self, body):
        """handlers that do nothing but raise again do not count"""
        j = 0
        while j < len(body):
            s = body[j]
            if isinstance(s, ast.Try):
                while s.handlers and len(s.handlers[-1].body) == 1 and \
                        isinstance(s.handlers[-1].body[0], ast.Raise) and \
                        s.handlers[-1].body[0].exc is None:
                    s.handlers.pop()
                if not s.handlers:
                    rest = s.body + s.orelse
                    if not s.finalbody:
                        body[j:j + 1] = rest
                        continue
                    s.body, s.orelse = rest, []
            j += 1

    def elements(self, body):
        """x = etree.Element(t); p.append(x) -> x = etree.SubElement(p, t)"""
        j = 0
        while j + 1 < len(body):
            s = body[j]
            x = self.element(s)
            j += 1
            if x is None:
                continue
            k = j
            while k < len(body) and self.dresses(body[k], x):
                k += 1
            if k == len(body):
                continue
            b = body[k]
            if not (isinstance(b, ast.Expr) and isinstance(
                    b.value, ast.Call) and isinstance(
                        b.value.func, ast.Attribute) and
                    b.value.func.attr == 'append' and
                    _plain(b.value.func.value) and
                    len(b.value.args) == 1 and not b.value.keywords and
                    isinstance(b.value.args[0], ast.Name) and
                    b.value.args[0].id == x):
                continue
            p = b.value.func.value
            if any(y.id == x for y in ast.walk(p)
                   if isinstance(y, ast.Name)):
                continue
            s.value.func.attr = 'SubElement'
            s.value.args.insert(0, p)
            del body[k]
            if not body:
                body.append(ast.copy_location(ast.Pass(), s))

    def element(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and \
                isinstance(s.value, ast.Call) and isinstance(
                    s.value.func, ast.Attribute) and \
                s.value.func.attr == 'Element' and isinstance(
                    s.value.func.value, ast.Name) and \
                s.value.func.value.id == 'etree' and s.value.args:
            return s.targets[0].id
        return None

    def dresses(self, s, x):
        """x.text = .., x.set(..): nothing but the new element"""
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, rest = s.targets[0], [s.value]
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'set':
            t, rest = s.value.func, s.value.args
        else:
            return False
        return isinstance(t, ast.Attribute) and isinstance(
            t.value, ast.Name) and t.value.id == x and not any(
                isinstance(y, ast.Call) for r in rest for y in ast.walk(r))

    def fresh(self):
        self.n += 1
        return 'each_%d_%d' % (self.fn.lineno, self.n)

    def wh(self, s, body, j):
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or s.orelse:
            return None
        left, right = t.left, t.comparators[0]
        if isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and \
                _len_of(left) is not None:
            left, right = right, left
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        coll = _len_of(right)
        if coll is None or not isinstance(left, ast.Name) or \
                not _plain(coll):
            return None
        i = left.id
        init = [k for k in range(j) if isinstance(body[k], ast.Assign) and
                len(body[k].targets) == 1 and isinstance(
                    body[k].targets[0], ast.Name) and
                body[k].targets[0].id == i]
        if not init or not isinstance(body[init[-1]].value, ast.Constant) or \
                body[init[-1]].value.value != 0 or \
                type(body[init[-1]].value.value) is not int:
            return None
        if _uses(body[init[-1] + 1:j], i):
            return None
        steps = [k for k, b in enumerate(s.body) if self.step(b, i)]
        stores = [x for x in _uses(s.body, i)
                  if not isinstance(x.ctx, ast.Load)]
        if len(steps) != 1 or len(stores) != 1:
            return None
        k = steps[0]
        if _uses(s.body[k + 1:], i):
            return None
        if self.own(s.body[:k], ast.Continue) or not _fixed(coll, s.body):
            return None
        n = len(_uses(self.fn.body, i))
        inside = len(_uses([s], i)) + 1
        if n != inside:
            return None
        body[init[-1]] = ast.copy_location(ast.Pass(), body[init[-1]])
        x = self.fresh()
        it = _Item(coll, i, x)
        new = [it.visit(b) for b in s.body[:k] + s.body[k + 1:]]
        f = ast.For(ast.Tuple([ast.Name(i, ast.Store()),
                               ast.Name(x, ast.Store())], ast.Store()),
                    ast.Call(ast.Name('enumerate', ast.Load()), [coll], []),
                    new or [ast.Pass()], [])
        return fix(f, s)

    def step(self, b, i):
        if isinstance(b, ast.AugAssign):
            return isinstance(b.target, ast.Name) and b.target.id == i and \
                isinstance(b.op, ast.Add) and isinstance(
                    b.value, ast.Constant) and b.value.value == 1
        return isinstance(b, ast.Assign) and isinstance(
            b.targets[0], ast.Name) and b.targets[0].id == i and \
            isinstance(b.value, ast.BinOp) and isinstance(
                b.value.op, ast.Add) and isinstance(
                    b.value.left, ast.Name) and b.value.left.id == i and \
            isinstance(b.value.right, ast.Constant) and \
            b.value.right.value == 1

    def own(self, stmts, kind):
        """such a statement of this loop, not of one inside"""
        for s in stmts:
            if isinstance(s, kind):
                return True
            if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                continue
            for k in ('body', 'orelse', 'finalbody'):
                if self.own(getattr(s, k, None) or [], kind):
                    return True
            for h in getattr(s, 'handlers', ()):
                if self.own(h.body, kind):
                    return True
        return False

    def ranges(self, s):
        """for i in range(len(c)) -> for i, x in enumerate(c)"""
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.func.id == 'range' and isinstance(s.target, ast.Name)):
            return
        a = it.args
        if len(a) == 2 and isinstance(a[0], ast.Constant) and \
                a[0].value == 0:
            a = a[1:]
        coll = _len_of(a[0]) if len(a) == 1 else None
        if coll is None or not _plain(coll) or not _fixed(coll, s.body):
            return
        i = s.target.id
        if any(not isinstance(x.ctx, ast.Load) for x in _uses(s.body, i)):
            return
        x = self.fresh()
        t = _Item(coll, i, x)
        s.body = [t.visit(b) for b in s.body]
        s.target = ast.Tuple([s.target, ast.Name(x, ast.Store())],
                             ast.Store())
        s.iter = ast.Call(ast.Name('enumerate', ast.Load()), [coll], [])
        fix(s, s)

    def indexes(self, s):
        """for i, x in enumerate(c) -> for x in c if i is not used"""
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.func.id == 'enumerate' and len(it.args) >= 1 and
                isinstance(s.target, ast.Tuple) and
                len(s.target.elts) == 2 and
                isinstance(s.target.elts[0], ast.Name)):
            return
        i = s.target.elts[0].id
        if len(_uses(self.fn.body, i)) != 1:
            return
        s.iter = it.args[0]
        s.target = s.target.elts[1]

    def targets(self, s):
        """for t in c: a = t -> for a in c if t is not used elsewhere"""
        if not isinstance(s.target, ast.Name) or not s.body:
            return
        b = s.body[0]
        t = s.target.id
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and
                isinstance(b.value, ast.Name) and b.value.id == t and
                isinstance(b.targets[0], (ast.Name, ast.Tuple))):
            return
        if len(_uses(self.fn.body, t)) != 2 or len(s.body) < 2:
            return
        if any(not isinstance(x, (ast.Name, ast.Tuple, ast.expr_context))
               for x in ast.walk(b.targets[0])):
            return
        s.target = b.targets[0]
        s.body = s.body[1:]


def fix(new, old):
    for x in ast.walk(new):
        if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
            ast.copy_location(x, old)
    return new


def comprehensions(fn):
    """unused indexes of comprehensions"""
    for c in ast.walk(fn):
        if not isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                              ast.DictComp)):
            continue
        for g in c.generators:
            it = g.iter
            if isinstance(it, ast.Call) and isinstance(
                    it.func, ast.Name) and it.func.id == 'enumerate' and \
                    isinstance(g.target, ast.Tuple) and \
                    len(g.target.elts) == 2 and \
                    isinstance(g.target.elts[0], ast.Name) and \
                    len([x for x in ast.walk(c) if isinstance(x, ast.Name) and
                         x.id == g.target.elts[0].id]) == 1:
                g.iter = it.args[0]
                g.target = g.target.elts[1]


def normalize(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            Shape(fn).run()
            comprehensions(fn)


class _Inline(ast.NodeTransformer):
    """names of constants of the module stand for their values"""
    def __init__(self, consts):
        self.consts = consts
        self.bound = [set()]

    def visit_FunctionDef(self, f):
        f.args.defaults = [self.visit(d) for d in f.args.defaults]
        f.args.kw_defaults = [d and self.visit(d)
                              for d in f.args.kw_defaults]
        b = {a.arg for a in f.args.args + f.args.kwonlyargs +
             f.args.posonlyargs}
        b |= {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        b |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
              not isinstance(x.ctx, ast.Load)}
        b |= {x.name for x in ast.walk(f) if isinstance(
            x, (ast.ExceptHandler, ast.FunctionDef)) and x.name}
        self.bound.append(self.bound[-1] | b)
        f.body = [self.visit(s) for s in f.body]
        self.bound.pop()
        return f

    def visit_Lambda(self, f):
        self.bound.append(self.bound[-1] | {a.arg for a in f.args.args})
        self.generic_visit(f)
        self.bound.pop()
        return f

    def visit_Name(self, x):
        if isinstance(x.ctx, ast.Load) and x.id in self.consts and \
                x.id not in self.bound[-1]:
            return ast.copy_location(ast.Constant(self.consts[x.id]), x)
        return x


def constants(tree):
    found, count = {}, {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name):
            n = s.targets[0].id
            if isinstance(s.value, ast.Constant) and isinstance(
                    s.value.value, (str, int)):
                found[n] = s.value.value
    for x in ast.walk(tree):
        if isinstance(x, ast.Global):
            for n in x.names:
                found.pop(n, None)
    for x in tree.body:
        for y in ast.walk(x) if not isinstance(
                x, (ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load):
                count[y.id] = count.get(y.id, 0) + 1
    found = {n: v for n, v in found.items() if count.get(n) == 1 and
             not n.startswith('__')}
    if found:
        _Inline(found).visit(tree)
