"""Program loader: parses every non-test module of the ncdiff package from the
current source tree and resolves modules, classes, methods, properties,
class-level aliases and module-level bindings.  Nothing is imported or run."""
import ast
import os

from .names import known_names
from .shape import constants, normalize

REPO = os.environ.get('NCDIFF_REPO', '/repo')
PKG = 'src/ncdiff'


class AnalysisBroken(Exception):
    """A needed anchor vanished or the source cannot be analysed."""


PUBLIC = {
    'Position', 'BaseCalculator', 'Tag', 'Composer', 'Config', 'ConfigDelta',
    'ConfigCompatibility', 'ModelError', 'ModelMissing', 'ModelIncompatible',
    'ConfigError', 'ConfigDeltaError', 'ModelDevice', 'Model',
    'DownloadWorker', 'ContextWorker', 'CompilerContext', 'ModelDownloader',
    'ModelCompiler', 'ModelDiff', 'NetconfParser', 'NetconfCalculator',
    'IdentityRef', 'InstanceIdentifier', 'ListDiff', 'RunningConfigDiff'}


class Func(object):
    def __init__(self, node, module, cls, kind):
        self.node = node
        self.module = module          # Mod
        self.cls = cls                # Class or None
        self.kind = kind              # func | method | static | classm | prop | setter
        self.name = node.name
        self.qual = (cls.module if cls else module).name + '.' + \
            ((cls.name + '.') if cls else '') + node.name
        self._gen = None

    @property
    def is_gen(self):
        if self._gen is None:
            self._gen = has_yield(self.node)
        return self._gen

    def __repr__(self):
        return '<%s>' % self.qual

    @property
    def loc(self):
        return '%s:%d' % (self.module.path, self.node.lineno)


def has_yield(fn):
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Class(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}      # class level assignments: name -> ast expr
        self.bases = []


class Mod(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.funcs = {}
        self.classes = {}
        self.imports = {}    # local name -> dotted
        self.assigns = {}    # name -> ast expr (last)


def _flatten(stmts):
    for s in stmts:
        yield s
        if isinstance(s, ast.If):
            for x in _flatten(s.body):
                yield x
            for x in _flatten(s.orelse):
                yield x
        elif isinstance(s, ast.Try):
            for x in _flatten(s.body):
                yield x
            for h in s.handlers:
                for x in _flatten(h.body):
                    yield x


FRESH = (ast.List, ast.Set, ast.ListComp, ast.SetComp)


def _fresh(e):
    return isinstance(e, FRESH) or isinstance(e, ast.Call) and isinstance(
        e.func, ast.Name) and e.func.id in ('list', 'set')


def _grown(s):
    """X = X + e, X = X | e, X = X.union(e), X = [*X, e]: (X, op, e)"""
    if not isinstance(s, ast.Assign) or len(s.targets) != 1 or \
            not isinstance(s.targets[0], ast.Name):
        return None
    x, v = s.targets[0].id, s.value

    def me(e):
        return isinstance(e, ast.Name) and e.id == x
    if isinstance(v, ast.BinOp) and me(v.left) and \
            isinstance(v.op, (ast.Add, ast.BitOr)):
        return x, v.op, v.right
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
            v.func.attr == 'union' and me(v.func.value) and \
            len(v.args) == 1 and not v.keywords:
        return x, ast.BitOr(), v.args[0]
    if isinstance(v, (ast.List, ast.Set)) and v.elts and \
            isinstance(v.elts[0], ast.Starred) and me(v.elts[0].value):
        rest = ast.copy_location(type(v)(v.elts[1:], ast.Load()), v) \
            if isinstance(v, ast.List) else ast.copy_location(
                ast.Set(v.elts[1:]), v)
        if v.elts[1:]:
            return x, ast.Add() if isinstance(v, ast.List) else \
                ast.BitOr(), rest
    return None


class _Grow(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Assign(self, s):
        g = _grown(s)
        if g is None or g[0] not in self.names:
            return s
        return _call(s, s.targets[0], g[2], isinstance(g[1], ast.Add))


def _call(s, target, more, islist):
    """x.append(e), x.extend(more), x.add(e) or x.update(more)"""
    one = isinstance(more, (ast.List, ast.Set)) and len(more.elts) == 1 and \
        not isinstance(more.elts[0], ast.Starred)
    name = ('append' if one else 'extend') if islist else (
        'add' if one else 'update')
    e = ast.Call(ast.Attribute(ast.Name(target.id, ast.Load()), name,
                               ast.Load()),
                 [more.elts[0] if one else more], [])
    r = ast.copy_location(ast.Expr(e), s)
    for x in ast.walk(r):
        if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
            ast.copy_location(x, s)
    return r


class _Plus(ast.NodeTransformer):
    """x += [e] is x.append(e)"""
    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and \
                isinstance(s.value, ast.List) and s.value.elts:
            return _call(s, s.target, s.value, True)
        return s


class _Where(object):
    """names another name may refer to, and where that happens"""
    def __init__(self, fn):
        self.fn = fn
        self.at = 0
        self.seen = []

    def add(self, name):
        self.seen.append((name, self.at))

    def __ior__(self, names):
        self.seen.extend((n, self.at) for n in names)
        return self

    def harmful(self):
        """those referred to before they stopped growing"""
        loops = [(x.lineno, x.end_lineno) for x in ast.walk(self.fn)
                 if isinstance(x, (ast.For, ast.While))]
        last = {}
        for s in ast.walk(self.fn):
            g = _grown(s)
            if g:
                last[g[0]] = max(last.get(g[0], 0), s.lineno)
        return {n for n, at in self.seen if n in last and (
            at <= last[n] or any(a <= at <= b and a <= last[n] <= b
                                 for a, b in loops))}


def accumulate(tree):
    """A local collection that is replaced by itself and more is extended, if
    no other name can refer to it."""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        names = {g[0] for s in ast.walk(fn) for g in [_grown(s)] if g}
        if not names:
            continue
        a = fn.args
        bad = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        bad |= {x.arg for x in (a.vararg, a.kwarg) if x}
        fresh, alias = set(), _Where(fn)
        given = [s.value for s in ast.walk(fn) if isinstance(s, ast.Return)]
        for s in ast.walk(fn):
            alias.at = getattr(s, 'lineno', 0)
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and len(s.targets) == 1 and \
                            (_fresh(s.value) or _grown(s)):
                        fresh.add(t.id)
                    else:
                        bad |= {y.id for y in ast.walk(t)
                                if isinstance(y, ast.Name)}
                if isinstance(s.value, ast.Name):
                    alias.add(s.value.id)
                elif isinstance(s.value, ast.IfExp):
                    alias |= {y.id for y in (s.value.body, s.value.orelse)
                              if isinstance(y, ast.Name)}
                elif isinstance(s.value, ast.BoolOp):
                    alias |= {y.id for y in s.value.values
                              if isinstance(y, ast.Name)}
            elif isinstance(s, (ast.For, ast.comprehension)):
                bad |= {y.id for y in ast.walk(s.target)
                        if isinstance(y, ast.Name)}
            elif isinstance(s, (ast.Global, ast.Nonlocal)):
                bad |= set(s.names)
            elif isinstance(s, ast.Lambda):
                alias |= {y.id for y in ast.walk(s)
                          if isinstance(y, ast.Name)}
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                    s is not fn:
                alias |= {y.id for y in ast.walk(s)
                          if isinstance(y, ast.Name)}
            elif isinstance(s, (ast.List, ast.Set, ast.Tuple)) and \
                    s not in given:
                alias |= {y.id for y in s.elts if isinstance(y, ast.Name)}
            elif isinstance(s, ast.Dict):
                alias |= {y.id for y in s.values if isinstance(y, ast.Name)}
            elif isinstance(s, (ast.Yield, ast.Await, ast.NamedExpr)):
                alias |= {y.id for y in (s.value,) if isinstance(y, ast.Name)}
            if isinstance(s, ast.Call) and isinstance(
                    s.func, ast.Attribute) and s.func.attr in (
                        'append', 'add', 'insert', 'put', 'setdefault'):
                alias |= {y.id for y in s.args if isinstance(y, ast.Name)}
        ok = (names & fresh) - bad - alias.harmful()
        if ok:
            _Grow(ok).visit(fn)


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.classes = {}
        trees = []
        base = os.path.join(self.repo, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken('package folder %s not found' % base)
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs
                             if d not in ('tests', '__pycache__', 'yang'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.repo)
                name = os.path.relpath(p, base)[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                trees.append((name, rel, tree))
        known_names([t for n, r, t in trees])
        for name, rel, tree in trees:
            constants(tree)
            normalize(tree)
            _Plus().visit(tree)
            accumulate(tree)
            self.mods[name] = self._module(name, rel, tree)
        for m in self.mods.values():
            for c in m.classes.values():
                self.classes[c.name] = c
        self._parts()
        self.nfuncs = sum(1 for f in self.functions())

    def _parts(self):
        """A class that is nothing but a base of others (never mentioned
        elsewhere, none of its methods overridden) is a part of them: its
        members are taken as members of its subclasses."""
        while True:
            used = {}
            for m in self.mods.values():
                bases = {id(b) for k in ast.walk(m.tree)
                         if isinstance(k, ast.ClassDef) for b in k.bases}
                for x in ast.walk(m.tree):
                    n = x.id if isinstance(x, ast.Name) else \
                        x.attr if isinstance(x, ast.Attribute) else None
                    if n in self.classes and id(x) not in bases:
                        used[n] = True
            for b in list(self.classes.values()):
                subs = [c for c in self.classes.values()
                        if b.name in c.bases]
                if b.name in PUBLIC or b.name in used or not subs or \
                        b.setters:
                    continue
                mine = set(b.methods) | set(b.attrs)
                if any(mine & (set(c.methods) | set(c.attrs))
                       for c in subs) or '__init__' in mine or any(
                           isinstance(x, ast.Name) and x.id == 'super'
                           for x in ast.walk(b.node)):
                    continue
                for c in subs:
                    for n, f in b.methods.items():
                        c.methods[n] = Func(f.node, b.module, c, f.kind)
                    for n, v in b.attrs.items():
                        c.attrs[n] = v
                    at = c.bases.index(b.name)
                    c.bases[at:at + 1] = [x for x in b.bases
                                          if x != 'object']
                del self.classes[b.name]
                b.module.classes.pop(b.name, None)
                break
            else:
                return

    def functions(self):
        for m in self.mods.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f

    def _module(self, name, rel, tree):
        m = Mod(name, rel, tree)
        for s in _flatten(tree.body):
            if isinstance(s, ast.FunctionDef):
                m.funcs[s.name] = Func(s, m, None, 'func')
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = self._class(s, m)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.imports[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                mod = ('.' * s.level) + (s.module or '')
                for a in s.names:
                    m.imports[a.asname or a.name] = mod + ('' if mod.endswith('.') else '.') + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                m.assigns[s.target.id] = s.value
        return m

    def _class(self, node, m):
        c = Class(node, m)
        for b in node.bases:
            if isinstance(b, ast.Name):
                c.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                c.bases.append(b.attr)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'method'
                setter = False
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'staticmethod':
                        kind = 'static'
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        kind = 'classm'
                    elif isinstance(d, ast.Name) and d.id in (
                            'property', 'cached_property'):
                        kind = 'prop'
                    elif isinstance(d, ast.Attribute) and \
                            d.attr == 'cached_property':
                        kind = 'prop'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        setter = True
                        kind = 'setter'
                f = Func(s, m, c, kind)
                (c.setters if setter else c.methods)[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                if isinstance(s.target, ast.Name):
                    c.attrs[s.target.id] = s.value
        return c

    # -- resolution ------------------------------------------------------
    def mro(self, cname):
        out, todo = [], [cname]
        while todo:
            n = todo.pop(0)
            c = self.classes.get(n)
            if c is None or c in out:
                continue
            out.append(c)
            todo = list(c.bases) + todo
        return out

    def subclasses(self, cname):
        return [c for c in self.classes.values()
                if any(k.name == cname for k in self.mro(c.name))]

    def lookup(self, cname, attr, setter=False):
        """Method/property of a class (following bases and class-level
        aliases such as ``emit_tree = Model.emit_tree``)."""
        for c in self.mro(cname):
            d = c.setters if setter else c.methods
            if attr in d:
                return d[attr]
            if not setter and attr in c.attrs:
                v = c.attrs[attr]
                if isinstance(v, ast.Attribute) and \
                        isinstance(v.value, ast.Name) and \
                        v.value.id in self.classes:
                    r = self.lookup(v.value.id, v.attr)
                    if r is not None:
                        return r
                if isinstance(v, ast.Name) and v.id in c.methods:
                    return c.methods[v.id]
                if isinstance(v, ast.Call) and \
                        isinstance(v.func, ast.Name) and \
                        v.func.id == 'property' and v.args and \
                        isinstance(v.args[0], ast.Name) and \
                        v.args[0].id in c.methods:
                    f = c.methods[v.args[0].id]
                    g = Func(f.node, f.module, f.cls, 'prop')
                    return g
        return None

    def method(self, cname, name):
        f = self.lookup(cname, name)
        if f is None:
            raise AnalysisBroken('anchor %s.%s not found' % (cname, name))
        return f

    def async_attrs(self):
        """Names of attributes that the threads of the package can write
        to: stored, or changed in place, in what run() of a Thread class can
        call (callees by name)."""
        if getattr(self, '_async', None) is None:
            byname = {}
            for f in self.functions():
                byname.setdefault(f.name, []).append(f)
            todo = [f for c in self.classes.values()
                    if any(str(b).split('.')[-1] == 'Thread'
                           for b in c.bases)
                    for n, f in c.methods.items() if n == 'run']
            todo += [f for n in ast.walk(ast.Module(
                [m.tree for m in self.mods.values()
                 if hasattr(m, 'tree')], []))
                if isinstance(n, ast.keyword) and n.arg == 'target'
                for f in byname.get(getattr(n.value, 'attr', None) or
                                    getattr(n.value, 'id', None), [])]
            seen, out = [], set()
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.append(f)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and not isinstance(
                            n.ctx, ast.Load):
                        out.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute):
                        if isinstance(n.func.value, ast.Attribute) and \
                                n.func.attr in ('append', 'add', 'update',
                                                'extend', 'insert'):
                            out.add(n.func.value.attr)
                        todo += [g for g in byname.get(n.func.attr, [])
                                 if g.module is f.module]
            self._async = out
        return self._async

    def func(self, mod, name):
        m = self.mods.get(mod)
        if m is None or name not in m.funcs:
            raise AnalysisBroken('anchor %s.%s not found' % (mod, name))
        return m.funcs[name]
