"""Ownership and effect analysis over the syntax tree.

Flow-sensitive for local variables, context-sensitive by abstract argument
values, flow-insensitive for object fields and container contents.  A value is
a set of atoms; strings, numbers and booleans are the empty set.

  ('op', name, cls)   an operand of the operation analysed (its objects and
                      all nodes of its trees); cls is a class of the program
                      or 'tree' (an lxml element) or 'any'
  ('dev',)            the device object and anything reached from it
  ('schema',)         a node of a schema tree of the device
  ('el', site)        an element created at a program point
  ('obj', site, cls)  an object of a program class created at a program point
  ('L', site)         a list, dict, set, iterator created at a program point
  ('fn', id)          a nested function or lambda
  ('cls', name)       a program class

Effects: every call or assignment that changes a tree, an object or a
container, with the atoms changed.  Nothing is executed."""
import ast



EMPTY = frozenset()

# methods of an lxml element that change the tree of the receiver
MUT = {'set', 'append', 'remove', 'insert', 'extend', 'addnext',
       'addprevious', 'replace', 'clear'}
# of which arguments are moved out of the tree they are in
MOVE = {'append', 'insert', 'extend', 'addnext', 'addprevious', 'replace'}
# on containers and on .attrib
CMUT = {'append', 'remove', 'insert', 'extend', 'clear', 'pop', 'popitem',
        'update', 'setdefault', 'add', 'discard', 'sort', 'reverse',
        'difference_update', 'intersection_update', 'appendleft', 'popleft',
        'put', 'symmetric_difference_update'}
STR_ATTR = {'text', 'tail', 'tag', 'prefix', 'nsmap', 'sourceline', 'name',
            'base', 'localname', 'namespace'}
STR_METH = {'get', 'findtext', 'format', 'join', 'split', 'strip', 'lower',
            'upper', 'startswith', 'endswith', 'group', 'xpath_string'}
NAV = {'getparent', 'getchildren', 'getnext', 'getprevious', 'find',
       'findall', 'iterfind', 'iter', 'iterchildren', 'iterancestors',
       'iterdescendants', 'itersiblings', 'xpath', 'getroottree', 'getroot',
       'getiterator', 'values', 'items', 'keys', 'copy', 'pop', 'index',
       'itertext'}
PASS = {'list', 'sorted', 'reversed', 'set', 'iter', 'next', 'enumerate',
        'zip', 'map', 'filter', 'min', 'max', 'dict', 'tuple', 'frozenset',
        'OrderedDict', 'chain', 'deque', 'defaultdict', 'islice', 'groupby',
        'partial', 'reduce', 'sum', 'getattr', 'super'}
ETREE_MUT = {'strip_tags', 'strip_elements', 'strip_attributes',
             'cleanup_namespaces', 'indent', 'deannotate', 'annotate'}


class Effect(object):
    __slots__ = ('kind', 'atom', 'name', 'loc', 'stack', 'note')

    def __init__(self, kind, atom, name, loc, stack, note=''):
        self.kind = kind          # tree | moved | rebind | cont
        self.atom = atom
        self.name = name
        self.loc = loc
        self.stack = stack
        self.note = note

    def __repr__(self):
        return '<%s %s %s @%s>' % (self.kind, self.atom, self.name, self.loc)


class Fun(object):
    def __init__(self, node, module, cls, env, qual, kind='func'):
        self.node = node
        self.module = module
        self.cls = cls
        self.env = env
        self.qual = qual
        self.kind = kind


class Env(object):
    """Variables of one function activation; ``ever`` joins all values a
    variable had, for closures."""

    def __init__(self, parent, fun):
        self.vars = {}
        self.ever = {}
        self.parent = parent
        self.fun = fun
        self.ret = EMPTY
        self.loops = []
        self.key = None


class Alias(object):
    LIMIT = 60000

    def __init__(self, prog, device='ModelDevice'):
        self.prog = prog
        self.devcls = device
        self.heap = {}        # (atom, attr) -> value
        self.cont = {}        # site atom -> value
        self.memo = {}
        self.effects = {}
        self.funs = {}
        self.changed = False
        self.active = []
        self.used = set()
        self.steps = 0
        self.props = {}
        for f in prog.functions():
            if f.kind == 'prop':
                self.props.setdefault(f.name, []).append(f)
        self.methods = {}
        for f in prog.functions():
            if f.cls is not None and f.kind in ('method', 'static', 'classm'):
                self.methods.setdefault(f.name, []).append(f)

    # -- driving ---------------------------------------------------------
    def run(self, todo):
        """todo: function that performs calls; repeated to a fixpoint"""
        for i in range(40):
            self.changed = False
            self.memo_seen = set()
            self.steps = 0
            out = todo()
            if not self.changed:
                return out
        raise RuntimeError('ownership analysis does not converge')

    # -- heap ------------------------------------------------------------
    def hget(self, a, attr):
        return self.heap.get((a, attr), EMPTY)

    def hset(self, a, attr, v):
        o = self.heap.get((a, attr))
        n = v if o is None else o | v
        if n != o:
            self.heap[(a, attr)] = n
            self.changed = True

    def cget(self, a):
        return self.cont.get(a, EMPTY)

    def cadd(self, a, v):
        o = self.cont.get(a)
        n = v if o is None else o | v
        if n != o:
            self.cont[a] = n
            if o is not None or v:
                self.changed = True

    def elems(self, v):
        """What iterating or subscripting the value gives."""
        out = set()
        for a in v:
            if a[0] == 'L':
                out |= self.cget(a)
            elif a[0] in ('op', 'schema', 'el', 'dev'):
                out.add(a)
                out |= self.cget(a)
            elif a[0] == 'devf':
                out |= self.cget(a)
                if a[1] not in ('nodes',):
                    out.add(a)
            elif a[0] == 'obj':
                out |= self.cget(a)
        return frozenset(out)

    def new(self, kind, node, *rest):
        return (kind, (self.cur.module.name, node.lineno,
                       node.col_offset)) + rest

    def mklist(self, node, v):
        a = self.new('L', node)
        self.cadd(a, v)
        return frozenset([a])

    # -- effects ---------------------------------------------------------
    def effect(self, kind, v, name, node, note=''):
        for a in v:
            if a[0] in ('fn', 'cls'):
                continue
            loc = '%s:%d' % (self.cur.module.path, node.lineno)
            key = (kind, a, name, loc, self.cur.qual)
            if key not in self.effects:
                self.effects[key] = Effect(
                    kind, a, name, '%s (%s)' % (loc, self.cur.qual),
                    [f.qual for f in self.active], note)

    # -- functions -------------------------------------------------------
    @property
    def cur(self):
        return self.active[-1]

    def fun(self, f, env=None):
        return Fun(f.node, f.module, f.cls, env, f.qual, f.kind)

    def call_func(self, fun, args, kw, node=None, star=EMPTY):
        """args: list of values; returns the value"""
        self.steps += 1
        if self.steps > self.LIMIT:
            raise RuntimeError('ownership analysis too large')
        a = fun.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        for i, v in enumerate(args):
            if i < len(names):
                bound[names[i]] = v
            elif a.vararg:
                bound[a.vararg.arg] = bound.get(a.vararg.arg, EMPTY) | v
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            elif a.kwarg:
                bound[a.kwarg.arg] = bound.get(a.kwarg.arg, EMPTY) | v
        if star:
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in bound:
                    bound[n] = star
            for x in (a.vararg, a.kwarg):
                if x:
                    bound[x.arg] = bound.get(x.arg, EMPTY) | star
        key = (id(fun.node), fun.env.key if fun.env else None,
               tuple(sorted(((k, tuple(sorted(v, key=repr)))
                             for k, v in bound.items()), key=repr)))
        if key in self.memo_seen:
            return self.memo.get(key, EMPTY)
        self.memo_seen.add(key)
        self.used.add(fun.qual)
        env = Env(fun.env, fun)
        env.key = key[:1] + (key[2],)
        # defaults
        if isinstance(fun.node, ast.Lambda):
            body = None
        else:
            body = fun.node.body
        self.active.append(fun)
        try:
            for n in names + [x.arg for x in a.kwonlyargs]:
                self.assign_name(env, n, bound.get(n, EMPTY))
            for x in (a.vararg, a.kwarg):
                if x:
                    l = ('L', (fun.module.name, fun.node.lineno,
                               fun.node.col_offset, x.arg))
                    self.cadd(l, bound.get(x.arg, EMPTY))
                    self.assign_name(env, x.arg, frozenset([l]))
            if body is None:
                r = self.ev(fun.node.body, env)
            else:
                self.block(body, env)
                r = env.ret
        finally:
            self.active.pop()
        o = self.memo.get(key)
        n = r if o is None else o | r
        if n != o:
            self.memo[key] = n
            if o is not None or n:
                self.changed = True
        return n

    # -- variables -------------------------------------------------------
    def assign_name(self, env, n, v):
        env.vars[n] = v
        env.ever[n] = env.ever.get(n, EMPTY) | v

    def lookup_name(self, env, n):
        if n in env.vars:
            return env.vars[n]
        e = env.parent
        while e is not None:
            if n in e.ever:
                return e.ever[n]
            e = e.parent
        m = self.cur.module
        if n in m.classes or n in self.prog.classes and (
                n in m.imports):
            return frozenset([('cls', n)])
        if n in m.funcs:
            return frozenset([('gfn', m.name, n)])
        if n in m.imports:
            d = m.imports[n].lstrip('.')
            mod, _, name = d.rpartition('.')
            if mod in self.prog.mods and name in self.prog.mods[mod].funcs:
                return frozenset([('gfn', mod, name)])
            if name in self.prog.classes and m.imports[n].startswith('.'):
                return frozenset([('cls', name)])
        return EMPTY

    # -- statements ------------------------------------------------------
    def block(self, stmts, env):
        """returns True if the end of the block is not reached"""
        for s in stmts:
            if self.stmt(s, env):
                return True
        return False

    def fork(self, env):
        return dict(env.vars)

    def join(self, env, states):
        states = [s for s in states if s is not None]
        if not states:
            return
        out = {}
        for s in states:
            for k, v in s.items():
                out[k] = out.get(k, EMPTY) | v
        env.vars = out

    def stmt(self, s, env):
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, env)
        elif t is ast.Assign:
            v = self.ev(s.value, env)
            for x in s.targets:
                self.assign(x, v, env, s.value)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
        elif t is ast.AugAssign:
            v = self.ev(s.value, env)
            o = self.ev(s.target, env)
            for a in o:
                if a[0] == 'L':
                    self.cadd(a, self.elems(v))
            self.assign(s.target, o | v, env, None, aug=True)
        elif t is ast.Return:
            if s.value is not None:
                env.ret = env.ret | self.ev(s.value, env)
            return True
        elif t is ast.Raise:
            if s.exc is not None:
                self.ev(s.exc, env)
            return True
        elif t in (ast.Break, ast.Continue):
            if env.loops:
                env.loops[-1].append(self.fork(env))
            return True
        elif t is ast.If:
            self.ev(s.test, env)
            s0 = self.fork(env)
            self.narrow(s.test, True, env)
            d1 = self.block(s.body, env)
            s1 = None if d1 else self.fork(env)
            env.vars = s0
            self.narrow(s.test, False, env)
            d2 = self.block(s.orelse, env)
            s2 = None if d2 else self.fork(env)
            if d1 and d2:
                return True
            self.join(env, [s1, s2])
        elif t in (ast.For, ast.AsyncFor, ast.While):
            return self.loop(s, env)
        elif t is ast.Try:
            s0 = self.fork(env)
            d = self.block(s.body, env)
            end = [None if d else self.fork(env)]
            mid = {k: v for k, v in env.ever.items() if k in env.vars or
                   k in s0}
            if not d and s.orelse:
                d = self.block(s.orelse, env)
                end = [None if d else self.fork(env)]
            for h in s.handlers:
                env.vars = dict(s0)
                for k, v in mid.items():
                    env.vars[k] = env.vars.get(k, EMPTY) | v
                if h.name:
                    self.assign_name(env, h.name, EMPTY)
                d = self.block(h.body, env)
                end.append(None if d else self.fork(env))
            live = [x for x in end if x is not None]
            self.join(env, live or [s0])
            d = self.block(s.finalbody, env)
            return d or not live
        elif t is ast.With:
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.block(s.body, env)
        elif t is ast.FunctionDef:
            self.assign_name(env, s.name, self.closure(s, env))
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Subscript):
                    o = self.ev(x.value, env)
                    self.change(o, '__delitem__', s)
                elif isinstance(x, ast.Attribute):
                    o = self.ev(x.value, env)
                    self.effect('rebind', o, x.attr, s)
        elif t is ast.Assert:
            self.ev(s.test, env)
        elif t is ast.Match:
            self.ev(s.subject, env)
            s0 = self.fork(env)
            out = [s0]
            for c in s.cases:
                env.vars = dict(s0)
                if not self.block(c.body, env):
                    out.append(self.fork(env))
            self.join(env, out)
        return False

    def closure(self, node, env):
        key = id(node)
        f = self.cur
        kid = (key, env.key)
        self.funs[kid] = Fun(node, f.module, f.cls, env,
                             f.qual + '.' + getattr(node, 'name', 'lambda'))
        return frozenset([('fn', kid)])

    def loop(self, s, env):
        for i in range(12):
            before = self.fork(env)
            if isinstance(s, ast.While):
                self.ev(s.test, env)
            else:
                it = self.ev(s.iter, env)
                self.assign(s.target, self.iterate(s.iter, it, env), env,
                            None)
            env.loops.append([])
            d = self.block(s.body, env)
            outs = env.loops.pop()
            if not d:
                outs.append(self.fork(env))
            self.join(env, [before] + outs)
            if env.vars == before:
                break
        return self.block(s.orelse, env) and False

    def iterate(self, expr, v, env):
        return self.elems(v)

    env_loops = ()

    def assign(self, t, v, env, src, aug=False):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and \
                    len(src.elts) == len(t.elts):
                vs = [self.ev(x, env) for x in src.elts]
                for x, y, z in zip(t.elts, vs, src.elts):
                    self.assign(x, y, env, z)
                return
            e = self.elems(v)
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.mklist(t, e), env, None)
                else:
                    self.assign(x, e, env, None)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v, t, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.change(o, '__setitem__', t, [v])
            for a in o:
                if a[0] in ('L', 'dev', 'devf', 'obj'):
                    self.cadd(a, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)

    def is_tree(self, a):
        return a[0] in ('el', 'schema') or a[0] == 'op' and a[2] in (
            'tree', 'any', 'reply')

    def cls_of(self, a):
        if a[0] == 'dev':
            return self.devcls
        if a[0] == 'obj' or a[0] == 'op':
            return a[2] if a[2] in self.prog.classes else None
        return None

    def setattr(self, o, attr, v, node, env):
        for a in o:
            c = self.cls_of(a)
            if c:
                f = self.prog.lookup(c, attr, setter=True)
                if f is not None:
                    self.call_func(self.fun(f), [frozenset([a]), v], {})
                    continue
            if self.is_tree(a) and attr in ('text', 'tail', 'tag'):
                self.effect('tree', [a], attr, node)
            else:
                self.effect('rebind', [a], attr, node)
                if a[0] in ('obj', 'dev'):
                    self.hset(a, attr, v)
                elif a[0] == 'op':
                    self.hset(a, attr, v)

    def change(self, o, name, node, args=()):
        """a mutating method or item assignment on receiver o"""
        tree = [a for a in o if self.is_tree(a)]
        self.effect('tree', tree, name, node)
        if name in MOVE or name == '__setitem__':
            for v in args:
                mv = [a for a in v if self.is_tree(a)]
                cont = [a for a in v if a[0] == 'L']
                if name == 'extend':
                    mv += [b for a in cont for b in self.cget(a)
                           if self.is_tree(b)]
                if tree:
                    self.effect('moved', mv, name, node)
                    for a in tree:
                        # nodes put into a tree belong to it from now on
                        for b in mv:
                            self.joined(a, b)
        self.effect('cont', [a for a in o if a[0] in (
            'L', 'dev', 'devf', 'obj') or
                             a[0] == 'op' and not self.is_tree(a)],
                    name, node)

    def joined(self, a, b):
        if a != b:
            self.cadd(a, frozenset([b]))

    # -- narrowing by isinstance and None ----------------------------------
    def narrow(self, test, truth, env):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, not truth, env)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == truth:
                for v in test.values:
                    self.narrow(v, truth, env)
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) \
                and test.func.id == 'isinstance' and len(test.args) == 2 and \
                isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            cs = test.args[1].elts if isinstance(
                test.args[1], ast.Tuple) else [test.args[1]]
            names = [c.id for c in cs if isinstance(c, ast.Name) and
                     c.id in self.prog.classes]
            allknown = len(names) == len(cs)
            v = self.lookup_name(env, n)
            keep = set()
            for a in v:
                c = self.cls_of(a)
                if c is None:
                    known = self.is_tree(a) and a[2:] != ('any',)
                    if truth and known and allknown:
                        continue
                    keep.add(a)
                    continue
                sub = any(k.name in names for k in self.prog.mro(c))
                if truth and allknown and not sub:
                    continue
                if not truth and sub:
                    continue
                keep.add(a)
            env.vars[n] = frozenset(keep)
        elif isinstance(test, ast.Call) and \
                isinstance(test.func, ast.Attribute) and \
                test.func.attr == 'iselement' and test.args and \
                isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            v = self.lookup_name(env, n)
            env.vars[n] = frozenset(
                a for a in v if (self.cls_of(a) is None) == truth or
                a[2:] == ('any',))

    # -- expressions -----------------------------------------------------
    def ev(self, e, env):
        t = type(e)
        if t is ast.Constant:
            return EMPTY
        if t is ast.Name:
            return self.lookup_name(env, e.id)
        if t is ast.Attribute:
            return self.attr(e, env)
        if t is ast.Call:
            return self.call(e, env)
        if t is ast.Subscript:
            o = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                return self.mklist(e, self.elems(o))
            return self.elems(o)
        if t is ast.BoolOp:
            out = EMPTY
            saved = self.fork(env)
            for v in e.values:
                out = out | self.ev(v, env)
                self.narrow(v, isinstance(e.op, ast.And), env)
            env.vars = saved
            return out
        if t is ast.IfExp:
            self.ev(e.test, env)
            s0 = self.fork(env)
            self.narrow(e.test, True, env)
            a = self.ev(e.body, env)
            env.vars = dict(s0)
            self.narrow(e.test, False, env)
            b = self.ev(e.orelse, env)
            env.vars = s0
            return a | b
        if t is ast.BinOp:
            l = self.ev(e.left, env)
            r = self.ev(e.right, env)
            return self.binop(e, l, r)
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.USub):
                return self.dunder('__neg__', v, [], e)
            if isinstance(e.op, ast.Not):
                self.dunder('__bool__', v, [], e)
            return EMPTY
        if t is ast.Compare:
            vs = [self.ev(e.left, env)] + [self.ev(x, env)
                                           for x in e.comparators]
            D = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__',
                 ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
            for op, l, r in zip(e.ops, vs, vs[1:]):
                if type(op) in D:
                    self.dunder(D[type(op)], l, [r], e)
            return EMPTY
        if t in (ast.List, ast.Tuple, ast.Set):
            out = EMPTY
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x,
                            env)
                out = out | (self.elems(v) if isinstance(x, ast.Starred)
                             else v)
            return self.mklist(e, out)
        if t is ast.Dict:
            out = EMPTY
            for k, v in zip(e.keys, e.values):
                if k is not None:
                    out = out | self.ev(k, env)
                    out = out | self.ev(v, env)
                else:
                    out = out | self.elems(self.ev(v, env))
            return self.mklist(e, out)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            saved = self.fork(env)
            for g in e.generators:
                it = self.ev(g.iter, env)
                self.assign(g.target, self.iterate(g.iter, it, env), env,
                            None)
                for c in g.ifs:
                    self.ev(c, env)
                    self.narrow(c, True, env)
            if t is ast.DictComp:
                v = self.ev(e.key, env) | self.ev(e.value, env)
            else:
                v = self.ev(e.elt, env)
            env.vars = saved
            return self.mklist(e, v)
        if t is ast.Lambda:
            return self.closure(e, env)
        if t is ast.NamedExpr:
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, None)
            return v
        if t in (ast.Yield, ast.YieldFrom):
            if e.value is not None:
                v = self.ev(e.value, env)
                if t is ast.YieldFrom:
                    v = self.elems(v)
                l = ('L', (self.cur.module.name, self.cur.node.lineno,
                           'yield'))
                self.cadd(l, v)
                env.ret = env.ret | frozenset([l])
            return EMPTY
        if t is ast.Starred:
            return self.elems(self.ev(e.value, env))
        if t is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value, env)
            return EMPTY
        if t is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return EMPTY
        return EMPTY

    def dunder(self, name, v, args, node):
        out = EMPTY
        for a in v:
            c = self.cls_of(a)
            if c:
                f = self.prog.lookup(c, name)
                if f is not None:
                    out = out | self.call_func(self.fun(f),
                                               [frozenset([a])] + args, {})
        return out

    def binop(self, e, l, r):
        D = {ast.Add: '__add__', ast.Sub: '__sub__', ast.BitAnd: '__and__',
             ast.BitOr: '__or__'}
        n = D.get(type(e.op))
        out = EMPTY
        if n:
            out = self.dunder(n, l, [r], e)
            if n == '__add__':
                out = out | self.dunder('__radd__', r, [l], e)
        lists = [a for a in l | r if a[0] == 'L' or self.is_tree(a)]
        if lists and any(a[0] == 'L' for a in lists):
            out = out | self.mklist(e, self.elems(l | r))
        return out

    def attr(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr, e, env)

    def getattr(self, o, attr, node, env):
        out = set()
        for a in o:
            k = a[0]
            c = self.cls_of(a)
            if c:
                if attr == '__class__':
                    out.add(('cls', c))
                    continue
                f = self.prog.lookup(c, attr)
                if f is not None and f.kind == 'prop':
                    out |= self.call_func(self.fun(f), [frozenset([a])], {})
                    continue
                if f is not None:
                    out.add(('bm', f.qual, a))
                    continue
            if k == 'dev':
                if attr in ('tree', 'dependencies'):
                    out.add(('schema',))
                    continue
                out |= self.hget(a, attr)
                out.add(('devf', attr))
            elif k == 'devf':
                if attr in ('tree', 'dependencies'):
                    out.add(('schema',))
                elif attr not in STR_ATTR:
                    out.add(a)
            elif k == 'obj':
                h = self.hget(a, attr)
                out |= h
            elif k == 'op':
                h = self.heap.get((a, attr))
                if h is not None:
                    out |= h
                if self.is_tree(a):
                    if attr in STR_ATTR:
                        continue
                    out.add(a)
                elif c in self.prog.classes:
                    out |= self.opfield(a, attr)
            elif k in ('schema', 'el'):
                if attr not in STR_ATTR:
                    out.add(a)
            elif k == 'L':
                out.add(a)
        return frozenset(out)

    def opfield(self, a, attr):
        """field of an operand object"""
        if attr == 'device':
            return frozenset([('dev',)])
        if attr in ('ele', 'nc', '_ele', 'etree1', 'etree2', 'reply',
                    '_root', 'delta'):
            return frozenset([('op', a[1], 'tree')])
        if attr in ('config_src', 'config_dst', 'config1', 'config2'):
            return frozenset([('op', a[1] + '.' + attr, 'Config')])
        if attr in ('parser',):
            return EMPTY
        return EMPTY

    def call(self, e, env):
        args = []
        star = EMPTY
        for x in e.args:
            if isinstance(x, ast.Starred):
                star = star | self.elems(self.ev(x.value, env))
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star = star | self.elems(v)
            else:
                kw[k.arg] = v
        f = e.func
        if isinstance(f, ast.Name):
            v = self.lookup_name(env, f.id)
            if v:
                return self.call_values(v, args, kw, e, star, env)
            return self.builtin(f.id, args, kw, e, env)
        if isinstance(f, ast.Attribute):
            # super().m(...)
            if isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == 'super' and self.cur.cls is not None:
                names = [x.arg for x in self.cur.node.args.args]
                me = self.lookup_name(env, names[0]) if names else EMPTY
                for c in self.prog.mro(self.cur.cls.name)[1:]:
                    if f.attr in c.methods:
                        return self.call_func(self.fun(c.methods[f.attr]),
                                              [me] + args, kw, e, star)
                return EMPTY
            if isinstance(f.value, ast.Name) and f.value.id in (
                    'etree', 'copy') and not self.lookup_name(
                        env, f.value.id):
                return self.builtin(f.attr, args, kw, e, env)
            o = self.ev(f.value, env)
            return self.method(o, f.attr, args, kw, e, star, env)
        v = self.ev(f, env)
        return self.call_values(v, args, kw, e, star, env)

    def call_values(self, v, args, kw, e, star, env):
        out = EMPTY
        for a in v:
            if a[0] == 'fn':
                out = out | self.call_func(self.funs[a[1]], args, kw, e, star)
            elif a[0] == 'gfn':
                out = out | self.call_func(
                    self.fun(self.prog.mods[a[1]].funcs[a[2]]), args, kw, e,
                    star)
            elif a[0] == 'bm':
                f = self.byqual(a[1])
                first = [] if f.kind == 'static' else [frozenset([a[2]])]
                out = out | self.call_func(self.fun(f), first + args, kw, e,
                                           star)
            elif a[0] == 'cls':
                out = out | self.construct(a[1], args, kw, e, star)
        return out

    def byqual(self, q):
        if not hasattr(self, '_bq'):
            self._bq = {f.qual: f for f in self.prog.functions()}
        return self._bq[q]

    def construct(self, cname, args, kw, e, star=EMPTY):
        a = self.new('obj', e, cname)
        f = self.prog.lookup(cname, '__init__')
        if f is not None:
            self.call_func(self.fun(f), [frozenset([a])] + args, kw, e, star)
        return frozenset([a])

    def builtin(self, n, args, kw, e, env):
        allv = EMPTY
        for v in args:
            allv = allv | v
        for v in kw.values():
            allv = allv | v
        if n in ('deepcopy', 'copy'):
            out = set()
            for a in allv:
                if self.is_tree(a):
                    out.add(self.new('el', e))
                elif a[0] in ('L',):
                    l = self.new('L', e)
                    if n == 'copy':
                        self.cadd(l, self.cget(a))
                    elif any(self.is_tree(b) for b in self.cget(a)):
                        self.cadd(l, frozenset([self.new('el', e)]))
                    out.add(l)
                elif a[0] in ('obj', 'op'):
                    c = self.cls_of(a)
                    if c is None:
                        out.add(self.new('el', e))
                        continue
                    b = self.new('obj', e, c)
                    out.add(b)
                    if n == 'copy':
                        for (x, k), v in list(self.heap.items()):
                            if x == a:
                                self.hset(b, k, v)
                        if a[0] == 'op':
                            for k in ('ele', 'device', 'config_src',
                                      'config_dst'):
                                self.hset(b, k, self.opfield(a, k))
                    else:
                        self.hset(b, 'ele', frozenset([self.new('el', e)]))
                        self.hset(b, 'device', frozenset([('dev',)]))
            return frozenset(out)
        if n == 'type' and args:
            return frozenset(('cls', self.cls_of(a)) for a in args[0]
                             if self.cls_of(a))
        if n in ('Element', 'XML', 'fromstring', 'parse', 'ElementTree',
                 'Comment'):
            return frozenset([self.new('el', e)])
        if n == 'SubElement':
            p = args[0] if args else EMPTY
            self.change(p, 'SubElement', e)
            return p
        if n in ETREE_MUT:
            if args:
                self.change(args[0], n, e)
            return EMPTY
        if n == 'setattr' and len(args) == 3:
            nm = e.args[1].value if isinstance(e.args[1], ast.Constant) \
                else '?'
            self.setattr(args[0], nm, args[2], e, env)
            return EMPTY
        if n == 'getattr' and args:
            if isinstance(e.args[1], ast.Constant):
                return self.getattr(args[0], e.args[1].value, e, env)
            out = args[0]
            for a in args[0]:
                c = self.cls_of(a)
                if c:
                    # any method of the object
                    for k in self.prog.mro(c):
                        for m in k.methods.values():
                            if m.kind == 'method' and \
                                    m.name.startswith('_') and \
                                    not m.name.startswith('__') or \
                                    m.name.startswith('node_') or \
                                    m.name.startswith('_node'):
                                out = out | frozenset([('bm', m.qual, a)])
            return out
        if n in ('map', 'filter') and args:
            it = self.elems(args[1]) if len(args) > 1 else EMPTY
            r = self.call_values(args[0], [it], {}, e, EMPTY, env)
            return self.mklist(e, r if n == 'map' else it)
        if n in ('sorted', 'min', 'max') and 'key' in kw:
            self.call_values(kw['key'], [self.elems(args[0])] if args
                             else [], {}, e, EMPTY, env)
        if n in ('next', 'min', 'max'):
            return self.elems(allv)
        if n in ('enumerate', 'zip'):
            inner = ('L', (self.cur.module.name, e.lineno, e.col_offset,
                           'pair'))
            self.cadd(inner, self.elems(allv))
            return self.mklist(e, frozenset([inner]))
        if n in PASS:
            return self.mklist(e, self.elems(allv))
        return EMPTY

    def method(self, o, name, args, kw, e, star, env):
        out = set()
        allv = EMPTY
        for v in args:
            allv = allv | v
        for v in kw.values():
            allv = allv | v
        for a in o:
            k = a[0]
            if k == 'cls':
                f = self.prog.lookup(a[1], name)
                if f is not None:
                    first = [frozenset([a])] if f.kind == 'classm' else []
                    out |= self.call_func(self.fun(f), first + args, kw, e,
                                          star)
                continue
            c = self.cls_of(a)
            f = self.prog.lookup(c, name) if c else None
            if f is not None and f.kind != 'prop':
                first = [] if f.kind == 'static' else [frozenset([a])]
                out |= self.call_func(self.fun(f), first + args, kw, e, star)
                continue
            if f is not None:
                r = self.call_func(self.fun(f), [frozenset([a])], {}, e)
                out |= self.call_values(r, args, kw, e, star, env)
                continue
            if k == 'obj':
                h = self.hget(a, name)
                if h:
                    out |= self.call_values(h, args, kw, e, star, env)
                    if any(x[0] in ('fn', 'cls', 'bm', 'gfn') for x in h):
                        continue
                if name in CMUT:
                    self.effect('cont', [a], name, e)
                    self.cadd(a, allv)
                continue
            if k in ('fn', 'gfn', 'bm'):
                continue
            if self.is_tree(a):
                one = frozenset([a])
                if name in MUT or name in CMUT and name not in NAV or \
                        name in ('pop', 'popitem'):
                    if name in ('append', 'insert', 'extend', 'addnext',
                                'addprevious', 'replace', 'remove', 'set',
                                'clear', 'pop', 'popitem', 'update',
                                'setdefault', 'sort', 'reverse'):
                        self.change(one, name, e, args)
                    continue
                if name in STR_METH:
                    continue
                if name in NAV:
                    out.add(a)
                    out |= self.cget(a)
                    continue
                # unknown method of an unknown thing
                out.add(a)
            elif k == 'L':
                if name in CMUT:
                    self.effect('cont', [a], name, e)
                    if name in ('extend', 'update', 'difference_update'):
                        self.cadd(a, self.elems(allv))
                    else:
                        self.cadd(a, allv)
                    if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                        out |= self.cget(a)
                elif name in ('get', 'values', 'items', '__getitem__',
                              'keys', 'copy', 'union', 'intersection',
                              'difference'):
                    if name in ('get', '__getitem__'):
                        out |= self.cget(a) | allv
                    elif name == 'items':
                        inner = ('L', (self.cur.module.name, e.lineno,
                                       e.col_offset, 'pair'))
                        self.cadd(inner, self.cget(a))
                        out |= self.mklist(e, frozenset([inner]))
                    else:
                        out |= self.mklist(e, self.cget(a) |
                                           self.elems(allv))
                elif name in ('index', 'count', 'join'):
                    pass
            elif k in ('dev', 'devf'):
                if name in CMUT:
                    self.effect('cont', [a], name, e)
                    self.cadd(a, allv)
                elif name in ('get', 'values', 'pop', 'keys', 'items',
                              'findall', 'iter', 'find', 'copy'):
                    v = self.elems(frozenset([a]))
                    if name == 'items':
                        inner = ('L', (self.cur.module.name, e.lineno,
                                       e.col_offset, 'pair'))
                        self.cadd(inner, v)
                        out |= self.mklist(e, frozenset([inner]))
                    else:
                        out |= v
                else:
                    out.add(a)
            elif k == 'op':
                pass
        if not o:
            # receiver without atoms: a string, number or something external
            if name in ('format', 'join') or True:
                pass
        return frozenset(out)
