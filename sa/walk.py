"""Decision-table queries over functions that walk the children of one node
(validation, default trimming, filtering, schema building ...)."""
from .engine import Engine
from .query import *
from .pairs import describe, DEV, GSN, removes
from .terms import C, NONE, contains, show, subterms


def is_children(recv, node):
    """recv enumerates all children of node."""
    while recv[0] in ('reversed', 'sorted', 'setof', 'elemiter', 'enum'):
        recv = recv[1]
    r, node = noep(recv), noep(node)
    if r == node or r == ('children', node, 0):
        return True
    if r[0] == 'cont' and len(r[2]) == 1:
        v, k, g, m = r[2][0]
        return not g and v[0] == 'each' and is_children(v[1], node)
    return False


class WalkFn(object):
    def __init__(self, ck, prog, fn, node_param, opaque, child=None, **kw):
        self.ck = ck
        self.fn = fn
        run = kw.pop('run', {})
        self.eng = Engine(prog, opaque=opaque, **kw)
        self.paths = self.eng.run(fn, **run)
        ck.used(self.eng)
        params = [a.arg for a in fn.node.args.args]
        self.node = ('p', params[node_param]) if isinstance(node_param, int) \
            else node_param
        self.x = child
        self.all = distinct_loops(self.paths)
        if self.x is None:
            for l in self.all:
                if is_children(l.recv, self.node):
                    r = l.recv
                    while r[0] in ('reversed', 'sorted', 'setof',
                                   'elemiter', 'enum'):
                        r = r[1]
                    if r[0] == 'cont':
                        self.x = r[2][0][0]
                    else:
                        self.x = ('each', r, 0)
                    break
        if self.x is None:
            raise Undecided('%s: no loop over the children of %s' % (
                fn.qual, show(self.node)))
        self.s = ('prim', GSN, (DEV, self.x))
        self.loops = [l for l in self.all if contains(l.recv, self.x) or
                      contains(self.x, l.recv) or
                      is_children(l.recv, self.node)]

        self.deferred = any(
            l.recv[0] == 'cont' and any(self.direct(b) for b in l.bodies)
            for l in self.loops)

    def sget(self, name):
        return ('get', self.s, C(name))

    def cell(self, type=None, extra=(), **kw):
        c = [(isnone(self.s), False)]
        if type is not None:
            c.append((eq(self.sget('type'), type), True))
        for k, v in kw.items():
            t = self.sget(k.replace('_', '-') if k != 'is_key' else k)
            if v is None:
                c.append((isnone(t), True))
            elif v is True:
                c.append((('truthy', t), True))
                c.append((isnone(t), False))
            elif v is False:
                c.append((('truthy', t), False))
                c.append((eq(t, 'true'), False))
            elif isinstance(v, str) and v.startswith('!'):
                c.append((eq(t, v[1:]), False))
            else:
                c.append((eq(t, v), True))
        return c + list(extra)

    def groups(self, cell, exact=False):
        for l in self.loops:
            if exact and l.recv[0] == 'cont' and \
                    not is_children(l.recv, self.node):
                continue
            bs = bodies(l, cell)
            if bs:
                yield l, bs

    def every(self, key, what, cell, pred):
        """some loop satisfies pred on each iteration the cell allows"""
        wit = None
        n = 0
        for l, bs in self.groups(cell):
            n += 1
            bad = [b for b in bs if not pred(b)]
            if not bad and l.exh is not False:
                return self.ck.ok('%s: %s' % (self.fn.qual, what))
            if not bad:
                continue
            if wit is None or len(bad) < len(bs):
                wit = bad[0]
        if n == 0 or wit is None or murky(wit):
            return self.ck.open('%s: %s' % (self.fn.qual, what))
        self._fail(key, what, wit)

    def never(self, key, what, cell, pred):
        for l, bs in self.groups(cell, True):
            for b in bs:
                if pred(b):
                    return self._fail(key, what, b)
        self.ck.ok('%s: %s' % (self.fn.qual, what))

    def _fail(self, key, what, w):
        self.ck.fail(key, '%s %s: expected: %s. Offending path: when %s -> %s'
                     % (self.fn.qual, self.fn.loc, what, facts_text(w),
                        describe(w)))

    def removed(self, b, deep=True):
        """the child is removed on the path, or put on a list of children
        that are removed afterwards"""
        if self.direct(b, deep):
            return True
        return self.deferred and any(
            not e.many and same(e.val, self.x)
            for es in b.st.cont.values() for e in es)

    def direct(self, b, deep=True):
        for e in events(b, deep):
            if e.kind == 'mut' and e.name == 'remove' and e.args and \
                    same(e.args[0], self.x):
                return True
        return False


class Undecided(Exception):
    pass


def rec_fn(prog, cls, hint, entry=None):
    """The recursive worker behind a public method: the hinted one, or the
    only method of the class the entry reaches that calls itself."""
    import ast
    f = prog.lookup(cls, hint)
    if f is not None:
        return f
    ent = prog.lookup(cls, entry) if entry else None
    if ent is None:
        raise Undecided('%s.%s is gone' % (cls, hint))
    seen, todo, out = set(), [ent], []
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                h = prog.lookup(cls, n.func.attr)
                if h is None:
                    continue
                if h.qual == g.qual:
                    out.append(g)
                todo.append(h)
    if len(out) != 1:
        raise Undecided('no recursive worker behind %s.%s' % (cls, entry))
    return out[0]
