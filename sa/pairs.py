"""Decision-table queries over functions that walk the paired children of two
nodes (node_add, node_sub, get_config_replace, _node_le)."""
from .engine import Engine
from .load import AnalysisBroken
from .query import *
from .terms import C, NONE, TRUE, FALSE, contains, show, subterms

DEV = ('attr', ('p', 'self'), 'device')
GSN = 'manager.ModelDevice.get_schema_node'


class PairFn(object):
    def __init__(self, ck, prog, cls, name, opaque, **kw):
        self.ck = ck
        self.fn = prog.method(cls, name)
        self.name = name
        self.eng = Engine(prog, opaque=opaque, **kw)
        self.paths = self.eng.run(self.fn)
        ck.used(self.eng)
        params = [a.arg for a in self.fn.node.args.args]
        if len(params) < 3:
            raise AnalysisBroken('%s no longer takes two nodes' %
                                 self.fn.qual)
        self.n1, self.n2 = ('p', params[1]), ('p', params[2])
        pc = None
        for p in self.paths:
            for e in events(p):
                if e.kind == 'call' and e.name == '_pair_children':
                    pc = e
                    break
            if pc:
                break
        if pc is None:
            raise AnalysisBroken('%s no longer pairs children with '
                                 '_pair_children' % self.fn.qual)
        self.pc = pc.res
        a = pc.args
        if tuple(a) == (self.n1, self.n2):
            i = (0, 1)
        elif tuple(a) == (self.n2, self.n1):
            i = (1, 0)
        else:
            raise AnalysisBroken('%s pairs children of %s' % (
                self.fn.qual, [show(x) for x in a]))
        e = ('each', self.pc, 0)
        self.S = ('item', e, C(i[0]))
        self.O = ('item', e, C(i[1]))
        self.sS = ('prim', GSN, (DEV, self.S))
        self.sO = ('prim', GSN, (DEV, self.O))

    # -- cells -----------------------------------------------------------
    def cell(self, s=True, o=True, type=None, order=None, presence=None,
             key=None, op='any', insert='any', extra=(), case=None):
        S, O = self.S, self.O
        c = [(isnone(S), not s), (isnone(O), not o)]
        for n, has in ((self.n1, s), (self.n2, o)):
            if has:
                for t in (('children', n, 0), n):
                    c.append((('truthy', t), True))
        c.append((('truthy', self.pc), True))
        for sch, has in ((self.sS, s), (self.sO, o)):
            if not has:
                continue
            c.append((isnone(sch), False))
            if type is not None:
                c.append((eq(('get', sch, C('type')), type), True))
            if order is not None:
                t = ('get', sch, C('ordered-by'))
                c.append((eq(t, 'user'), order == 'user'))
                if order != 'user':
                    c.append((('truthy', t), False))
            if presence is not None:
                t = ('get', sch, C('presence'))
                c.append((eq(t, 'true'), presence))
                if not presence:
                    c.append((('truthy', t), False))
            if key is not None:
                t = ('get', sch, C('is_key'))
                c.append((('truthy', t), key))
            if case is not None:
                c.append((eq(('get', ('parent', sch), C('type')), 'case'),
                          case))
        if s and o:
            c.append((('eq',) + tuple(sorted(
                (('tag', S), ('tag', O)), key=repr)), True))
        for k, v in ((OP, op), (INSERT, insert)):
            t = ('get', O, k)
            if v == 'any':
                continue
            if v is None:
                c.append((isnone(t), True))
            elif v == 'unknown':
                for x in (None, 'merge', 'replace', 'create', 'delete',
                          'remove', 'none'):
                    c.append((eq(t, x), False))
                c.append((('truthy', t), True))
            else:
                c.append((eq(t, v), True))
        return c + list(extra)

    def consistent(self, p, cell):
        if not consistent(p, cell):
            return False
        known = dict(cell)
        for atom, val in list(p.facts.atoms.items()):
            if atom[0] == 'truthy' and val is False:
                t = atom[1]
                if self._holds_pair(t, cell):
                    return False
        for t, (lo, hi) in p.facts.rng.items():
            if hi == 0 and self._holds_pair(t, cell):
                return False
        return True

    def _holds_pair(self, t, cell):
        if t == self.pc:
            return True
        if t[0] == 'cont':
            from .terms import Facts
            for v, k, g, m in t[2]:
                if not contains(v, self.pc) and not contains(g, self.pc):
                    continue
                f = Facts()
                for a, b in cell:
                    f.assume(a, b)
                if all(f.test(a) is b for a, b in g):
                    return True
        return False

    def tops(self, cell):
        out = []
        for p in self.paths:
            if p.kind == 'return' and all(e.exh for e in loops(p)) and \
                    self.consistent(p, cell):
                out.append(p)
        return out

    def groups(self, cell):
        """[(top path, [bodies of loop 1], [bodies of loop 2], ...)]"""
        for t in self.tops(cell):
            gs = []
            for l in loops(t):
                if not (contains(l.recv, self.pc)):
                    continue
                bs = [b for b in list(l.bodies) + list(l.exits)
                      if self.consistent(b, cell)]
                if bs:
                    gs.append((l, bs))
            yield t, gs

    def every(self, cell, pred, allow_top=None):
        """pred holds on every consistent iteration of at least one loop.
        pred may be a pair (always, pred): always holds on every consistent
        iteration of every loop.  Returns (True/False/None, witness)."""
        n = 0
        if isinstance(pred, tuple):
            always, pred = pred
            for t, gs in self.groups(cell):
                for l, bs in gs:
                    for b in bs:
                        if not always(b):
                            return (None if murky(b) else False), b
        for t, gs in self.groups(cell):
            if allow_top is not None and allow_top(t):
                continue
            n += 1
            good = False
            wit = None
            for l, bs in gs:
                bad = [b for b in bs if not pred(b)]
                if not bad:
                    good = True
                    break
                if wit is None or len(bad) < len(bs):
                    wit = bad[0]
            if not good:
                if wit is not None and murky(wit):
                    return None, wit
                return False, wit or t
        if n == 0:
            # nothing but raising iterations: look at all paths
            return None, None
        return True, None

    def never(self, cell, pred):
        for t, gs in self.groups(cell):
            for l, bs in gs:
                for b in bs:
                    if pred(b):
                        return False, b
        return True, None

    def check_every(self, key, what, cell, pred, allow_top=None):
        r, w = self.every(cell, pred, allow_top)
        self._report(key, what, r, w)

    def check_never(self, key, what, cell, pred):
        r, w = self.never(cell, pred)
        self._report(key, what, r, w)

    def _report(self, key, what, r, w):
        if r is None:
            self.ck.open('%s: %s' % (self.fn.qual, what))
        elif r:
            self.ck.ok('%s: %s' % (self.fn.qual, what))
        else:
            self.ck.fail(key, '%s %s: expected: %s. Offending path: when %s '
                         '-> %s' % (self.fn.qual, self.fn.loc, what,
                                    facts_text(w) if w else '(no path)',
                                    describe(w)))

    # -- effects ---------------------------------------------------------
    def raises(self, *classes):
        return lambda b: b.kind == 'raise' and (b.exc.cls in classes)


def describe(p):
    if p is None:
        return 'nothing'
    ev = [e for e in p.events if e.kind in ('mut', 'attrset', 'attrdel',
                                            'loop') or
          e.kind == 'call' and e.fn is not None]
    tail = '; '.join('%s at %s' % (_short(e), e.loc) for e in ev[-5:])
    if p.kind == 'raise':
        return (tail + '; ' if tail else '') + 'raises %s at %s' % (
            p.exc.cls, p.exc.loc)
    return tail or 'no effect'


def _short(e):
    if e.kind == 'loop':
        return 'loop'
    return '%s(%s)' % (e.name or e.kind, ', '.join(
        show(a)[:80] for a in ((e.recv,) if e.recv else ()) + e.args))


# -- effect predicates ---------------------------------------------------
def removes(e, parents, node):
    """e removes node from one of the parent terms."""
    if e.kind != 'mut' or e.name != 'remove' or not e.args:
        return False
    return e.args[0] == node and (parents is None or e.recv in parents or
                                  e.recv == ('parent', node))


def inserts(e):
    """(position info, element) if e puts an element into a tree."""
    if e.kind == 'mut' and e.name in ('append', 'addnext', 'addprevious'):
        return e.args[0] if e.args else None
    if e.kind == 'mut' and e.name == 'insert' and len(e.args) == 2:
        return e.args[1]
    return None


def inserted(b, deep=False):
    out = []
    for e in (events(b) if deep else b.events):
        x = inserts(e) if e.kind == 'mut' else None
        if x is not None:
            out.append((e, x))
    return out


STROPS = {'split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip',
          'rstrip', 'lower', 'upper', 'replace', 'title', 'capitalize',
          'casefold', 'removeprefix', 'removesuffix', 'zfill', 'ljust',
          'rjust', 'swapcase', 'sub', 'encode', 'splitlines'}


def altered_text(t):
    """The text of an element, but changed by a string operation."""
    for s in subterms(t):
        if not isinstance(s, tuple) or len(s) < 2:
            continue
        if s[0] == 'slice' or s[0] == 'call' and s[1] in STROPS or \
                s[0] == 'str' and len(s[1]) > 1:
            if s[0] == 'call':
                args = s[2] if len(s) > 2 and isinstance(s[2], tuple) else ()
                args = args[:1]
            else:
                args = (s[1],)
            if any(isinstance(x, tuple) and x and x[0] == 'text'
                   for a in args for x in subterms(a)):
                return True
    return False


def text_from(b, dst, src):
    """dst's text is set from src's text on the path."""
    for e in events(b):
        if e.kind == 'call' and e.name == '_merge_text' and \
                tuple(e.args[:2]) == (src, dst):
            return True
        if e.kind == 'mut' and e.name == 'set_text' and e.recv == dst and \
                contains(e.args[0], ('text', src)) and \
                not altered_text(e.args[0]):
            return True
    return False


def strips(b, x):
    """Every edit-config attribute of x and its descendants is removed."""
    for e in b.events:
        if e.kind == 'loop' and e.recv[0] == 'desc' and \
                same(e.recv[1], x) and len(e.recv) == 4 and \
                e.recv[2] in (NONE, C('*')) and e.exh:
            el = None
            ok = bool(e.bodies) and not e.exits
            for body in e.bodies:
                if not _strips_one(body, e.recv):
                    ok = False
            if ok:
                return True
        if e.kind == 'call' and e.name and \
                e.name.split('.')[-1] == 'strip_attributes' and e.args and \
                same(e.args[0], x):
            rest = set(e.args[1:])
            if C('*') in rest or set(EDIT_ATTRS) <= rest:
                return True
    return False


def _strips_one(body, desc):
    el = ('each', desc, 0)
    els = [el]
    gone = set()
    for e in body.events:
        if e.kind == 'attrclear' and same(e.recv, el):
            return True
        if e.kind == 'attrdel' and same(e.recv, el):
            gone.add(e.args[0])
        if e.kind == 'mut' and e.name == 'clear':
            continue
        if e.kind == 'loop' and e.recv[0] in ('attrs', 'attritems') and \
                same(e.recv[1], el) and e.exh:
            at = ('each', e.recv, 0)
            good = True
            for bb in e.bodies:
                dels = [x for x in bb.events if x.kind == 'attrdel' and
                        same(x.recv, el) and
                        x.args[0] in (at, ('item', at, C(0)))]
                if dels:
                    continue
                # skipped: fine only for attributes that are none of the four
                name = at
                if any(consistent(bb, [(eq(n, a), True)])
                       for a in EDIT_ATTRS
                       for n in (at, ('item', at, C(0)))
                       if n in set(subterms(tuple(f for f, v in
                                                  bb.newfacts)))) or \
                        not bb.newfacts:
                    good = False
                elif not any(contains(f, at) for f, v in bb.newfacts):
                    good = False
            if good and e.bodies:
                return True
            if good and not e.bodies:
                return False
        if e.kind == 'loop' and e.recv[0] in ('tup', 'cont'):
            pass
    # explicit deletion (guarded by presence) of the four
    for a in EDIT_ATTRS:
        v = body.st.eattr.get((el, a))
        if a in gone or v == NONE:
            continue
        if body.facts.test(isnone(('get', el, a))) is True:
            continue
        return False
    return True
