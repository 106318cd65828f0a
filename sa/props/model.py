"""Models: differences between two of them (C20), what compiling keeps (C19),
download and its interruption (C17), queue workers (C18)."""
import ast

from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..pairs import inserts
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show, subterms
from ..walk import is_children
from .calc import prims
from .device import SELF, heads

MD = 'ModelDiff.'
DIFF = C('diff')
LESS = {MD + 'node_less', MD + 'node_equal'}


def params(fn):
    a = [x.arg for x in fn.node.args.args]
    if fn.cls is not None and a and a[0] in ('self', 'cls'):
        a = a[1:]
    return [('p', x) for x in a]


def never(p):
    """a path that says a member of a list of elements is None"""
    return any(a[0] == 'eq' and v and NONE in a[1:] and any(
        x[0] == 'item' and x[1][0] in ('childtag', 'children')
        for x in a[1:]) for a, v in p.newfacts)


def live(paths):
    return [p for p in paths if not never(p)]


def nonempty(a):
    """the collection a fact says is not empty"""
    if a[0] == 'truthy' or a[0] == 'len>=' and a[2] == 1:
        return a[1]
    return None


def undo(t):
    while t[0] in ('reversed', 'sorted', 'setof', 'elemiter', 'enum'):
        t = t[1]
    return t


def child_of(loop, node):
    """the child a loop over the children of node is at"""
    if not is_children(loop.recv, node):
        return None
    r = undo(loop.recv)
    if r[0] == 'cont':
        return r[2][0][0]
    return ('each', r, 0)


def peer_facts(p, X, other):
    """(has other a child with the tag of X, terms that stand for it)"""
    has, terms = None, []
    for a, v in p.newfacts:
        for t in heads(a, 'childtag', 'find'):
            if noep(t[1]) == noep(other) and ('tag', X) in subterms(t):
                terms.append(('item', t, C(0)) if t[0] == 'childtag' else t)
        if a[0] == 'truthy' and a[1][0] == 'childtag' and \
                noep(a[1][1]) == noep(other) and contains(a[1], ('tag', X)):
            has = v
        elif a[0] == 'eq' and NONE in a[1:]:
            t = a[1] if a[2] == NONE else a[2]
            if t[0] == 'find' and noep(t[1]) == noep(other) and \
                    contains(t, ('tag', X)):
                has = not v
    return has, terms


def same_peer(t, X, other):
    t = noep(t)
    x = noep(('tag', X))
    o = noep(other)
    if t[0] == 'item' and t[1][0] == 'childtag':
        t = t[1]
    return t[0] in ('childtag', 'find') and t[1] == o and contains(t, x)


# ----------------------------------------------------------------------
# C20

def c20(ck, prog, tier):
    ck.part(_less, ck, prog)
    ck.part(_equal, ck, prog)
    ck.part(_init, ck, prog)
    ck.part(_compare, ck, prog)
    ck.part(_marks, ck, prog)
    ck.part(_trim, ck, prog)
    ck.part(_views, ck, prog)
    ck.part(_text, ck, prog)


def _less(ck, prog):
    """node_less(a, b): everything of a is in b"""
    fn = prog.method('ModelDiff', 'node_less')
    eng = Engine(prog, opaque={MD + 'node_less'})
    ps = eng.run(fn)
    ck.used(eng)
    a, b = params(fn)[:2]
    for p in live(ps):
        txt = facts_text(p, 4)
        if p.kind == 'raise':
            ck.req(any(f[0] == 'len>=' and v or
                       f[0] == 'eq' and contains(f, ('tag', a)) and not v
                       for f, v in p.newfacts) or None,
                   'less/raise', 'two nodes are compared without an error '
                   'unless tags are ambiguous', 'ModelDiff.node_less raises '
                   'when %s' % txt)
            continue
        val = p.value
        if val == FALSE:
            why = []
            for f, v in p.newfacts:
                if f[0] == 'eq' and not v:
                    x, y = f[1], f[2]
                    if {x, y} in ({('tag', a), ('tag', b)},
                                  {('text', a), ('text', b)}) or \
                            contains(x, a) and contains(y, b) or \
                            contains(x, b) and contains(y, a):
                        why.append('own')
                elif f[0] == 'eq' and v and NONE in f[1:]:
                    t = f[1] if f[2] == NONE else f[2]
                    if t[0] == 'get' and t[1] == b:
                        why.append('attribute')
                    elif t[0] == 'find':
                        why.append('child')
                elif f[0] == 'truthy' and not v and (
                        f[1][0] == 'childtag' or prims(f[1], 'node_less')):
                    why.append('child')
                elif f[0] in ('le', 'subset', 'in') and not v:
                    why.append('attribute')
                elif f[0] == 'truthy' and not v and contains(f[1], b):
                    why.append('other')
            ck.req(bool(why) or (None if p.newfacts and any(
                contains(f, b) for f, v in p.newfacts) else False),
                'less/false', 'a node is said to lack something only if '
                'something differs', 'ModelDiff.node_less is False when %s'
                % txt)
            continue
        if val[0] == 'prim' and val[1].endswith('node_less') and any(
                heads(x, 'each') for x in val[2]):
            ck.fail('less/first', 'ModelDiff.node_less looks at one child '
                    'only')
            continue
        if val != TRUE:
            ck.open('node_less returns %s' % show(val)[:80])
            continue
        ats = kids = None
        for f, v in p.newfacts:
            if f[0] == 'eq' and v and ('attrib', a) in subterms(f) and \
                    ('attrib', b) in subterms(f):
                ats = True
        for l in [e for e in p.events if e.kind == 'loop']:
            r = undo(l.recv)
            if r[0] in ('attrs', 'attrib', 'attritems', 'items') and \
                    contains(r, a):
                bs = live([q for q in l.bodies])
                good = l.exh and all(_attr_same(q, a, b) for q in bs)
                ats = ats or good
                if not good:
                    ck.fail('less/attributes', 'ModelDiff.node_less takes '
                            'nodes as equal although an attribute differs '
                            '(%s)' % l.loc)
            x = child_of(l, a)
            if x is not None:
                bs = live(l.bodies)
                good = l.exh and all(_kid_in(q, x, b) for q in bs)
                kids = kids or good
                if not good:
                    ck.fail('less/children', 'ModelDiff.node_less takes '
                            'nodes as equal although a child differs (%s)' %
                            l.loc)
        leafy = [(f, v) for f, v in p.newfacts]
        for got, what in ((ats, 'attributes'), (kids, 'children')):
            ck.req(got if got else (False if got is None and not any(
                contains(f, a) and f[0] != 'eq' for f, v in leafy)
                else None), 'less/%s' % what, 'nodes are equal only if all '
                '%s of one are those of the other' % what,
                'ModelDiff.node_less is True without looking at %s' % what)


def _attr_same(q, a, b):
    for f, v in q.newfacts:
        if f[0] == 'eq' and v and NONE not in f[1:]:
            x, y = f[1], f[2]
            if contains(x, a) and contains(y, b) or \
                    contains(x, b) and contains(y, a):
                return True
    return q.kind not in ('next',)


def _kid_in(q, x, b):
    if q.kind != 'next':
        return True
    for f, v in q.newfacts:
        if f[0] == 'truthy' and v:
            for c in prims(f[1], 'node_less'):
                if c[2][-2] == x and same_peer(c[2][-1], x, b):
                    return True
    return False


def _equal(ck, prog):
    fn = prog.method('ModelDiff', 'node_equal')
    eng = Engine(prog, opaque={MD + 'node_less'})
    ps = eng.run(fn)
    ck.used(eng)
    a, b = params(fn)[:2]
    for p in ps:
        if p.kind != 'return':
            ck.open('node_equal raises')
            continue
        res = {}
        for f, v in p.newfacts:
            if f[0] == 'truthy':
                for c in prims(f[1], 'node_less'):
                    res[tuple(c[2][-2:])] = v
        val = p.value
        if val[0] == 'prim' and val[1].endswith('node_less'):
            val = None
            ck.req(res.get(tuple(p.value[2][-2:][::-1])) is True,
                   'equal/both', 'nodes are equal if each has all the other '
                   'has', 'ModelDiff.node_equal looks in one direction only')
            continue
        if val == TRUE:
            ck.req(res.get((a, b)) and res.get((b, a)) or
                   (False if res else None), 'equal/both', 'nodes are equal '
                   'if each has all the other has', 'ModelDiff.node_equal is '
                   'True when %s' % facts_text(p))
        elif val == FALSE:
            ck.req(False in res.values() or (None if not res and p.newfacts
                                             else False), 'equal/false',
                   'nodes differ only if one lacks something of the other',
                   'ModelDiff.node_equal is False when %s' % facts_text(p))
        else:
            ck.open('node_equal returns %s' % show(val)[:80])


def _init(ck, prog):
    fn = prog.method('ModelDiff', '__init__')
    eng = Engine(prog, opaque={MD + 'compare_nodes'})
    ps = eng.run(fn)
    ck.used(eng)
    m1, m2 = params(fn)[:2]
    t1, t2 = ('attr', m1, 'tree'), ('attr', m2, 'tree')
    for p in ps:
        diffname = [v for f, v in p.newfacts if f[0] == 'eq' and
                    heads(f, 'tag') and len(heads(f, 'tag')) == 2 or
                    f[0] == 'eq' and contains(f, ('attr', m1, 'name')) and
                    contains(f, ('attr', m2, 'name'))]
        same_ = [v for f, v in p.newfacts if f[0] in ('eq', 'is') and
                 contains(f, m1) and contains(f, m2) and v and
                 not heads(f, 'tag') and not heads(f, 'attr')]
        if p.kind == 'raise':
            ck.req(p.exc.cls == 'ValueError' and diffname[:1] == [False],
                   'init/raise', 'diffs of different modules are refused',
                   'ModelDiff: raises %s when %s' % (p.exc.cls,
                                                     facts_text(p)))
            continue
        if diffname[:1] == [False]:
            ck.fail('init/names', 'ModelDiff compares different modules')
            continue
        for e in p.events:
            if e.kind == 'setattr' and e.recv == SELF and e.name in (
                    'model1', 'model2'):
                ck.req(e.args[0] == (m1 if e.name == 'model1' else m2),
                       'init/' + e.name, 'the models are kept in their order',
                       'ModelDiff.%s is %s' % (e.name, show(e.args[0])))
        tree = [e.args[0] for e in p.events if e.kind == 'setattr' and
                e.recv == SELF and e.name == 'tree']
        calls = [e for e in p.events if e.kind == 'call' and
                 e.name == 'compare_nodes']
        if not calls:
            ck.req(bool(same_) or False, 'init/compare', 'two models are '
                   'compared', 'ModelDiff does not compare the models when '
                   '%s' % facts_text(p))
            continue
        if len(tree) != 1:
            ck.open('ModelDiff.tree')
            continue
        ck.req(tuple(calls[0].args[-3:]) == (t1, t2, tree[0]) and
               len(calls) == 1, 'init/direction', 'the first model is '
               'compared with the second', 'ModelDiff compares %s' % ', '.join(
                   show(x) for x in calls[0].args[-3:]))
    fn = prog.method('ModelDiff', '__bool__')
    eng = Engine(prog)
    T = ('attr', SELF, 'tree')
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            ck.fail('bool', 'bool(ModelDiff) raises')
            continue
        f = [v for a, v in p.newfacts if nonempty(a) and
             contains(nonempty(a), T)]
        if not f and p.newfacts and not all(
                a[0] == 'len>=' for a, v in p.newfacts):
            ck.open('bool(ModelDiff): %s' % facts_text(p))
            continue
        if p.value in (TRUE, FALSE) and f:
            ck.req(p.value == C(f[-1]), 'bool', 'a diff is true if it has '
                   'nodes', 'bool(ModelDiff) is %s when %s' % (
                       show(p.value), facts_text(p)))
        elif p.value in (TRUE, FALSE):
            ck.fail('bool', 'bool(ModelDiff) is %s when %s' % (
                show(p.value), facts_text(p)))
        else:
            ck.open('bool(ModelDiff): %s' % show(p.value)[:60])


def marks(p, v):
    """the value of attribute 'diff' the path gives the element and, unless
    it is new, its descendants"""
    out = []
    for e in p.events:
        if e.kind == 'call' and e.name == 'process_attrib' and e.args and \
                e.args[-2] == v:
            out.append(e.args[-1])
        elif e.kind == 'attrset' and e.recv == v and e.args[0] == DIFF:
            out.append(('own', e.args[1]))
        elif e.kind == 'loop' and undo(e.recv)[0] == 'desc' and \
                undo(e.recv)[1] == v and e.bodies:
            x = ('each', e.recv, 0)
            vals = set()
            for b in e.bodies:
                s = [y.args[1] for y in b.events if y.kind == 'attrset' and
                     y.recv == x and y.args[0] == DIFF]
                vals.add(s[0] if s else None)
            if len(vals) == 1 and None not in vals:
                out.append(vals.pop())
    return out


def added(p, ret):
    """elements put into ret, and what they stand for"""
    out = []
    for e in p.events:
        if e.kind != 'mut' or e.recv != ret:
            continue
        x = inserts(e)
        if x is None:
            out.append((None, None))
            continue
        if x[0] == 'prim' and x[1].endswith('process_attrib'):
            x = x[2][-2]
        out.append((x, e))
    return out


def _compare(ck, prog):
    fn = prog.method('ModelDiff', 'compare_nodes')
    eng = Engine(prog, opaque=LESS | {MD + 'process_attrib',
                                      MD + 'compare_nodes'})
    ps = eng.run(fn)
    ck.used(eng)
    a, b, ret = params(fn)[:3]
    seen = {'new': 0, 'old': 0}
    for p in live(ps):
        if p.kind == 'raise':
            ck.req(any(f[0] == 'len>=' and v for f, v in p.newfacts) or None,
                   'compare/raise', 'nodes are compared unless tags are '
                   'ambiguous', 'ModelDiff.compare_nodes raises when %s' %
                   facts_text(p, 4))
            continue
        got = {'new': False, 'old': False}
        for l in [e for e in p.events if e.kind == 'loop']:
            x = child_of(l, b)
            if x is not None:
                if _side(ck, l, x, a, b, ret, 'added', True):
                    got['new'] = True
            x = child_of(l, a)
            if x is not None:
                if _side(ck, l, x, b, a, ret, 'deleted', False):
                    got['old'] = True
        ls = [e for e in p.events if e.kind == 'loop']
        for k, w in (('new', 'second'), ('old', 'first')):
            ck.req(got[k] or (False if not ls or all(
                is_children(l.recv, a) or is_children(l.recv, b)
                for l in ls) else None), 'compare/%s' % k, 'all children of '
                'the %s node are looked at' % w, 'ModelDiff.compare_nodes '
                'does not report what is in the %s node only (when %s)' % (
                    w, facts_text(p)))


def equality(p, P, X):
    res = {}
    for f, v in p.newfacts:
        if f[0] == 'truthy':
            for c in prims(f[1], 'node_equal'):
                return v
            for c in prims(f[1], 'node_less'):
                res[tuple(noep(y) for y in c[2][-2:])] = v
    if False in res.values():
        return False
    if len(res) == 2:
        return True
    return None


def _side(ck, l, X, other, own, ret, word, full):
    """a loop over the children of own; True if it reports those that
    other does not have"""
    reports = False
    if not any(added(q, ret) for q in live(l.bodies)):
        return False
    for q in live(l.bodies) + live(l.exits):
        if q.kind == 'raise':
            continue
        txt = facts_text(q, 5)
        has, terms = peer_facts(q, X, other)
        ad = added(q, ret)
        if has is None and peer_facts(q, X, own)[0] is not None:
            ck.fail('compare/%s/where' % word, 'ModelDiff.compare_nodes looks '
                    'for the peer of a node in its own model')
            continue
        if has is None:
            ck.open('compare_nodes: %s' % txt[:120])
            reports = reports or bool(ad)
            continue
        if q.kind != 'next' and not ad:
            ck.fail('compare/early', 'ModelDiff.compare_nodes stops before '
                    'the last child when %s' % txt)
            continue
        if not has:
            ok = len(ad) == 1 and ad[0][0] is not None
            if not ok:
                ck.req(False if not ad else None, 'compare/%s' % word,
                       'a node in one model only is reported', 'ModelDiff.'
                       'compare_nodes does not report a node that is %s '
                       '(when %s)' % (word, txt))
                continue
            v = ad[0][0]
            reports = True
            if v == X:
                ck.fail('compare/moved', 'ModelDiff.compare_nodes moves a '
                        'node out of its model')
                continue
            whole = v[0] == 'copy' and v[2] == X
            ck.req(True if whole else (False if v[0] == 'elem' and not any(
                e.kind in ('loop', 'call') and e.name != 'process_attrib'
                for e in q.events) else None), 'compare/%s/whole' % word,
                'the whole subtree of a node that is %s is reported' % word,
                'ModelDiff.compare_nodes reports a node that is %s without '
                'its descendants' % word)
            m = marks(q, v)
            ck.req(len(m) == 1 and m[0] == C(word) if m and all(
                is_c(y) for y in m) else (False if not m or m[0][0] == 'own'
                                          else None),
                   'compare/%s/mark' % word, 'nodes in one model only are '
                   'marked %r' % word, 'ModelDiff.compare_nodes marks a node '
                   'that is %s with %s' % (word, [show(y) if y[0] != 'own'
                                                  else 'itself only'
                                                  for y in m]))
            continue
        # in both models
        if not full:
            ck.req(not ad or None if not ad else False, 'compare/both',
                   'a node in both models is reported once', 'ModelDiff.'
                   'compare_nodes reports a node of both models as %s' % word)
            continue
        eqv = equality(q, terms, X)
        if eqv:
            ck.req(not ad, 'compare/equal', 'equal nodes are not reported',
                   'ModelDiff.compare_nodes reports a node that is equal in '
                   'both models')
            continue
        if eqv is None:
            ck.req(None if q.newfacts else False, 'compare/equality',
                   'equal nodes are told from others')
            continue
        _changed(ck, q, X, own, other, ret, ad, txt)
    return reports


def _changed(ck, q, X, own, other, ret, ad, txt):
    ty = ('get', X, C('type'))
    leaf = any(q.test(('eq', ty, C(t))) for t in ('leaf', 'leaf-list'))
    if len(ad) != 1 or ad[0][0] is None:
        ck.req(False if not ad else None, 'compare/changed', 'a node that '
               'differs is reported', 'ModelDiff.compare_nodes does not '
               'report a node that differs (when %s)' % txt)
        return
    v = ad[0][0]
    if v[0] == 'copy' and not leaf:
        ck.req(None, 'compare/changed/one', 'a node that differs is reported '
               'without the children that do not')
        return
    if v == X or same_peer(v, X, other):
        ck.fail('compare/moved', 'ModelDiff.compare_nodes moves a node out '
                'of its model')
        return
    m = [y[1] if y[0] == 'own' else y for y in marks(q, v)]
    m = [y for y in m if y != C('')]
    same_attr = None
    for f, w in q.newfacts:
        if f[0] == 'eq' and ('attrib', X) in subterms(f) and len(
                heads(f, 'attrib')) >= 2:
            same_attr = w
    word = [y for y in m]
    if leaf:
        ck.req(word == [C('modified')] if all(is_c(y) for y in word) else
               None, 'compare/leaf', 'a leaf that differs is marked '
               '"modified"', 'ModelDiff.compare_nodes marks a leaf that '
               'differs with %s' % [show(y) for y in word])
        return
    if same_attr is None:
        ck.req(False if not any(contains(f, ('attrib', X)) or contains(
            f, ('attrs', X)) or f[0] == 'eq' and ('get', X) == f[1][:2] and
            f[1][2] != C('type') for f, w in q.newfacts) and all(
                is_c(y) for y in word) else None, 'compare/own',
            'a change of the node itself is told from one below',
            'ModelDiff.compare_nodes marks a node other than a leaf with %s '
            'whether or not its own definition differs' % (
                [show(y) for y in word] or 'nothing'))
    else:
        want = [] if same_attr else [C('modified')]
        ck.req(word == want if all(is_c(y) for y in word) else None,
               'compare/own', 'a node is marked "modified" if its own '
               'definition differs', 'ModelDiff.compare_nodes marks a node '
               'whose own definition %s with %s' % (
                   'is the same' if same_attr else 'differs',
                   [show(y) for y in word]))
    rec = [e for e in q.events if e.kind == 'call' and
           e.name == 'compare_nodes']
    if len(rec) != 1:
        ck.req(False if not rec else None, 'compare/below', 'differences '
               'below a node are reported', 'ModelDiff.compare_nodes does '
               'not look below a node that differs (when %s)' % txt)
        return
    g = rec[0].args[-3:]
    ck.req(same_peer(g[0], X, other) and g[1] == X and g[2] == v if
           {True} & {same_peer(y, X, other) for y in g} and X in g else None,
           'compare/below/order', 'the children of both nodes are compared '
           'and reported below the node', 'ModelDiff.compare_nodes compares '
           '%s below a node' % ', '.join(show(y) for y in g))


def _marks(ck, prog):
    if not prog.has('ModelDiff', 'process_attrib') if hasattr(
            prog, 'has') else False:
        return
    fn = prog.method('ModelDiff', 'process_attrib')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    el, msg = params(fn)[:2]
    for p in ps:
        if p.kind != 'return':
            ck.fail('marks/raise', 'process_attrib raises')
            continue
        if p.test(('truthy', msg)) is False:
            continue
        ck.req(p.value == el, 'marks/value', 'the marked subtree is returned',
               'process_attrib returns %s' % show(p.value))
        ls = [e for e in p.events if e.kind == 'loop' and
              undo(e.recv)[0] == 'desc' and undo(e.recv)[1] == el]
        ok = False
        for l in ls:
            d = undo(l.recv)
            if d[2] not in (None, NONE) and 'Element' not in str(d[2]):
                ck.fail('marks/some', 'process_attrib marks only some '
                        'descendants')
                continue
            x = ('each', l.recv, 0)
            hit = [b for b in bodies(l, [(('truthy', msg), True)])]
            ok = ok or bool(hit) and all(any(
                e.kind == 'attrset' and e.recv == x and e.args[0] == DIFF and
                e.args[1] == msg for e in b.events) for b in hit)
            for b in l.bodies:
                for e in b.events:
                    if e.kind == 'attrset' and e.recv == x and \
                            e.args[0] == DIFF:
                        ck.req(e.args[1] == msg and b.test(
                            ('truthy', msg)) is not False, 'marks/msg',
                            'nodes get the mark asked for', 'process_attrib '
                            'marks nodes with %s' % show(e.args[1]))
                _kept(ck, b, x)
        ck.req(ok or (False if not ls or all(
            not e.bodies or not any(y.kind in ('call', 'attrset')
                                    for b in e.bodies for y in b.events)
            for e in ls) else None if not ls else False), 'marks/all',
            'every node of a marked subtree is marked', 'process_attrib does '
            'not mark every node of a subtree')


SHOWN = ('type', 'access', 'mandatory', 'key')


def _kept(ck, b, x):
    def dels(q, at=None):
        for e in q.events:
            if e.kind == 'loop':
                for y in e.bodies:
                    for z in dels(y):
                        yield z
            elif e.kind == 'attrdel' and e.recv == x:
                yield q, e.args[0]
    for q, name in dels(b):
        for s in SHOWN:
            if name == C(s) or not is_c(name) and consistent(
                    q, [(('eq', name, C(s)), True)]):
                ck.fail('marks/lost', 'process_attrib removes attribute %r '
                        'of a reported node' % s)


def _trim(ck, prog):
    fn = prog.method('ModelDiff', 'trim')
    eng = Engine(prog, opaque={MD + 'trim'})
    ps = eng.run(fn)
    ck.used(eng)
    par, msg = params(fn)[:2]
    found = False
    for p in ps:
        if p.kind != 'return':
            ck.fail('trim/raise', 'ModelDiff.trim raises when %s' %
                    facts_text(p))
            continue
        f = [v for a, v in p.newfacts if nonempty(a) and
             is_children(nonempty(a), par)]
        if not f and p.value in (TRUE, FALSE) and any(
                a[0] == 'len>=' and is_children(a[1], par)
                for a, v in p.newfacts):
            ck.fail('trim/empty', 'ModelDiff.trim is %s when %s' % (
                show(p.value), facts_text(p)))
            continue
        if p.value in (TRUE, FALSE) and f:
            ck.req(p.value == C(not f[-1]), 'trim/empty', 'trim is True if '
                   'nothing is left', 'ModelDiff.trim is %s when %s' % (
                       show(p.value), facts_text(p)))
        else:
            ck.open('trim returns %s' % show(p.value)[:60])
        for l in [e for e in p.events if e.kind == 'loop']:
            x = child_of(l, par)
            if x is None:
                continue
            found = True
            rm = any(e.kind == 'mut' and e.name == 'remove' and
                     e.args and e.args[0] == x
                     for b in l.bodies for e in b.events)
            r = undo(l.recv)
            ck.req(not (rm and r == par), 'trim/live', 'children are not '
                   'removed from what is being walked', 'ModelDiff.trim '
                   'skips a sibling after each removal')
            for b in list(l.bodies) + list(l.exits):
                _trim_one(ck, b, x, par, msg)
    if not found:
        ck.open('trim: children')


def _trim_one(ck, b, x, par, msg):
    D = ('get', x, DIFF)
    txt = facts_text(b, 5)
    own = b.test(('eq', D, msg))
    gone = any(e.kind == 'mut' and e.name == 'remove' and e.args and
               e.args[0] == x for e in b.events)
    rec = [e for e in b.events if e.kind == 'call' and e.name == 'trim']
    res = None
    for a, v in b.newfacts:
        if a[0] == 'truthy' and prims(a[1], 'trim'):
            res = v
    unmark = any(e.kind in ('attrdel', 'attrset') and e.recv == x and
                 e.args[0] == DIFF for e in b.events)
    if b.kind not in ('next',):
        ck.fail('trim/early', 'ModelDiff.trim stops at a child when %s' % txt)
        return
    for e in rec:
        ck.req(tuple(e.args[-2:]) == (x, msg), 'trim/what', 'the child is '
               'trimmed for the same kind', 'ModelDiff.trim: trim(%s)' %
               ', '.join(show(y) for y in e.args))
    if own is None and b.test(('truthy', D)) is False:
        own = False
    if own is None:
        ck.req(False if not any(contains(a, D) for a, v in b.newfacts) and
               not rec else None, 'trim/kind', 'kinds of difference '
               'are told apart', 'ModelDiff.trim %s a node whatever its mark '
               'when %s' % ('removes' if gone else 'keeps', txt))
        return
    if own:
        ck.req(not gone, 'trim/own', 'nodes of the kind asked for stay',
               'ModelDiff.trim removes a node of the kind asked for when %s'
               % txt)
        ck.req(not unmark, 'trim/own/mark', 'nodes of the kind asked for '
               'keep their mark', 'ModelDiff.trim unmarks a node of the kind '
               'asked for')
        ck.req(bool(rec) or None, 'trim/own/below', 'differences below are '
               'trimmed', 'ModelDiff.trim does not look below a node of the '
               'kind asked for')
        return
    if not rec:
        ck.req(False, 'trim/below', '', 'ModelDiff.trim %s without looking '
               'below it when %s' % ('removes a node' if gone else
                                     'keeps a node of another kind', txt))
        return
    if res is None:
        ck.open('trim: result of the recursion: %s' % txt[:100])
        return
    ck.req(gone == res, 'trim/other', 'nodes that do not lead to a '
           'difference of the kind asked for are removed, others stay',
           'ModelDiff.trim %s a node of another kind %s difference of the '
           'kind asked for' % ('removes' if gone else 'keeps',
                               'leading to no' if res else 'leading to a'))
    if not gone and not res:
        marked = b.test(('truthy', D))
        ck.req(unmark or marked is False or (False if marked is None else
                                             False), 'trim/unmark',
               'nodes of another kind lose their mark', 'ModelDiff.trim '
               'keeps the mark of a node of another kind')


def _views(ck, prog):
    T = ('attr', SELF, 'tree')
    for name in ('added', 'deleted', 'modified'):
        fn = prog.method('ModelDiff', name)
        eng = Engine(prog, opaque={MD + 'trim', 'Model.emit_tree',
                                   MD + 'emit_tree'})
        ps = eng.run(fn)
        ck.used(eng)
        for p in ps:
            if p.kind != 'return':
                ck.fail('view/%s/raise' % name, 'ModelDiff.%s raises' % name)
                continue
            tr = [e for e in p.events if e.kind == 'call' and
                  e.name == 'trim']
            if len(tr) != 1:
                ck.req(False if not tr and p.value[0] == 'prim' else None,
                       'view/%s/trim' % name, '%s has one kind of '
                       'difference' % name, 'ModelDiff.%s is not trimmed' %
                       name)
                continue
            t, m = tr[0].args[-2:]
            ck.req(m == C(name) if is_c(m) else None, 'view/%s/kind' % name,
                   '%s has nodes that are %s' % (name, name),
                   'ModelDiff.%s has differences of kind %s' % (
                       name, show(m)))
            ck.req(t[0] == 'copy' and t[2] == T if t[0] == 'copy' or t == T
                   else None, 'view/%s/copy' % name, 'the diff itself stays '
                   'as it is', 'ModelDiff.%s trims the diff itself' % name)
            res = None
            for a, v in p.newfacts:
                if a[0] == 'truthy' and prims(a[1], 'trim'):
                    res = v
            if res is None:
                ck.req(False if p.value[0] == 'prim' else None,
                       'view/%s/none' % name, '%s is None if there is none' %
                       name, 'ModelDiff.%s is a text even if no node is %s' %
                       (name, name))
            elif res:
                ck.req(p.value == NONE, 'view/%s/none' % name, '%s is None '
                       'if there is none' % name, 'ModelDiff.%s is %s if no '
                       'node is %s' % (name, show(p.value), name))
            else:
                ok = p.value[0] == 'prim' and p.value[1].endswith(
                    'emit_tree')
                ck.req(p.value[2][-1] == t if ok else (
                    False if p.value == NONE else None),
                    'view/%s/text' % name, '%s is the text of what is left' %
                    name, 'ModelDiff.%s is %s' % (name, show(p.value)))


SECTIONS = ('other', 'rpc', 'notification')
KINDS = ('container', 'leaf', 'rpc', 'notification')


def _eval(g, sub):
    """truth of a guard, terms replaced by constants"""
    def put(t):
        if t in sub:
            return sub[t]
        if isinstance(t, tuple):
            return tuple(put(x) if isinstance(x, tuple) else x for x in t)
        return t
    res = True
    for a, v in g:
        if a[0] == 'or':
            vals = [_eval(d, sub) for d in a[1]]
            r = True if True in vals else (None if None in vals else False)
        elif a[0] == 'eq':
            x, y = put(a[1]), put(a[2])
            r = (x == y) if is_c(x) and is_c(y) else None
        elif a[0] == 'in' and put(a[1]) in sub.values() and \
                a[2][0] == 'tup':
            r = put(a[1]) in a[2][1]
        else:
            r = None
        if r is not None and r != v:
            return False
        if r is None:
            res = None
    return res


def _text(ck, prog):
    for cls in ('Model', 'ModelDiff'):
        fn = prog.method(cls, 'emit_children')
        opq = {'Model.get_depth_str', 'Model.get_name_str',
               MD + 'get_name_str', MD + 'get_diff_str',
               'Model.get_datatype_str'}
        eng = Engine(prog, opaque=opq)
        ps = eng.run(fn)
        ck.used(eng)
        tree, ty = params(fn)[:2]
        for p in ps:
            if p.kind != 'return' or p.value[0] != 'list' or \
                    p.value[1] not in p.st.cont:
                ck.open('%s.emit_children' % cls)
                continue
            es = p.st.cont[p.value[1]]
            for sec in SECTIONS:
                for kind in KINDS:
                    _listed(ck, cls, es, tree, ty, sec, kind)
            if cls == 'ModelDiff':
                _difftext(ck, es)
    fn = prog.method('Model', 'emit_tree')
    eng = Engine(prog, opaque={'Model.emit_children'})
    ps = eng.run(fn)
    ck.used(eng)
    tree = params(fn)[0]
    for p in ps:
        if p.kind != 'return':
            ck.fail('text/raise', 'emit_tree raises')
            continue
        got = [c[2][-1] for c in prims(p.value, 'emit_children')]
        empty = {}
        for a, v in p.newfacts:
            for c in prims(a, 'emit_children'):
                if a[0] in ('truthy', 'len>='):
                    empty[c[2][-1]] = not v
        for sec in SECTIONS:
            s = C(sec)
            ck.req(s in got or empty.get(s) is True or (
                None if any(not is_c(x) for x in got) or not got else False),
                'text/section/' + sec, 'section %r is printed' % sec,
                'the text of a model lacks section %r (when %s)' % (
                    sec, facts_text(p)))
    if prog.method('ModelDiff', 'get_name_str'):
        fn = prog.method('ModelDiff', 'get_name_str')
        eng = Engine(prog, opaque={'Model.get_name_str'})
        ps = eng.run(fn)
        ck.used(eng)
        el = params(fn)[0]
        for p in ps:
            if p.kind != 'return':
                continue
            use = [x[2] for e in p.events if e.kind == 'call' and
                   e.name == 'get_name_str' and e.recv for x in
                   [e.recv] if x[0] == 'attr']
            for word, m in (('added', 'model2'), ('deleted', 'model1')):
                if consistent(p, [(('eq', ('get', el, DIFF), C(word)), True)]):
                    ck.req(use == [m] if use else None, 'text/name/' + word,
                           'nodes that are %s are named by their model' %
                           word, 'ModelDiff: names of nodes that are %s are '
                           'taken from %s' % (word, use))


def _listed(ck, cls, es, tree, ty, sec, kind):
    want = sec == kind if sec != 'other' else kind not in SECTIONS
    hits, und = 0, 0
    for e in es:
        names = prims(e.val, 'get_name_str')
        if not names:
            und += 1
            continue
        x = names[0][2][-1]
        root = None
        if x[0] == 'each' and undo(x[1])[0] == 'desc':
            root = undo(x[1])[1]
        if root is None or not contains(root, tree):
            und += 1
            continue
        r = _eval(e.guard, {('get', root, C('type')): C(kind), ty: C(sec)})
        if r is not False:
            hits += 1
    what = 'a %s node is %sin section %r' % (kind, '' if want else 'not ',
                                             sec)
    ck.req(None if und else (hits > 0) == want, 'text/%s/%s/%s' % (
        cls, sec, kind), what, '%s.emit_children: a top-level node of type '
        '%r is %sprinted in section %r' % (cls, kind, 'not ' if want else '',
                                           sec))


def _difftext(ck, es):
    for e in es:
        names = prims(e.val, 'get_name_str')
        if not names:
            continue
        x = names[0][2][-1]
        d = ('get', x, DIFF)
        g = {a: v for a, v in flatguard(e.guard)}
        none = g.get(('eq', d, NONE))
        if none is None and ('truthy', d) in g:
            none = not g[('truthy', d)]
        shown = bool(prims(e.val, 'get_diff_str')) or contains(e.val, d)
        if none is None:
            ck.req(shown or None if shown else False, 'text/mark', 'marks '
                   'are printed', 'ModelDiff: the text of a diff has no '
                   'marks')
        elif not none:
            ck.req(shown, 'text/mark', 'marks are printed', 'ModelDiff: the '
                   'mark of a node is not printed')


# ----------------------------------------------------------------------
# C19

MC = 'ModelCompiler.'
DEPICT = MC + 'depict_a_schema_node'
READWRAP = ('strip', 'str', 'join', 'split', 'norm')


def statements_of(t, of, names=('search_one', 'search')):
    """names of the substatements of `of` that the term talks about"""
    return {cv(x[2][1]) for x in subterms(t)
            if x and x[0] == 'call' and x[1] in names and len(x[2]) > 1 and
            x[2][0] == of and is_c(x[2][1])}


def so(x, name):
    return ('call', 'search_one', (x, C(name)))


def sall(x, name):
    return ('call', 'search', (x, C(name)))


def arg(x):
    return ('attr', x, 'arg')


def there(t, yes=True):
    return [(isnone(t), not yes), (('truthy', t), yes)]


def facts_with(path, cell):
    """the facts of the path in the situation of the cell, or None"""
    f = path.facts.clone()
    for atom, val in cell:
        r = f.test(atom)
        if r is None:
            if not f.assume(atom, val):
                return None
        elif r != val:
            return None
    return f


def attrs_set(path, node):
    """final value of every attribute the path sets on node; unknown names
    are under None"""
    out = {}
    for e in path.events:
        if e.kind == 'attrset' and e.recv == node:
            if is_c(e.args[0]):
                out[cv(e.args[0])] = e.args[1]
            else:
                out.setdefault(None, []).append(e)
        elif e.kind in ('attrdel', 'attrpop') and e.recv == node and \
                e.args and is_c(e.args[0]):
            out.pop(cv(e.args[0]), None)
    return out


def loosely(val, want):
    """want, give or take white space"""
    if val == want:
        return True
    if val[0] == 'str' and len(val) == 2 and isinstance(val[1], tuple) and \
            len(val[1]) == 1:
        return loosely(val[1][0], want)
    if val[0] == 'call' and val[1] in ('strip', 'split') and len(val[2]) == 1:
        return loosely(val[2][0], want)
    if val[0] == 'join' and val[1] == C(' '):
        return loosely(val[2], want)
    return False


def decided(val):
    """no part of the value is beyond the analysis"""
    return not any(x and x[0] in ('?', 'unk', 'phi', 'havoc')
                   for x in subterms(val))


class Table(object):
    """What attribute a function gives a node in each situation."""

    def __init__(self, ck, what, paths, get, of):
        self.ck, self.what, self.of = ck, what, of
        self.rows = {}
        self.paths, self.get = paths, get

    def project(self, name, keep):
        """paths told apart by what matters to one attribute"""
        if name not in self.rows:
            seen = {}
            for p in self.paths:
                fs = tuple((a, v) for a, v in p.newfacts if not (
                    statements_of(a, self.of) - keep))
                val = self.get(p).get(name)
                seen.setdefault((fs, val), p)
            self.rows[name] = [(fs, val, p) for (fs, val), p in seen.items()]
        return self.rows[name]

    def expect(self, name, cell, want, keep, text, accept=None):
        """In the situation of the cell the attribute has the value want
        (None: is not set)."""
        key = '%s/%s' % (self.what, name)
        hit, bad, unsure = 0, None, 0
        for fs, val, p in self.project(name, keep):
            f = p.facts.clone()
            g = None
            for atom, v in cell:
                r = f.test(atom)
                if r is None:
                    if not f.assume(atom, v):
                        break
                elif r != v:
                    break
            else:
                g = f
            if g is None:
                continue
            hit += 1
            if want is None:
                good = val is None
            elif val is None:
                good = False
            elif val == want or g.test(('eq', val, want)) or \
                    loosely(val, want) or accept and accept(val):
                good = True
            else:
                good = False if decided(val) else None
            if good is None:
                unsure += 1
            elif not good and bad is None:
                bad = '%s: attribute %r of the compiled schema node is %s ' \
                    'when %s; expected: %s' % (
                        self.what, name, 'not set' if val is None else
                        show(val)[:80], facts_text(p, 6) if len(fs) > 6
                        else ', '.join(('' if v else 'not ') +
                                       show(a)[:70] for a, v in fs), text)
        if hit:
            self.ck.req(False if bad else None if unsure else True, key,
                        text, bad)
        if not hit:
            self.ck.open('%s: no path for %s' % (key, text))


class Once(object):
    """Obligations met on many paths, counted once each."""

    def __init__(self, ck):
        self.ck, self.worst = ck, {}

    def req(self, cond, key, okmsg, text=None):
        k = (key, okmsg)
        rank = 2 if cond is not None and not cond else 1 if cond is None \
            else 0
        old = self.worst.get(k)
        if old is None or old[0] < rank:
            self.worst[k] = (rank, cond, text)

    def flush(self):
        for (key, okmsg), (rank, cond, text) in self.worst.items():
            self.ck.req(cond, key, okmsg, text)

    def __getattr__(self, name):
        return getattr(self.ck, name)


def once(fn):
    def run(ck, prog, *more):
        o = Once(ck)
        try:
            return fn(o, prog, *more)
        finally:
            o.flush()
    run.__name__ = fn.__name__
    return run


def c19(ck, prog, tier):
    ck.part(_c19_node, ck, prog)
    ck.part(_c19_access, ck, prog)
    ck.part(_c19_type, ck, prog)
    ck.part(_c19_derived, ck, prog)
    ck.part(_c19_values, ck, prog)
    ck.part(_c19_compile, ck, prog)
    ck.part(_c19_deps, ck, prog)
    ck.part(_c19_cache, ck, prog)
    ck.part(_c19_model, ck, prog)


KINDS = ['container', 'list', 'leaf', 'leaf-list', 'choice', 'case', 'rpc',
         'notification', 'input', 'output', 'anyxml', 'anydata', 'action']


@once
def _c19_node(ck, prog):
    fn = prog.method('ModelCompiler', 'depict_a_schema_node')
    eng = Engine(prog, opaque={DEPICT, MC + 'set_leaf_datatype_value',
                               MC + 'set_access'})
    ps = [p for p in eng.run(fn) if p.kind == 'return']
    ck.used(eng)
    if not ps:
        ck.open('depict_a_schema_node never returns')
        return
    module, parent, child, mode = params(fn)[:4]
    K = ('attr', child, 'keyword')
    made = {}
    for p in ps:
        new = [e for e in p.events if e.kind == 'newelem']
        put = [e for e in p.events if inserts(e) and e.recv == parent]
        if len(new) != 1 or not new[0].recv:
            ck.req(None if new else False, 'node/one',
                   'one schema node per statement', 'depict_a_schema_node '
                   'makes %d nodes for a statement' % len(new))
            return
        made[id(p)] = new[0].recv
        tag = new[0].args[-1] if new[0].name == 'Element' else \
            new[0].args[1]
        ns = any(x == ('attr', ('attr', child, 'i_module'), 'i_modulename')
                 for x in subterms(tag)) and any(
            x[0] == 'attr' and x[2] == 'module_namespaces'
            for x in subterms(tag))
        ck.req(ns and contains(tag, arg(child)) or
               (False if decided(tag) else None), 'node/tag',
               'nodes are named by the statement, in the namespace of the '
               'module that defines them', 'depict_a_schema_node: the tag of '
               'a schema node is %s' % show(tag)[:120])
        ck.req(len(put) == 1, 'node/parent', 'every schema node is below '
               'its parent', 'depict_a_schema_node adds a node %d times to '
               'its parent' % len(put))
    t = Table(ck, 'depict_a_schema_node', ps,
              lambda p: attrs_set(p, made[id(p)]), child)
    # the access is decided by a function of its own
    for p in ps:
        acc = [e for e in p.events if e.kind == 'call' and
               e.name == 'set_access']
        if acc:
            ck.req(acc[0].args == (child, made[id(p)], mode), 'node/access',
                   'access is set from statement and mode',
                   'set_access is called with %s' %
                   ', '.join(show(a)[:40] for a in acc[0].args))
        else:
            ck.req(None if 'access' in attrs_set(p, made[id(p)]) else False,
                   'node/access', 'access of every node is set',
                   'no access is set on a schema node (%s)' %
                   facts_text(p, 5))
    kw = {k: [(eq(K, k), True)] + [(eq(K, x), False) for x in KINDS
                                   if x != k] for k in KINDS}
    e = t.expect
    none = set()
    for k in KINDS:
        e('type', kw[k], C(k), none, 'type of a %s is its keyword' % k)
        own = so(child, 'status')
        keep = {'status'}
        for word in ('deprecated', 'obsolete'):
            e('status', kw[k] + there(own) + [(eq(arg(own), word), True)],
              arg(own), keep, 'a %s that is %s is marked' % (k, word))
        e('status', kw[k] + there(own) + [(eq(arg(own), 'current'), True)],
          None, keep, 'a %s that is current has no status' % k)
        e('status', kw[k] + there(own, False), None, keep,
          'a %s without status has none' % k)
        # defaults
        d = sall(child, 'default')
        keep = {'default'}
        e('default', kw[k] + there(d) + [(('len>=', d, 1), True)],
          ('default',), keep, 'a %s with a default has it' % k,
          lambda v: _joined(v, d) or loosely(v, arg(so(child, 'default'))) and
          k != 'leaf-list')
        e('default', kw[k] + [(isnone(d), False), (('truthy', d), False),
                              (('len>=', d, 1), False)] +
          there(so(child, 'default'), False), None, keep,
          'a %s without default has none' % k)
        # key, order
        own = so(child, 'key')
        keep = {'key'}
        e('key', kw[k] + there(own), arg(own) if k == 'list' else None, keep,
          'keys of a %s' % k)
        e('key', kw[k] + there(own, False), None, keep, 'no key in %s' % k)
        own = so(child, 'ordered-by')
        keep = {'ordered-by'}
        e('ordered-by', kw[k] + there(own) + [(eq(arg(own), 'user'), True)],
          C('user') if k in ('list', 'leaf-list') else None, keep,
          'a %s ordered by the user' % k)
        e('ordered-by', kw[k] + there(own) + [
            (eq(arg(own), 'system'), True)], None, keep,
          'a %s ordered by the system' % k)
        e('ordered-by', kw[k] + there(own, False), None, keep,
          'a %s without ordered-by' % k)
        own = so(child, 'presence')
        keep = {'presence'}
        e('presence', kw[k] + there(own),
          C('true') if k == 'container' else None, keep,
          'presence of a %s' % k)
        e('presence', kw[k] + there(own, False), None, keep,
          'a %s without presence' % k)
        # keys and mandatory
        own = so(child, 'mandatory')
        keep = {'mandatory'}
        key = ('hasattr', child, C('i_is_key'))
        leafy = k in ('leaf', 'leaf-list')
        for iskey in (True, False):
            say = 'a %s that is %sa key' % (k, '' if iskey else 'not ')
            if k == 'leaf' or not iskey:
                e('is_key', kw[k] + [(key, iskey)],
                  C('true') if iskey else None, none, say)
            if iskey and k != 'leaf':
                continue
            e('mandatory', kw[k] + [(key, iskey)] + there(own) +
              [(eq(arg(own), 'true'), True)],
              C('true') if leafy or k in ('choice', 'anyxml', 'anydata')
              else None, keep,
              say + ' and mandatory')
            e('mandatory', kw[k] + [(key, iskey)] + there(own) +
              [(eq(arg(own), 'false'), True)],
              C('true') if iskey else None, keep,
              say + ' and not mandatory')
            e('mandatory', kw[k] + [(key, iskey)] + there(own, False),
              C('true') if iskey else None, keep,
              say + ' without mandatory statement')
        # datatype
        for p in ps:
            if not consistent(p, kw[k]):
                continue
            dt = [x for x in p.events if x.kind == 'call' and
                  x.name == 'set_leaf_datatype_value']
            if not dt and any('datatype' == n for n in
                              attrs_set(p, made[id(p)])):
                ck.open('datatype of %s' % k)
                continue
            good = bool(dt) == leafy and all(
                x.args == (child, made[id(p)]) for x in dt)
            ck.req(good, 'node/datatype', 'leafs have a datatype, other '
                   'nodes have none', 'depict_a_schema_node: %s '
                   'set_leaf_datatype_value for a %s' % (
                       'calls' if dt else 'does not call', k))
    # descent
    H = ('hasattr', child, C('i_children'))
    for p in ps:
        f = {a: v for a, v in p.newfacts}
        has = f.get(H)
        ls = [x for x in p.events if x.kind == 'loop' and
              contains(x.recv, ('attr', child, 'i_children')) or
              x.kind == 'loop' and 'i_children' in show(x.recv)]
        if has is False or p.facts.test(
                ('truthy', ('attr', child, 'i_children'))) is False:
            continue
        if not ls:
            ck.req(None if murky(p) else False, 'node/descent',
                   'children of a statement become children of its node',
                   'depict_a_schema_node does not descend (%s)' %
                   facts_text(p, 6))
            continue
        rec = 0
        for l in ls:
            if undo(l.recv) != ('attr', child, 'i_children'):
                ck.req(None, 'node/descent', 'descent over %s' %
                       show(l.recv)[:60])
                rec = None
                break
            X = ('each', undo(l.recv), 0)
            for b in list(l.bodies) + list(l.exits):
                calls = [x for x in b.events if x.kind == 'call' and
                         x.name == 'depict_a_schema_node']
                if b.kind != 'next':
                    ck.req(b.kind == 'raise' or None if calls else False,
                           'node/descent/all', 'all children are visited',
                           'depict_a_schema_node stops early (%s)' % l.loc)
                    continue
                rec += len(calls)
                ck.req(len(calls) == 1, 'node/descent/each', 'each child '
                       'becomes one node', 'depict_a_schema_node: %d nodes '
                       'for a child when %s' % (len(calls),
                                                facts_text(b, 4)))
                for c in calls:
                    _descent(ck, b, c, made[id(p)], X, mode)
            ck.req(l.exh or None, 'node/descent/all', 'all children are '
                   'visited')
        if rec == 0:
            ck.fail('node/descent', 'depict_a_schema_node does not descend')


def _descent(ck, b, c, n, X, mode):
    args = list(c.args)
    want = {'module': None, 'parent': n, 'child': X}
    got = dict(zip(['module', 'parent', 'child', 'mode'], args))
    got.update({k: v for k, v in (c.kw or {}).items()})
    for k in ('parent', 'child'):
        ck.req(got.get(k) == want[k], 'node/descent/' + k,
               'children go below the node of their statement',
               'depict_a_schema_node: a child is depicted with %s=%s' % (
                   k, show(got[k])[:60] if got.get(k) else 'nothing'))
    m = got.get('mode', NONE)
    kx = ('attr', X, 'keyword')
    for word in ('input', 'output'):
        f = facts_with(b, [(eq(mode, 'rpc'), True), (eq(kx, word), True)])
        if f is not None:
            ck.req(m == kx or m == C(word) or bool(f.test(eq(m, word))),
                   'node/mode/' + word, 'nodes in %s of an rpc know that '
                   'they are' % word, 'depict_a_schema_node: mode for the '
                   '%s of an rpc is %s' % (word, show(m)[:60]))
    for mo in ('rpc', 'input', 'output', 'notification', None):
        f = facts_with(b, [(eq(mode, mo), True), (eq(kx, 'leaf'), True),
                           (eq(kx, 'input'), False),
                           (eq(kx, 'output'), False)])
        if f is not None:
            ck.req(m == mode or m == C(mo) or bool(f.test(eq(m, mo))),
                   'node/mode/inherit', 'children have the mode of their '
                   'parents', 'depict_a_schema_node: mode of a child is %s '
                   'instead of %s' % (show(m)[:60], mo))


def _joined(v, d):
    """all default values, joined by commas"""
    if v[0] != 'join' or not v[1] == C(','):
        return False
    return contains(v[2], ('each', d, 0)) and 'arg' in show(v[2]) and \
        _all_of(v[2], d)


def _all_of(t, d):
    """a collection built from every member of d, without a condition"""
    if t[0] == 'cont':
        return all(x[1] is None and not x[2] and x[3] for x in t[2])
    return t[0] in ('map', 'mapped', 'call')


def _c19_access(ck, prog):
    fn = prog.method('ModelCompiler', 'set_access')
    eng = Engine(prog)
    ps = [p for p in eng.run(fn) if p.kind != 'raise']
    ck.used(eng)
    st, node, mode = params(fn)[:3]
    K = ('attr', st, 'keyword')
    t = Table(ck, 'set_access', ps, lambda p: attrs_set(p, node), st)
    tail = ('eq', K, C(('tailf-common', 'action')))
    atoms = [t_ for p in ps for t_, v in p.newfacts if t_[0] == 'eq' and
             K in t_[1:] and 'tailf-common' in show(t_)]
    if atoms:
        tail = atoms[0]
    H = ('hasattr', st, C('i_config'))
    T = ('truthy', ('attr', st, 'i_config'))
    MODES = ('input', 'rpc', 'output', 'notification')

    def md(m):
        return [(eq(mode, m), True)] + [(eq(mode, x), False) for x in MODES
                                        if x != m]

    def kd(k):
        return [(tail, False), (eq(K, k), True)] + [
            (eq(K, x), False) for x in ('rpc', 'notification', 'leaf')
            if x != k]
    act = [(tail, True)] + [(eq(K, x), False)
                            for x in ('rpc', 'notification', 'leaf')]
    none = set()
    for cfg in ([(H, True), (T, True)], [(H, True), (T, False)],
                [(H, False), (T, False)]):
        for m in ('input', 'rpc'):
            t.expect('access', md(m) + kd('leaf') + cfg, C('write'), none,
                     'nodes in mode %s are write-only' % m)
        t.expect('access', md(None) + kd('rpc') + cfg, C('write'), none,
                 'rpcs are write-only')
        t.expect('access', md(None) + act + cfg, C('write'), none,
                 'tailf actions are write-only')
        for m in ('output', 'notification'):
            t.expect('access', md(m) + kd('leaf') + cfg, C('read-only'), none,
                     'nodes in mode %s are read-only' % m)
        t.expect('access', md(None) + kd('notification') + cfg,
                 C('read-only'), none, 'notifications are read-only')
        data = C('read-write' if cfg[1][1]
                 else 'read-only')
        t.expect('access', md(None) + kd('leaf') + cfg, data, none,
                 'config data is %s' % cv(data))


@once
def _c19_type(ck, prog):
    fn = prog.method('ModelCompiler', 'set_leaf_datatype_value')
    eng = Engine(prog, opaque={MC + 'type_values'})
    ps = [p for p in eng.run(fn) if p.kind != 'raise']
    ck.used(eng)
    st, node = params(fn)[:2]
    sm = so(st, 'type')
    t = Table(ck, 'set_leaf_datatype_value', ps,
              lambda p: attrs_set(p, node), st)
    keep = {'type'}
    a = arg(sm)
    TYPES = ('leafref', 'identityref', 'union', 'boolean', 'string')
    base = arg(so(sm, 'base'))
    path = so(sm, 'path')

    def td(k):
        return there(sm) + [(eq(a, k), True)] + [
            (eq(a, x), False) for x in TYPES if x != k]
    for k in ('union', 'boolean', 'string'):
        t.expect('datatype', td(k), a, keep, 'datatype of a %s leaf' % k)
    t.expect('datatype', td('identityref') + there(so(sm, 'base')), ('id',),
             keep, 'the datatype of an identityref names its base',
             lambda v: _parts(v) is not None and _parts(v)[-1] == base and
             _text_before(_parts(v), a) == 'identityref:')
    t.expect('datatype', td('leafref') + there(path), ('ref',), keep,
             'the datatype of a leafref is its path',
             lambda v: _parts(v) is not None and
             _parts(v)[0] == C('-> ') and 'path' in show(v))
    for p in ps:
        v = attrs_set(p, node).get('datatype')
        if not consistent(p, td('leafref') + there(path)) or v is None:
            continue
        for l in loops(p):
            if not contains(l.recv, arg(path)):
                continue
            seq = [x for x in subterms(v) if x and x[0] == 'cont']
            for b in l.bodies:
                if b.kind != 'next' or not seq:
                    continue
                ap = [x for x in seq[0][2] if all(
                    b.facts.test(f) == w for f, w in x[2]
                    if f[0] != 'or')]
                ck.req(bool(ap),
                       'type/leafref', 'every step of the path of a leafref '
                       'is kept', 'set_leaf_datatype_value: a step of the '
                       'path of a leafref is left out when %s' %
                       facts_text(b, 3))
    tv = None
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and e.name == 'type_values':
                tv = ('call', 'type_values', tuple(
                    ([e.recv] if e.recv else []) + list(e.args)))
                ck.req(e.args and e.args[-1] == sm, 'type/values',
                       'values are those of the type of the leaf',
                       'type_values gets %s' % show(e.args[-1])[:60])
    for p in ps:
        v = attrs_set(p, node).get('values')
        if v is None:
            if p.facts.test(isnone(sm)):
                continue
            known = [x for x in p.newfacts if x[0][0] in ('truthy', 'eq') and
                     'type_values' in show(x[0])]
            ck.req(bool(known) and not all(
                v2 and f[0] == 'truthy' for f, v2 in known) or False,
                'type/values', 'the values of a type are kept',
                'set_leaf_datatype_value: the values are not set when %s' %
                facts_text(p, 4))
        else:
            ck.req('type_values' in show(v) and not p.facts.test(isnone(sm))
                   or (False if decided(v) else None),
                   'type/values', 'the values of a type are kept',
                   'set_leaf_datatype_value: values are %s' % show(v)[:60])


@once
def _c19_derived(ck, prog):
    """The built-in type of a type derived by typedefs."""
    fn = prog.method('ModelCompiler', 'set_leaf_datatype_value')
    eng = Engine(prog, opaque={MC + 'type_values'})
    ps = [p for p in eng.run(fn) if p.kind != 'raise']
    ck.used(eng)
    st, node = params(fn)[:2]
    sm = so(st, 'type')
    chain = [sm]
    for _ in range(2):
        chain.append(so(('attr', chain[-1], 'i_typedef'), 'type'))
    NAMES = ('identityref', 'instance-identifier')
    for n in (1, 2):
        end = chain[n]
        fs = there(sm) + [(isnone(('attr', chain[i], 'i_typedef')), i == n)
                          for i in range(n + 1)]
        fs += [(x, False) for i in range(n) for x in (
            ('eq', chain[i], end), ('eq', end, chain[i]))]
        for k in NAMES:
            cell = fs + [(eq(arg(end), k), True)] + [
                (eq(arg(end), x), False) for x in NAMES if x != k]
            hit = [p for p in ps if consistent(p, cell)]
            if not hit:
                ck.open('no path where a leaf has a type derived from %s' % k)
            for p in hit:
                got = {a: v for a, v in attrs_set(p, node).items()
                       if a not in ('datatype', 'values', 'type')}
                good = any(v in (arg(end), C(k)) for v in got.values())
                what = 'set_leaf_datatype_value: the compiled model does ' \
                    'not tell that a type derived by %d typedef%s is an %s' \
                    % (n, 's' if n > 1 else '', k)
                if good:
                    ck.ok('a type derived by %d typedefs from %s is known '
                          'as such' % (n, k))
                elif not all(decided(v) for v in got.values()) or any(
                        e.kind == 'call' and sm in e.args and
                        e.name not in ('type_values', 'search_one')
                        for e in p.events):
                    ck.open(what)
                else:
                    ck.fail('type/derived', what)


def _parts(v):
    if v[0] == 'str' and isinstance(v[1], tuple):
        return list(v[1])
    return None


def _text_before(ps, a):
    out = ''
    for x in ps[:-1]:
        if is_c(x):
            out += str(cv(x))
        elif x == a:
            out += 'identityref'
        else:
            return None
    return out


@once
def _c19_values(ck, prog):
    fn = prog.method('ModelCompiler', 'type_values')
    eng = Engine(prog, opaque={MC + 'type_values', MC + 'type_union_values',
                               MC + 'type_identityref_values'})
    ps = eng.run(fn)
    ck.used(eng)
    ty = params(fn)[0]
    a = arg(ty)
    TD = ('attr', ty, 'i_typedef')
    DER = ('attr', ty, 'i_is_derived')
    TYPES = ('boolean', 'union', 'enumeration', 'identityref', 'string',
             'leafref')
    tdty = so(TD, 'type')

    def cases(k):
        return [(isnone(ty), False), (eq(a, k), True)] + [
            (eq(a, x), False) for x in TYPES if x != k]
    plain = [(isnone(TD), True), (('truthy', TD), False)]

    def say(key, cell, accept, text):
        hit = False
        for p in ps:
            if p.kind != 'return' or not consistent(p, cell):
                continue
            hit = True
            good = accept(p.value)
            ck.req(good if good else (False if decided(p.value) else None),
                   'values/' + key, text, 'type_values: %s, but it is %s '
                   'when %s' % (text, show(p.value)[:80], facts_text(p, 5)))
        if not hit:
            ck.open('type_values: no path for %s' % text)

    def calls(v, name, x):
        q = prims(v, name)
        return bool(q) and q[0] == v and q[0][2][-1] == x or \
            v[0] == 'call' and v[1] == name and v[2][-1] == x
    say('none', [(isnone(ty), True)], lambda v: v in (C(''), NONE),
        'no type has no values')
    say('boolean', cases('boolean') + plain,
        lambda v: v == C('true|false'), 'booleans are true or false')
    say('union', cases('union') + plain,
        lambda v: calls(v, 'type_union_values', ty),
        'values of a union are those of its members')
    say('identityref', cases('identityref') + plain,
        lambda v: calls(v, 'type_identityref_values', ty),
        'values of an identityref are its identities')
    say('enumeration', cases('enumeration') + plain,
        lambda v: v[0] == 'join' and v[1] == C('|') and
        contains(v[2], arg(('each', sall(ty, 'enum'), 0))) and
        _all_of(v[2], None), 'values of an enumeration are all its names')
    for k in ('string', 'leafref'):
        say('other', cases(k) + plain, lambda v: v in (C(''), NONE),
            'a %s has no values' % k)
    say('typedef', [(isnone(ty), False), (isnone(TD), False),
                    (('truthy', TD), True),
                    (('truthy', DER), False), (eq(DER, False), True),
                    (eq(a, 'mytype'), True)] +
        [(eq(a, x), False) for x in TYPES],
        lambda v: calls(v, 'type_values', tdty),
        'a typedef has the values of its type')
    # members of a union
    fn = prog.method('ModelCompiler', 'type_union_values')
    eng = Engine(prog, opaque={MC + 'type_values'})
    ps = eng.run(fn)
    ck.used(eng)
    ty = params(fn)[0]
    M = sall(ty, 'type')
    for p in ps:
        if p.kind != 'return':
            continue
        v = p.value
        whole = v[0] == 'join' and v[1] == C('|') and contains(
            v[2], ('each', M, 0)) and bool(prims(v, 'type_values') or
                                           'type_values' in show(v))
        if not whole and p.facts.test(('truthy', M)) is False:
            continue
        ck.req(whole or (False if decided(v) else None), 'values/members',
               'all members of a union count', 'type_union_values gives %s'
               % show(v)[:80])
        if whole and v[2][0] == 'cont':
            for x in v[2][2]:
                g = [(f, w) for f, w in flatguard(x[2])
                     if not (f[0] == 'truthy' and w and
                             'type_values' in show(f))]
                ck.req((not g and x[3]) or None if not g else False,
                       'values/members', 'all members of a union count',
                       'type_union_values leaves out members of a union')
    # identities
    fn = prog.method('ModelCompiler', 'type_identityref_values')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    ty = params(fn)[0]
    b = so(ty, 'base')
    for p in ps:
        if p.kind != 'return':
            continue
        v = p.value
        txt = facts_text(p, 4)
        if v == C('') or v == NONE:
            why = any(('eq' == f[0] and NONE in f[1:] and w) or
                      (f[0] == 'truthy' and not w) or
                      (f[0] in ('len>=', 'in') and not w)
                      for f, w in p.newfacts)
            ck.req(why, 'values/identities', 'an identityref has values if '
                   'there are any', 'type_identityref_values is empty when '
                   '%s' % txt)
            continue
        good = v[0] == 'join' and v[1] == C('|') and \
            'identity_deps' in show(v)
        ck.req(good or (False if decided(v) else None), 'values/identities',
               'values of an identityref are the identities of its base',
               'type_identityref_values gives %s' % show(v)[:80])
        names = [x for x in subterms(v) if x == arg(b)]
        ck.req(bool(names), 'values/base', 'the base of the type counts',
               'type_identityref_values does not use the base of the type')
        if v[0] == 'join' and v[2][0] == 'cont':
            for x in v[2][2]:
                ck.req(not x[2] and (x[3] or None), 'values/identities/all',
                       'all identities of a base count',
                       'type_identityref_values leaves out identities')


def over(loop):
    """(collection, member, guard): what a loop goes through; the guard is
    that of the filter applied beforehand"""
    r = undo(loop.recv)
    if r[0] == 'cont' and len(r[2]) == 1 and r[2][0][3]:
        el = r[2][0][0]
        if el[0] == 'each':
            return undo(el[1]), el, r[2][0][2]
    return r, ('each', r, 0), ()


def with_guard(cell, guard):
    """the guard of a filter can hold in the situation of the cell"""
    have = dict(cell)
    for f, v in flatguard(guard):
        if f in have and have[f] != v:
            return False
        if f[0] == 'eq' and v:
            for g, w in cell:
                if w and g[0] == 'eq' and g[1] == f[1] and is_c(g[2]) and \
                        is_c(f[2]) and g[2] != f[2]:
                    return False
    return True


COMPILE_OPAQUE = {DEPICT, MC + 'get_dependencies', 'model.read_xml',
                  'model.write_xml', 'CompilerContext.internal_reset',
                  'CompilerContext.validate_context', 'Model.__init__'}


@once
def _c19_compile(ck, prog):
    fn = prog.method('ModelCompiler', 'compile')
    eng = Engine(prog, opaque=COMPILE_OPAQUE)
    ps = eng.run(fn)
    ck.used(eng)
    module = params(fn)[0]
    ctx = ('attr', SELF, 'context')
    vm = ('call', 'get_module', (ctx, module))
    prefix = so(vm, 'prefix')
    full = 0
    for p in ps:
        txt = facts_text(p, 4)
        calls = [e for e in p.events if e.kind == 'call']
        cached = [e for e in calls if e.name == 'read_xml']
        got = [t for a, v in p.newfacts for t in prims(a, 'read_xml')]
        hit = bool(got) and p.facts.test(isnone(got[0])) is False
        for e in cached:
            ck.req(_is_file(e.args[0], ('attr', SELF, 'dir_yang'), module),
                   'compile/cache/name', 'schemas are '
                   'cached by the name of the module', 'compile reads the '
                   'cache of %s' % show(e.args[0])[:50])
        if hit:
            ck.req(p.kind == 'return' and p.value[0] == 'objof' and
                   p.value[2] == (got[0],) or None, 'compile/cache/used',
                   'a cached schema tree is the model', 'compile gives %s '
                   'for a cached module' % show(p.value)[:60]
                   if p.value else '')
            continue
        if p.kind == 'raise':
            ck.req(p.facts.test(isnone(prefix)) is True or
                   p.facts.test(('truthy', prefix)) is False or None,
                   'compile/refuse', 'only submodules are refused',
                   'compile raises when %s' % txt)
            continue
        if p.kind != 'return':
            continue
        ck.req(p.facts.test(isnone(prefix)) is False or p.facts.test(
            ('truthy', prefix)) is True or p.facts.test(
                eq(('attr', vm, 'keyword'), 'submodule')) is False or
            p.facts.test(eq(('attr', vm, 'keyword'), 'module')) is True,
            'compile/submodule', 'submodules are refused',
            'compile accepts a submodule (%s)' % txt)
        full += 1
        _c19_steps(ck, p, module, ctx, vm)
    ck.req(full > 0 or None, 'compile/all', 'a module can be compiled')


def _cut(t):
    """the term without what calls were given"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('prim', 'call'):
        return (t[0], t[1])
    return tuple(_cut(x) for x in t)


def _at(p, pred):
    return [i for i, e in enumerate(p.events) if pred(e)]


def _c19_steps(ck, p, module, ctx, vm):
    ev = p.events

    def named(n):
        return _at(p, lambda e: e.kind == 'call' and e.name == n)

    def inner(n):
        return _at(p, lambda e: e.kind == 'loop' and any(
            x.name == n and x.kind == 'call' for b in e.bodies
            for x in events(b)))
    reset, val = named('internal_reset'), named('validate_context')
    load, write = inner('add_module'), named('write_xml')
    dep = inner('depict_a_schema_node')
    ck.req(bool(reset), 'compile/reset', 'modules are compiled from scratch',
           'compile keeps what was loaded for other modules')
    ck.req(bool(load), 'compile/load', 'required modules are loaded',
           'compile loads no modules')
    ck.req(bool(val), 'compile/validate', 'modules are validated before '
           'their schema is taken', 'compile does not validate the context')
    ck.req(bool(dep), 'compile/depict', 'schema nodes are made',
           'compile makes no schema nodes')
    mods = _at(p, lambda e: e.kind == 'loop' and contains(
        over(e)[0], ('attr', ctx, 'modules')))
    ck.req(bool(mods) or None, 'compile/modules', 'namespaces of all loaded '
           'modules are known')
    conv = _at(p, lambda e: e.kind == 'new' and e.name == 'Model')
    seq = [reset, load, val, mods, dep, write, conv]
    if all(seq):
        ck.req(all(max(a) < min(b) for a, b in zip(seq, seq[1:])),
               'compile/order', 'reset, load, validate, namespaces, nodes, '
               'cache, model: in this order', 'compile does its steps in another '
               'order: %s' % [x[0] for x in seq])
    # what is loaded
    for i in load:
        e = ev[i]
        base, M, guard = over(e)
        pre = [x for x in ev[:i] if x.kind == 'mut' and x.name in
               ('add', 'update') and x.recv == e.recv]
        src = [base] + [a for x in pre for a in x.args]
        gd = [t for t in src for t in prims(t, 'get_dependencies')]
        parts = {cv(x[2]) for t in src for x in subterms(t)
                 if x and x[0] == 'item' and is_c(x[2]) and
                 prims(x[1], 'get_dependencies')}
        opa = decided(base) and base[0] in ('bin', 'setof', 'union', 'cont',
                                            'item', 'prim')
        ck.req({0, 1} <= parts if parts else None if not opa else
               (None if gd else False), 'compile/required',
               'imports and dependent modules are loaded', 'compile loads '
               'only part of the modules required: %s' % show(base)[:90])
        own = any(contains(_cut(t), module) for t in src)
        ck.req(not any(x and x[0] == 'bin' and x[1] == '&' for t in src
                       for x in subterms(t)), 'compile/required',
               'imports and dependent modules are loaded', 'compile loads '
               'only modules that are both imported and dependent')
        ck.req(own or None if opa and not own and 'get_dep' not in show(base)
               else own, 'compile/own', 'the module itself is loaded',
               'compile does not load the module itself')
        for b in list(e.bodies) + list(e.exits):
            add = [x for x in events(b) if x.kind == 'call' and
                   x.name == 'add_module']
            isf = [(f, v) for f, v in b.newfacts if 'os.path.isfile' in
                   show(f) or 'os.path.exists' in show(f)]
            if b.kind == 'raise':
                continue
            if b.kind != 'next':
                ck.req(False, 'compile/required/all', 'all required modules '
                       'are loaded', 'compile stops loading modules when %s'
                       % facts_text(b, 3))
                continue
            if isf and not isf[-1][1]:
                continue
            ck.req(len(add) == 1 if add or not b.newfacts or all(
                'isfile' in show(f) or 'co_varnames' in show(f)
                for f, v in b.newfacts) else False, 'compile/required/all',
                'all required modules are loaded', 'compile does not load a '
                'module when %s' % facts_text(b, 4))
            for x in add:
                text = x.kw.get('text') or (x.args[1] if len(x.args) > 1
                                            else None)
                good = text is not None and text[0] == 'call' and \
                    text[1] == 'read' and contains(text, M)
                ck.req(good if good or text is None else (
                    False if not contains(text, M) else None),
                    'compile/text', 'a module is loaded from its own file',
                    'compile loads %s' % (show(text)[:80] if text else
                                          'no text'))
        ck.req(not guard or None, 'compile/required/all', 'all required '
               'modules are loaded')
    # the root
    new = [e for e in ev if e.kind == 'newelem' and e.recv is not None and
           p.value[0] == 'objof' and e.recv in p.value[2]]
    st = new[0].recv if new else None
    ck.req(st is not None or None, 'compile/root', 'the model is the tree '
           'that was made')
    if st is None:
        return
    ck.req(new[0].args[0] == arg(vm) or new[0].args[0] == module,
           'compile/root/name', 'the root is named by the module',
           'compile names the root %s' % show(new[0].args[0])[:60])
    at = attrs_set(p, st)
    ck.req('prefix' in at and at['prefix'] in (
        arg(so(vm, 'prefix')), ('attr', vm, 'i_prefix')),
        'compile/root/prefix', 'the root has the prefix of the module',
        'compile: prefix of the root is %s' % (
            show(at['prefix'])[:60] if 'prefix' in at else 'not set'))
    for i in write:
        ck.req(len(ev[i].args) == 2 and ev[i].args[1] == st and _is_file(
            ev[i].args[0], ('attr', SELF, 'dir_yang'), module),
            'compile/cache/write',
               'the tree is cached under the name of the module',
               'compile caches %s' % ', '.join(show(a)[:40]
                                               for a in ev[i].args))
    ck.req(len(write) == 1, 'compile/cache/write', 'the tree is cached under '
           'the name of the module', 'compile writes the cache %d times' %
           len(write))
    # namespaces
    for i in mods:
        e = ev[i]
        base, M, guard = over(e)
        if base != ('dictvals_', ('attr', ctx, 'modules')) and \
                not (base[0] == 'call' and base[1] == 'values'):
            ck.open('loop over %s' % show(base)[:50])
            continue
        kw = ('attr', M, 'keyword')
        nsp = so(M, 'namespace')
        cell = [(eq(kw, 'module'), True)]
        names = (('attr', M, 'i_modulename'), ('attr', M, 'arg'))
        good = with_guard(cell, guard)
        for b in bodies(e, cell):
            if b.kind == 'raise':
                continue
            if b.kind != 'next':
                good = False
                continue
            txt = facts_text(b, 3)
            els = [x.recv for x in b.events if x.kind == 'newelem']
            els = [x for x in els if any(inserts(y) and y.recv == st and
                                         x in y.args for y in b.events)]
            ck.req(len(els) == 1, 'compile/namespace', 'the tree tells the '
                   'namespaces of all modules', 'compile puts %d namespace '
                   'elements into the tree for a module when %s' % (
                       len(els), txt))
            for el in els:
                a = attrs_set(b, el).get('prefix')
                ck.req(a == ('attr', M, 'i_prefix'), 'compile/namespace',
                       'the tree tells the namespaces of all modules',
                       'compile: a namespace has prefix %s' %
                       (show(a)[:60] if a else 'not set'))
            none = b.facts.test(isnone(nsp))
            if not none:
                tx = [x.args[0] for x in b.events if x.kind == 'mut' and
                      x.name == 'set_text' and x.recv in els]
                ck.req(tx == [arg(nsp)] or (None if none is None else False),
                       'compile/namespace/url', 'each prefix has its '
                       'namespace', 'compile: the URL of a namespace is %s' %
                       [show(t)[:50] for t in tx])
                _stores(ck, b, 'module_namespaces', names, arg(nsp), txt)
            _stores(ck, b, 'module_prefixes', names, ('attr', M, 'i_prefix'),
                    txt)
            _identities(ck, b, M)
        ck.req(good, 'compile/namespace', 'the tree tells the namespaces of '
               'all modules', 'compile skips modules (%s)' % e.loc)
    # schema nodes
    total = {}
    for i in dep:
        e = ev[i]
        base, X, guard = over(e)
        if base != ('attr', vm, 'i_children'):
            ck.open('nodes from %s' % show(base)[:60])
            return
        kw = ('attr', X, 'keyword')
        for k in ('data', 'rpc', 'notification'):
            atoms = {f for b in e.bodies for f, v in b.newfacts} | {
                f for f, v in flatguard(guard)}
            data = [f for f in atoms if f[0] == 'in' and f[1] == kw and
                    'data_definition_keywords' in show(f)]
            cell = [(f, k == 'data') for f in data] + [
                (eq(kw, x), x == k) for x in ('rpc', 'notification')]
            if k != 'data':
                cell.sort(key=lambda c: not c[1])
            if not with_guard(cell, guard):
                continue
            for b in bodies(e, cell):
                n = [x for x in b.events if x.kind == 'call' and
                     x.name == 'depict_a_schema_node']
                if b.kind not in ('next', 'raise'):
                    ck.fail('compile/depict/all', 'compile stops making '
                            'schema nodes when %s' % facts_text(b, 3))
                total.setdefault(k, {}).setdefault(i, set()).add(len(n))
                for x in n:
                    got = dict(zip(('module', 'parent', 'child', 'mode'),
                                   x.args))
                    got.update(x.kw or {})
                    ck.req(got.get('parent') == st and got.get('child') == X,
                           'compile/depict/args', 'top-level nodes are below '
                           'the root', 'compile: a node is depicted with %s'
                           % ', '.join(show(a)[:40] for a in x.args))
                    want = NONE if k == 'data' else C(k)
                    m = got.get('mode', NONE)
                    ck.req(m == want or m == kw and k != 'data',
                           'compile/depict/mode',
                           'rpcs and notifications are depicted as such',
                           'compile: mode for a %s is %s' % (k, show(m)))
    for k in ('data', 'rpc', 'notification'):
        counts = [c for c in total.get(k, {}).values()]
        some = [c for c in counts if max(c)]
        if not counts or len(some) > 1 and any(len(c) > 1 for c in some):
            ck.req(None if counts else False, 'compile/depict/' + k,
                   'one node for every %s at the top' % k,
                   'compile makes no nodes for %s' % k)
            continue
        n = sum(min(c) for c in counts)
        ck.req(n == 1, 'compile/depict/' + k, 'one node for every %s at the '
               'top' % k, 'compile makes %d nodes for a top-level %s' % (n, k))


def _stores(ck, b, name, keys, val, txt):
    st = [x for x in b.events if x.kind == 'setitem' and
          x.recv == ('attr', SELF, name)]
    good = any(x.args[0] in keys and x.args[1] == val for x in st)
    ck.req(good or (False if st or not murky(b) else None),
           'compile/' + name, '%s knows every module' % name,
           'compile: %s is %s when %s' % (name, [
               tuple(show(a)[:50] for a in x.args) for x in st] or
               'not set', txt))


def _identities(ck, b, M):
    ls = [e for e in b.events if e.kind == 'loop' and contains(
        e.recv, ('attr', M, 'i_identities'))]
    if not ls:
        ck.req(None if murky(b) else False, 'compile/identities',
               'identities of all modules are known', 'compile does not '
               'look at the identities of modules')
        return
    for l in ls:
        base, I, guard = over(l)
        bs = so(I, 'base')
        mine = [('str', (n, C(':'), arg(I))) for n in
                (('attr', M, 'arg'), ('attr', M, 'i_modulename'))]
        for q in list(l.bodies) + list(l.exits):
            if q.kind == 'raise' or q.facts.test(isnone(bs)):
                continue
            if q.kind != 'next':
                ck.fail('compile/identities/all', 'compile stops looking at '
                        'identities when %s' % facts_text(q, 3))
                continue
            put = [e for e in q.events if e.kind == 'mut' and e.name in
                   ('append', 'add') and any(
                       m in e.args for m in mine) and
                   'identity_deps' in show(e.recv)]
            there_ = [f for f, v in q.newfacts if f[0] == 'in' and v and
                      f[1] in mine and 'identity_deps' in show(f[2])]
            ck.req(bool(put or there_) or (
                None if murky(q) else False), 'compile/identities/all',
                'each identity is listed under its base', 'compile: an '
                'identity is not listed under its base when %s' %
                facts_text(q, 5))
            for e in put:
                # the name of the base is in the key
                ck.req('search_one' in show(e.recv) or contains(
                    e.recv, arg(bs)) or None, 'compile/identities/base',
                    'each identity is listed under its base')
                sp = ('call', 'split', (arg(bs), C(':')))
                if q.facts.test(('len>=', sp, 2)) is False:
                    ck.req(any(contains(e.recv, ('attr', M, n)) for n in
                               ('arg', 'i_modulename')),
                           'compile/identities/local', 'bases without '
                           'prefix are in the same module', 'compile: a base '
                           'without prefix is looked up as %s' %
                           show(e.recv)[:100])
                elif q.facts.test(('len>=', sp, 2)):
                    known = [v for f, v in q.newfacts if f[0] == 'eq' and
                             NONE in f[1:] and 'i_prefixes' in show(f)]
                    if known and not known[0]:
                        ck.req('i_prefixes' in show(e.recv) or contains(
                            e.recv, ('attr', M, 'i_prefixes')),
                            'compile/identities/prefix', 'prefixes of bases '
                            'are resolved', 'compile: the base of an identity '
                            'is looked up as %s' % show(e.recv)[:100])


@once
def _c19_deps(ck, prog):
    """get_dependencies: what a module imports and who depends on it"""
    fn = prog.method('ModelCompiler', 'get_dependencies')
    eng = Engine(prog, opaque={MC + 'build_dependencies'})
    ps = eng.run(fn)
    ck.used(eng)
    module = params(fn)[0]
    deps = ('attr', ('attr', SELF, 'context'), 'dependencies')
    for p in ps:
        if p.kind != 'return' or p.facts.test(isnone(deps)):
            continue
        v = p.value
        if v[0] != 'tup' or len(v[1]) != 2:
            ck.open('get_dependencies gives %s' % show(v)[:60])
            continue
        got = [_entries(p, t) for t in v[1]]
        if None in got:
            ck.open('get_dependencies gives %s' % show(v)[:60])
            continue
        imports, depends = got
        # what the module imports
        good = bad = False
        for val, guard in imports:
            if 'import' not in show(val):
                continue
            for g in guardcases(guard):
                rest = [x for x in g if not (
                    x[0][0] == 'eq' and x[1] and module in x[0][1:])]
                if not rest and len(g) == 1 and val[0] == 'get' and \
                        val[2] == C('module'):
                    good = True
                elif not rest and not g:
                    bad = True
        ck.req((good and not bad) or (None if murky(p) else False),
               'deps/imports', 'imports of a module are known',
               'get_dependencies: imports are %s' % ', '.join(
                   show(x)[:60] for x, g in imports))
        # who imports or includes the module
        for word in ('import', 'include'):
            good = False
            for val, guard in depends:
                if val[0] != 'get' or val[2] != C('id'):
                    continue
                for g in guardcases(guard):
                    me = [x for x in g if x[1] and contains(x[0], module) and
                          (word + 's/' + word in repr(x[0]) or
                           "'%s'" % word in repr(x[0])) and
                          contains(x[0], C('module'))]
                    if me and len(me) == len(g):
                        good = True
            ck.req(good or (None if murky(p) else False), 'deps/' + word,
                   'modules that %s a module are known' % word,
                   'get_dependencies: modules that %s the module are not '
                   'among %s' % (word, ', '.join(
                       show(x)[:60] + ' if ' + ' and '.join(
                           show(a)[:120] for a, b in flatguard(g))
                       for x, g in depends)))


def _entries(p, t):
    """(value, guard) of the members of a local collection"""
    if t[0] in ('set', 'list') and len(t) == 2 and t[1] in p.st.cont:
        return [(e.val, e.guard) for e in p.st.cont[t[1]]]
    if t[0] == 'cont':
        return [(e[0], e[2]) for e in t[2]]
    if t[0] == 'setof':
        return _entries(p, t[1])
    return None


def _noattr(t):
    """the term without attributes of other objects"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'attr' and t[1] != SELF:
        return ('attr', None, t[2])
    return tuple(_noattr(x) for x in t)


def _is_file(t, folder, name):
    return contains(t, folder) and contains(_noattr(t), name) and '.xml' in repr(t) \
        and not any(x and x[0] == 'call' and x[1] in
                    ('lower', 'upper', 'replace', 'split', 'strip')
                    for x in subterms(t))


@once
def _c19_cache(ck, prog):
    folder = ('attr', SELF, 'dir_yang')
    for name, prim in (('_read_from_cache', 'read_xml'),
                       ('_write_to_cache', 'write_xml')):
        fn = prog.lookup('ModelCompiler', name)
        if fn is None:
            continue        # compile itself is looked at
        eng = Engine(prog, opaque={'read_xml', 'write_xml',
                                   'model.read_xml', 'model.write_xml'})
        ps = eng.run(fn)
        ck.used(eng)
        a = params(fn)
        for p in ps:
            cs = [e for e in p.events if e.kind == 'call' and
                  e.name == prim]
            if not cs:
                ck.req(None if murky(p) or not p.newfacts else False,
                       'cache/' + name, 'schema trees are kept in files',
                       '%s does nothing when %s' % (name, facts_text(p, 3)))
                continue
            ck.req(len(cs) == 1 and _is_file(cs[0].args[0], folder, a[0]),
                   'cache/file', 'the file is that of the module',
                   '%s uses %s' % (name, show(cs[0].args[0])[:80]))
            if prim == 'write_xml':
                ck.req(cs[0].args[1] == a[1], 'cache/element',
                       'the tree itself is written', '%s writes %s' % (
                           name, show(cs[0].args[1])[:60]))
            else:
                ck.req(bool(prims(p.value, prim)) and
                       prims(p.value, prim)[0] == p.value, 'cache/value',
                       'the tree is read as it was written',
                       '%s gives %s' % (name, show(p.value)[:60]))
    files(ck, prog)


def modfn(prog, name):
    return prog.mods['model'].funcs[name]


def files(ck, prog):
    """read_xml and write_xml"""
    fn = modfn(prog, 'write_xml')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    name, el = params(fn)[:2]
    for p in ps:
        if p.kind == 'raise':
            continue
        w = [e for e in events(p) if e.kind == 'call' and (
            e.name or '').split('.')[-1] in ('write', 'tostring')]
        ck.req(bool(w) and any(contains(x, el) for e in w for x in
                               [e.recv or NONE] + list(e.args)) or
               (None if murky(p) else False), 'files/write',
               'elements are written as they are', 'write_xml does not '
               'write the element when %s' % facts_text(p, 3))
        for e in w:
            enc = e.kw.get('encoding')
            ck.req(enc is None or is_c(enc) and str(cv(enc)).lower() in (
                'utf-8', 'utf8', 'us-ascii', 'ascii', 'unicode') or None,
                'files/encoding', 'files keep all characters')
            ck.req(e.kw.get('method') in (None, C('xml')), 'files/method',
                   'files are XML', 'write_xml writes %s' %
                   (show(e.kw['method']) if e.kw.get('method') else ''))
    fn = modfn(prog, 'read_xml')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    name = params(fn)[0]
    got = 0
    for p in ps:
        if p.kind == 'raise':
            ck.req(None, 'files/read', 'read_xml raises')
            continue
        if p.value == NONE:
            continue
        got += 1
        ck.req(contains(p.value, name) or None, 'files/read', 'files are '
               'read as they were written')
    ck.req(got > 0, 'files/read', 'files are read as they were written',
           'read_xml never gives a tree')


@once
def _c19_model(ck, prog):
    fn = prog.method('Model', '__init__')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    tree = params(fn)[0]
    NS = ('childtag', tree, C('namespace'), 0)
    for p in ps:
        if p.kind == 'raise':
            continue
        at = {}
        for e in p.events:
            if e.kind == 'setattr' and e.recv == SELF:
                at[e.name] = e.args[0]
        ck.req(at.get('tree') == tree, 'model/tree', 'the tree of a model is '
               'the schema tree', 'Model: tree is %s' %
               (show(at['tree'])[:50] if 'tree' in at else 'not set'))
        ck.req(at.get('name') == ('tag', tree), 'model/name',
               'the name of a model is that of the module', 'Model: name is '
               '%s' % (show(at['name'])[:50] if 'name' in at else 'not set'))
        ck.req(at.get('prefix') == ('get', tree, C('prefix')),
               'model/prefix', 'the prefix of a model is that of the module',
               'Model: prefix is %s' % (show(at['prefix'])[:50]
                                        if 'prefix' in at else 'not set'))
        for name in ('prefixes', 'urls'):
            t = at.get(name)
            es = p.st.cont.get(t[1]) if t and t[0] == 'dict' and \
                len(t) == 2 else None
            if es is None:
                ck.req(None if t else False, 'model/' + name, '%s of a '
                       'model' % name, 'Model: %s is not set' % name)
                continue
            def plain(x):
                return x and contains(noep(x), noep(NS)) or 'dictitems' in \
                    show(x) or 'namespace' in repr(x)
            ok = len(es) == 1 and es[0].many and not es[0].guard
            ck.req(ok or None, 'model/' + name, 'all namespaces count')
            if not ok:
                continue
            k, v = es[0].key, es[0].val
            pk = ('get', ('each', NS, 0), C('prefix'))
            tx = ('text', ('each', NS, 0))
            if name == 'prefixes':
                ck.req((noep(k), noep(v)) == (noep(pk), noep(tx)),
                       'model/prefixes', 'prefixes give namespaces',
                       'Model.prefixes: %s -> %s' % (show(k)[:50],
                                                     show(v)[:50]))
            else:
                ck.req((noep(k), noep(v)) != (noep(pk), noep(tx)),
                       'model/urls', 'namespaces give prefixes',
                       'Model.urls: %s -> %s' % (show(k)[:50],
                                                 show(v)[:50]))
        # nothing but the namespaces is taken from the tree
        for e in events(p):
            if e.kind != 'mut' or e.name not in ('remove', 'clear', 'pop',
                                                 'append', 'insert'):
                continue
            if e.recv == tree:
                good = e.name == 'remove' and noep(e.args[0]) == noep(
                    ('each', NS, 0))
                if e.name == 'remove' and not good:
                    X = e.args[0]
                    good = X[0] == 'each' and any(
                        ('tag' in show(f) and 'namespace' in show(f) and v)
                        for l in loops(p) for b in l.bodies
                        for f, v in b.newfacts)
                    good = good or None
                ck.req(good, 'model/keep', 'a model has all nodes of its '
                       'schema tree', 'Model: %s %s' % (
                           e.name, show(e.args[0])[:60] if e.args else ''))
    fn = prog.method('Model', 'roots')
    eng = Engine(prog)
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        es = _entries(p, p.value)
        base = ('attr', SELF, 'tree')
        good = es is not None and len(es) == 1 and not es[0][1] and \
            es[0][0][0] == 'tag' and is_children(es[0][0][1][1], base)
        ck.req(good or (False if es is not None and len(es) == 1 and
                        es[0][1] else None), 'model/roots',
               'all top-level nodes are roots', 'Model.roots gives %s' %
               show(p.value)[:80])
