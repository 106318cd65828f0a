"""Properties of comparing configs (calculator.py, ref.py, Config operators)."""
from ..pairs import *
from ..engine import Engine
from ..terms import is_c, cv, Facts

CACHE = {'__attach_per_instance_cache',
         '_BaseCalculator__attach_per_instance_cache'}
LE = '_node_le'


def stands_for(t, want):
    while t[0] == 'copy':
        t = t[2]
    return t == want


def prims(t, name):
    """All occurrences of a call of the named function inside a term."""
    return [s for s in subterms(t) if isinstance(s, tuple) and len(s) > 2 and
            s[0] == 'prim' and s[1].split('.')[-1] == name]


def path_prims(p, name):
    out = []
    for a, v in p.facts.log:
        out += prims(a, name)
    if p.value is not None:
        out += prims(p.value, name)
    return out


def truth(p, cell, v):
    """Truth value of v on path p in the situation cell; None unknown."""
    f = p.facts.clone()
    for a, b in cell:
        if not f.assume(a, b):
            return None
    return f.test(('truthy', v))


def maybe(prog, cls, name):
    try:
        return prog.method(cls, name)
    except AnalysisBroken:
        return None


OPS = {'__le__': lambda a, b: a, '__ge__': lambda a, b: b,
       '__lt__': lambda a, b: a and not b, '__gt__': lambda a, b: b and not a,
       '__eq__': lambda a, b: a and b,
       '__ne__': lambda a, b: not (a and b)}


def c09(ck, prog, tier):
    E1 = ('attr', ('p', 'self'), 'ele')
    for op, want in OPS.items():
        fn = prog.method('Config', op)
        eng = Engine(prog, opaque={LE} | CACHE)
        ps = eng.run(fn)
        ck.used(eng)
        oth = ('p', fn.node.args.args[1].arg)
        E2 = ('attr', oth, 'ele')
        isc = ('isinst', oth, 'Config')
        n = 0
        for p in ps:
            if consistent(p, [(isc, False)]):
                n += 1
                ck.req(p.kind == 'raise' and p.exc.cls == 'TypeError',
                       'config/%s/type' % op,
                       'Config %s something else raises TypeError' % op,
                       'Config.%s: with a non-Config operand the result is '
                       '%s (when %s)' % (op, 'exception ' + p.exc.cls
                                         if p.kind == 'raise' else
                                         show(p.value), facts_text(p)))
        if n == 0:
            ck.fail('config/%s/type' % op, 'Config.%s treats every operand '
                    'as a Config' % op)
        for a in (True, False):
            for b in (True, False):
                hit = False
                for p in ps:
                    cell = [(isc, True)]
                    for t in path_prims(p, LE):
                        x, y = t[2][-2:]
                        if stands_for(x, E1) and stands_for(y, E2):
                            cell.append((('truthy', t), a))
                        elif stands_for(x, E2) and stands_for(y, E1):
                            cell.append((('truthy', t), b))
                    if not consistent(p, cell):
                        continue
                    hit = True
                    r = truth(p, cell, p.value) if p.kind == 'return' \
                        else None
                    exp = bool(want(a, b))
                    ck.req(r if r is None and p.kind == 'return' else
                           r == exp, 'config/%s/%s-%s' % (op, a, b),
                           'x %s y is %s when x contained in y is %s and y '
                           'contained in x is %s' % (op, exp, a, b),
                           'Config.%s gives %s when x<=y is %s and y<=x is '
                           '%s (path: %s)' % (
                               op, r if p.kind == 'return' else
                               'an exception', a, b, facts_text(p)))
                if not hit:
                    ck.open('Config.%s: no path for (%s, %s)' % (op, a, b))
        # the delta has no order at all
        fn = prog.method('ConfigDelta', op)
        eng = Engine(prog, opaque={LE} | CACHE)
        for p in eng.run(fn):
            ck.req(p.kind == 'raise' and p.exc.cls == 'TypeError',
                   'delta/%s' % op, 'ConfigDelta %s anything raises '
                   'TypeError' % op, 'ConfigDelta.%s returns %s' % (
                       op, show(p.value) if p.value else '?'))
        ck.used(eng)
    # truth values
    fn = prog.method('Config', '__bool__')
    eng = Engine(prog, opaque={LE, 'trim_defaults', 'validate_config',
                               '__eq__', '__ne__'} | CACHE)
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            ck.fail('config/bool', 'bool(config) raises %s' % p.exc.cls)
            continue
        r = truth(p, [], p.value)
        same_ = _equal_fact(p, ('p', 'self'))
        if same_ is None or r is None:
            # len(self.ele) form
            k = _children_fact(p, E1)
            if k is not None and r is not None:
                ck.req(r == k, 'config/bool', 'a config is true exactly when '
                       'it has content', 'bool(config) is %s although the '
                       'config %s content' % (r, 'has' if k else 'has no'))
            else:
                ck.open('Config.__bool__: ' + facts_text(p))
            continue
        ck.req(r == (not same_), 'config/bool', 'a config is false exactly '
               'when it equals the empty config', 'bool(config) is %s when '
               'the config equals the empty config: %s' % (r, same_))
    fn = prog.method('ConfigDelta', '__bool__')
    eng = Engine(prog, opaque={LE} | CACHE)
    ps = eng.run(fn)
    ck.used(eng)
    s, d = ('attr', ('p', 'self'), 'config_src'), \
        ('attr', ('p', 'self'), 'config_dst')
    at = ('eq',) + tuple(sorted((s, d), key=repr))
    for p in ps:
        r = truth(p, [], p.value) if p.kind == 'return' else None
        v = p.test(at)
        if v is None and r is not None and p.newfacts and all(
                a[0] in ('lt', 'eq', 'le') and s in a[1:] and d in a[1:]
                for a, w in p.newfacts):
            v = r       # other comparisons do not tell equality
        ck.req(None if r is None or v is None else r == (not v),
               'delta/bool', 'a delta is false exactly when source and '
               'destination are equal', 'bool(delta) is %s when source == '
               'destination is %s' % (r, v))


def _equal_fact(p, me):
    for a, v in p.facts.log:
        if a[0] == 'eq' and me in a[1:]:
            return v
    return None


def _children_fact(p, e):
    for a, v in p.facts.log:
        if a[0] in ('truthy', 'len>=') and (
                a[1] == e or a[1][0] == 'children' and a[1][1] == e):
            return v
    return None


# ----------------------------------------------------------------------
NLP = {LE, 'get_schema_node', '_same_text', '_pair_children', '_get_peers',
       'get_xpath', '_get_list_keys'}


def ret(b, v):
    return b.kind == 'return' and b.value == C(v)


def c10(ck, prog, tier):
    ck.part(_blank, ck, prog)
    f = PairFn(ck, prog, 'BaseCalculator', LE, NLP)
    S, O, n1, n2 = f.S, f.O, f.n1, f.n2
    rec = [('truthy', ('prim', 'calculator.BaseCalculator._node_le',
                       (('p', 'self'), S, O)))]

    def good(b):
        return ret(b, False)
    # a child without peer makes containment false
    f_every(f, 'child/missing', 'a child without counterpart means "not '
            'contained"', f.cell(o=False), good)
    f_every(f, 'child/only-other', 'additional content of the other node does '
            'not matter', f.cell(s=False), lambda b: b.kind == 'next')
    for ty in ('leaf', 'leaf-list', 'container', 'list'):
        for order in ('system', 'user'):
            f_every(f, 'child/%s/%s/differs' % (ty, order),
                    'a %s child whose counterpart does not contain it means '
                    '"not contained"' % ty,
                    f.cell(type=ty, order=order, extra=[(rec[0], False)]),
                    lambda b: good(b) or b.kind == 'raise')
        f_every(f, 'child/%s/same' % ty, 'a %s child contained in its '
                'counterpart is accepted (system order)' % ty,
                f.cell(type=ty, order='system', extra=[(rec[0], True)]),
                lambda b: b.kind == 'next')
    # user order matters, for lists and leaf-lists
    for ty in ('leaf-list', 'list'):
        cell = f.cell(type=ty, order='user', extra=[(rec[0], True)])
        outs = []
        for t, gs in f.groups_all(cell):
            for l, bs in gs:
                outs += bs
        pos = [b for b in outs if good(b) and any(
            _positional(a) for a, v in b.facts.log)]
        ck.req(bool(pos), 'order/%s' % ty, 'the order of a user-ordered %s '
               'is compared' % ty, '_node_le never says "not contained" '
               'because of the order of a user-ordered %s' % ty)
        _order(ck, f, ty, cell)
    for ty in ('leaf', 'container'):
        pass
    # the node itself
    tagq = ('eq',) + tuple(sorted((('tag', n1), ('tag', n2)), key=repr))
    txt = [('truthy', ('prim', 'calculator.BaseCalculator._same_text',
                       (('p', 'self'), a, b))) for a, b in
           ((n1, n2), (n2, n1))]
    for p in f.paths:
        if p.kind != 'return':
            continue
        if p.value == C(True):
            ck.req(p.test(tagq) is True, 'node/tag', 'nodes of different '
                   'names are not contained in each other',
                   '_node_le returns True without comparing tags')
            ck.req(any(p.test(x) is True for x in txt), 'node/text',
                   'nodes with different values are not contained in each '
                   'other', '_node_le returns True without comparing values')
            at = [l for l in loops(p) if l.recv[0] in ('attrs', 'attritems')
                  and l.recv[1] == n1]
            ck.req(bool(at) or None, 'node/attributes', 'attributes are '
                   'compared')
            for l in at:
                k = ('each', l.recv, 0)
                if l.recv[0] == 'attritems':
                    k = ('item', k, C(0))
                e = ('eq',) + tuple(sorted((('get', n1, k), ('get', n2, k)),
                                           key=repr))
                for b in l.bodies:
                    r = b.test(e)
                    odd = [a for a, v in b.newfacts if contains(a, k) and
                           not (a[0] in ('eq', 'in', 'truthy') and
                                not any(isinstance(z, tuple) and z and z[0]
                                        in ('call', 'prim')
                                        for z in subterms(a)))]
                    ck.req(True if r else (None if odd or murky(b)
                                           else False),
                           'node/attributes/value', 'every attribute has the '
                           'same value on the other node', '_node_le accepts '
                           'an attribute when ' + facts_text(b))
                for b in l.exits:
                    if b.kind == 'return':
                        ck.req(ret(b, False), 'node/attributes/exit',
                               'a differing attribute means "not contained"',
                               '_node_le returns %s from the attribute loop' %
                               show(b.value))
            prs = [l for l in loops(p) if contains(l.recv, f.pc)]
            ck.req(bool(prs) and all(l.exh for l in prs) or None,
                   'node/all-children', 'containment is only reported after '
                   'all children were looked at',
                   '_node_le returns True before all children were compared '
                   '(%s)' % facts_text(p))
    for p in f.paths:
        if p.kind == 'return' and p.value != C(True):
            r = truth(p, [(tagq, True)] + [(x, True) for x in txt], p.value)
    ck.part(_pairing, ck, prog)
    ck.part(_peers, ck, prog)


def f_every(f, key, what, cell, pred):
    """Every consistent iteration of the loop over pairs, whether it goes on
    or leaves the loop."""
    n, wit = 0, None
    seen = set()
    for t in f.paths:
        for l in loops(t):
            if not contains(l.recv, f.pc) or id(l.bodies) in seen:
                continue
            seen.add(id(l.bodies))
            for b in list(l.bodies) + list(l.exits):
                if not f.consistent(b, cell):
                    continue
                n += 1
                if not pred(b):
                    wit = wit or b
    if n == 0:
        f.ck.open('%s: %s (no iteration found)' % (f.fn.qual, what))
    elif wit is None:
        f.ck.ok('%s: %s' % (f.fn.qual, what))
    elif murky(wit):
        f.ck.open('%s: %s' % (f.fn.qual, what))
    else:
        f.ck.fail(key, '%s %s: expected: %s. Offending path: when %s -> %s' %
                  (f.fn.qual, f.fn.loc, what, facts_text(wit),
                   'returns ' + show(wit.value) if wit.kind == 'return' else
                   wit.kind + ': ' + describe(wit)))


def _groups_all(self, cell):
    seen = set()
    for t in self.paths:
        gs = []
        for l in loops(t):
            if not contains(l.recv, self.pc) or id(l.bodies) in seen:
                continue
            seen.add(id(l.bodies))
            gs.append((l, [b for b in list(l.bodies) + list(l.exits)
                           if self.consistent(b, cell)]))
        yield t, gs


PairFn.groups_all = _groups_all


def _positional(a):
    """The condition looks at the position among siblings."""
    return any(isinstance(s, tuple) and s and s[0] in (
        'siblings', 'prev', 'idx', 'index', 'nextof', 'sibprev', 'sibnext',
        'childtag', 'findall')
               for s in subterms(a))


def _order(ck, f, ty, cell):
    """The entry before S must have its counterpart before O."""
    S, O = f.S, f.O
    ins = set()
    for t, gs in f.groups_all(cell):
        for l, bs in gs:
            for b in bs:
                for a, v in b.facts.log:
                    if a[0] == 'in' and a[2][0] == 'siblings' and \
                            a[2][1] == O:
                        ins.add(a)
    if not ins:
        ck.open('_node_le: order of user-ordered %s: form not recognised' %
                ty)
        return
    for a in ins:
        elder = prims(a[1], '_get_peers')
        ok = len(elder) == 1
        if ok:
            x = elder[0][2][-2]
            ok = x[0] == 'item' and x[1][0] == 'siblings' and \
                x[1][1] == S and x[1][3] == C(True) and x[2] == C(0) and \
                elder[0][2][-1] == f.n2
            ok = ok and a[2][3] == C(True)
            if not ok and not (x[0] == 'item' and x[1][0] == 'siblings'):
                ok = None
        else:
            ok = None
        ck.req(ok, 'order/%s/elder' % ty, 'the counterpart of the entry '
               'directly before is looked for among the entries before the '
               'counterpart', '_node_le compares positions by ' + show(a))
        f_every(f, 'order/%s/violated' % ty, 'a user-ordered %s entry whose '
                'predecessor does not come before the counterpart means "not '
                'contained"' % ty, cell + [(a, False)],
                lambda b: ret(b, False) or b.kind == 'raise' or
                b.test(a) is None)


# ----------------------------------------------------------------------
PRS = {'get_schema_node', '_parse_text', '_get_list_keys', 'get_xpath'}


def _pairing(ck, prog):
    fn = prog.method('BaseCalculator', '_pair_children')
    eng = Engine(prog, opaque=PRS)
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    n1, n2 = ('p', a[1]), ('p', a[2])
    done = set()
    for p in ps:
        for l in loops(p):
            for n, side in ((n1, 'first'), (n2, 'second')):
                if l.recv == n or l.recv[0] == 'children' and \
                        l.recv[1] == n:
                    if id(l.bodies) not in done:
                        done.add(id(l.bodies))
                        _index_loop(ck, fn, l, n, side)
                        done.add(side)
    for side in ('first', 'second'):
        if side not in done:
            ck.open('_pair_children: no loop over the children of the %s '
                    'node recognised' % side)
    c1 = c2 = None
    for p in ps:
        if p.kind != 'return':
            continue
        v = p.value
        es = None
        if v[0] == 'list' and v[1] in p.st.cont:
            es = [e.val for e in p.st.cont[v[1]]]
        if es is None or any(e[0] != 'tup' or len(e[1]) != 2 for e in es):
            ck.open('_pair_children: shape of the result not recognised')
            continue
        kinds = set()
        for e in es:
            k = tuple(_side(x, n1, n2) for x in e[1])
            kinds.add(k)
        bad = [k for k in kinds if k[0] not in (1, 0) or k[1] not in (2, 0)]
        if any(None in k for k in kinds):
            ck.open('_pair_children: result %s not recognised' % (kinds,))
            continue
        ck.req(not bad, 'pairs/sides', 'each pair holds a child of the first '
               'node and a child of the second node, in that order',
               '_pair_children returns pairs of %s' % bad)
        for k, what in (((1, 2), 'children with a counterpart'),
                        ((1, 0), 'children only of the first node'),
                        ((0, 2), 'children only of the second node')):
            ck.req(k in kinds, 'pairs/%s-%s' % k, '%s are paired' % what,
                   '_pair_children never returns %s' % what)
        # the keys that are walked through
        for l in loops(p)[-1:]:
            if l.recv[0] != 'cont':
                continue
            src = set()
            for e in l.recv[2]:
                for x in (e[0], e[1]):
                    if isinstance(x, tuple):
                        s = set(subterms(x))
                        if any(t in s for t in (('children', n1, 0), n1)):
                            src.add(1)
                        if any(t in s for t in (('children', n2, 0), n2)):
                            src.add(2)
            ck.req({1, 2} <= src, 'pairs/all', 'every child of both nodes '
                   'ends up in a pair', '_pair_children only walks through '
                   'children of node %s' % src)


def _side(x, n1, n2):
    if x == NONE:
        return 0
    s = set(subterms(x))
    a, b = n1 in s, n2 in s
    if a and not b:
        return 1
    if b and not a:
        return 2
    return None


def _types(b):
    """Schema node type established on this path, however the schema node was
    obtained."""
    pos, neg = set(), set()
    for a, v in b.facts.log:
        if a[0] == 'eq' and a[1][0] == 'get' and a[1][2] == C('type') and \
                is_c(a[2]):
            (pos if v else neg).add(cv(a[2]))
    return pos, neg


def _index_loop(ck, fn, l, n, side):
    child = ('each', l.recv, 0)
    for b in l.bodies:
        stored = [e for e in b.events if e.kind == 'setitem' and
                  e.args[1] == child]
        if not stored:
            ap = [e for e in b.events if any(contains(x, child)
                                             for x in e.args)]
            ck.req(None if ap or murky(b) else False, 'index/%s/stored' %
                   side, 'every child is indexed for pairing',
                   '%s: a child of the %s node is skipped when %s' % (
                       l.loc, side, facts_text(b)))
            continue
        key = stored[-1].args[0]
        key = _resolve(b, key)
        ck.req(contains(key, ('tag', child)) or None, 'index/%s/tag' % side,
               'children are paired by name')
        pos, neg = _types(b)
        if 'leaf-list' in pos:
            pt = prims(key, '_parse_text')
            ok = any(x[2][1] == child for x in pt)
            raw = contains(key, ('text', child))
            ck.req(True if ok else (False if raw or not contains(
                _drop(key, ('tag', child)), child) else None),
                'index/%s/leaf-list' % side,
                'leaf-list entries are paired by value',
                '%s: leaf-list entries are identified by %s' % (
                    l.loc, show(key)))
        if 'list' in pos:
            pt = prims(key, '_parse_text')
            good = [x for x in pt if _is_key_child(x[2][1], child)]
            ck.req(True if good else (False if not contains(
                _drop(key, ('tag', child)), child) else None),
                'index/%s/list' % side, 'list entries are paired by their '
                'keys', '%s: list entries are identified by %s' % (
                    l.loc, show(key)))
            for kl in loops(b):
                if kl.recv[0] == 'slice' and prims(kl.recv,
                                                   '_get_list_keys'):
                    ck.fail('index/%s/all-keys' % side, '%s: only some keys '
                            'identify a list entry: %s' % (kl.loc,
                                                           show(kl.recv)))
                if kl.recv[0] == 'prim' and kl.recv[1].endswith(
                        '_get_list_keys'):
                    k = ('each', kl.recv, 0)
                    for bb in kl.bodies:
                        hit = any(e.kind == 'call' and
                                  e.name == '_parse_text' and
                                  contains(e.args[0], k)
                                  for e in bb.events)
                        ck.req(hit or (None if murky(bb) else False),
                               'index/%s/every-key' % side, 'every key '
                               'contributes to the identity of a list entry',
                               '%s: key skipped when %s' % (
                                   kl.loc, facts_text(bb)))
    twice = [b for b in l.bodies if any(
        a[0] == 'in' and v and any(
            e.kind == 'setitem' and e.args[1] == child and
            e.args[0] == a[1] for e in b.events)
        for a, v in b.facts.log)]
    ck.req(not twice, 'index/%s/all-duplicates' % side, 'no two children '
           'with the same identity are accepted', '%s: a second child of the '
           '%s node with the same identity is accepted when %s' % (
               l.loc, side, facts_text(twice[0]) if twice else ''))
    dup = [b for b in l.exits if b.kind == 'raise' and
           b.exc.cls == 'ConfigError' and any(
               a[0] == 'in' and v and contains(a[1], ('tag', child))
               for a, v in b.facts.log)]
    ck.req(bool(dup), 'index/%s/duplicates' % side, 'two entries with the '
           'same identity raise ConfigError',
           '%s: duplicate children of the %s node are not rejected' % (
               l.loc, side))


def _drop(t, x):
    from ..terms import subst
    return subst(t, {x: C('<tag>')})


def _resolve(b, t):
    """Replace container references by their contents."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('list', 'dict', 'set') and len(t) == 2 and \
            t[1] in b.st.cont:
        return ('cont', t[0], tuple(
            (_resolve(b, e.val), e.key, tuple(), e.many)
            for e in b.st.cont[t[1]]))
    return tuple(_resolve(b, x) for x in t)


def _is_key_child(x, child):
    return any(isinstance(s, tuple) and s and s[0] in (
        'childtag', 'find', 'findall') and s[1] == child and
               prims(s[2], '_get_list_keys') for s in subterms(x))


def _peers(ck, prog):
    fn = maybe(prog, 'BaseCalculator', '_get_peers')
    if fn is None:
        ck.open('_get_peers is gone')
        return
    eng = Engine(prog, opaque={'get_schema_node', '_same_text',
                               '_get_list_keys', 'get_xpath', '_parse_text'})
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    ch, par = ('p', a[1]), ('p', a[2])
    for p in ps:
        if p.kind != 'return':
            continue
        pos, neg = _types(p)
        v = _resolve(p, p.value)
        if v[0] != 'cont' or len(v[2]) == 0:
            if not (pos & {'leaf-list', 'list'}):
                continue
            src = [s for s in subterms(v) if isinstance(s, tuple) and s and
                   s[0] in ('findall', 'childtag', 'children')]
            if v[0] in ('findall', 'childtag') and v[1] == par and \
                    v[2] == ('tag', ch) and pos:
                ck.fail('peers/%s' % sorted(pos)[0], '_get_peers returns '
                        'every same-name child for a %s' % sorted(pos)[0])
            else:
                ck.open('_get_peers result for %s' % pos)
            continue
        if 'leaf-list' in pos or 'list' in pos:
            ty = 'leaf-list' if 'leaf-list' in pos else 'list'
            es = p.st.cont[p.value[1]]
            for e in es:
                g = [x for x, vv in e.guard if vv and (
                    prims(x, '_same_text') or prims(x, '_parse_text'))]
                if ty == 'list' and _peer_keys(ck, p, ch, par):
                    continue
                if ty == 'list' and not g:
                    ck.open('_get_peers keys of a list')
                    continue
                ck.req(bool(g), 'peers/%s' % ty, 'peers of a %s entry have '
                       'the same identity' % ty, '_get_peers accepts %s '
                       'without comparing values' % show(e.val))


def _peer_keys(ck, p, ch, par):
    """All keys are compared in a loop; a difference excludes the entry."""
    outer = [l for l in loops(p) if contains(l.recv, par)]
    done = 0
    for l in outer:
        for b in list(l.bodies):
            for kl in loops(b):
                if not prims(kl.recv, '_get_list_keys'):
                    continue
                done += 1
                ck.req(kl.recv[0] != 'slice' or False, 'peers/list/all-keys',
                       'peers of a list entry are compared by all keys',
                       '%s: only some keys are compared: %s' % (
                           kl.loc, show(kl.recv)))
                k = ('each', kl.recv, 0)
                for bb in kl.bodies:
                    fs = [(a, v) for a, v in bb.facts.log if contains(a, k)
                          and (prims(a, '_same_text') or
                               prims(a, '_parse_text') or
                               any(isinstance(s, tuple) and s and
                                   s[0] == 'text' for s in subterms(a)))]
                    yes = [a for a, v in fs if v and contains(a, ch)]
                    ck.req(bool(yes) or (None if murky(bb) else False),
                           'peers/list/each-key', 'a peer of a list entry '
                           'has the same value for every key',
                           '%s: an entry is a peer although a key was not '
                           'found equal (when %s)' % (kl.loc,
                                                      facts_text(bb)))
    return done


# ----------------------------------------------------------------------
def c11(ck, prog, tier):
    ck.part(_parse, ck, prog)
    ck.part(_merge, ck, prog)
    ck.part(_sametext, ck, prog)
    ck.part(_keytypes, ck, prog)
    for cls in ('IdentityRef', 'InstanceIdentifier'):
        ck.part(_ref, ck, prog, cls)
    ck.part(_names, ck, prog)


def _dt_cells(sch, base='basetype'):
    """types a leaf can have: named by the leaf or by a typedef (the built-in
    type is then in an attribute of its own)"""
    d, t = ('get', sch, C('datatype')), ('get', sch, C(base))

    def cell(x, name):
        return [(eq(x, None), name is None), (('truthy', x), name is not None),
                (('prefix', x, 'identityref'), name == 'identityref'),
                (eq(x, 'identityref'), name == 'identityref'),
                (eq(x, 'instance-identifier'),
                 name == 'instance-identifier')]
    out = {}
    for k in ('identityref', 'instance-identifier'):
        # the datatype of an identityref is followed by its base
        out[k] = [c for c in cell(d, k) if k != 'identityref' or
                  c[0] != eq(d, 'identityref')] + cell(t, None)
        out['derived ' + k] = cell(d, 'other') + cell(t, k)
    out['plain'] = cell(d, 'other') + cell(t, None)
    out['none'] = cell(d, None) + cell(t, None)
    return out


def _base(ps, sch):
    """the attribute with the built-in type of derived types"""
    names = {x[2][2] for p in ps for a, v in p.newfacts for x in subterms(a)
             if x and x[0] == 'get' and x[1] == sch and is_c(x[2]) and
             isinstance(cv(x[2]), str)} - {'datatype', 'type', 'is_key'}
    return names.pop() if len(names) == 1 else 'basetype'


REFS = {'identityref': 'IdentityRef',
        'instance-identifier': 'InstanceIdentifier',
        'derived identityref': 'IdentityRef',
        'derived instance-identifier': 'InstanceIdentifier'}


def _conv(p, v, prop, cls, node, to):
    """v is <cls>(device, node[, to_node]).<prop>"""
    if v[0] != 'prim' or v[1].split('.')[-1] != prop:
        return False
    o = v[2][0]
    if o[0] != 'obj' or o[2] != cls:
        return False
    h = p.st.heap
    return h.get((o, 'node')) == node and h.get((o, 'to_node')) == to


def _parse(ck, prog):
    fn = prog.method('BaseCalculator', '_parse_text')
    eng = Engine(prog, opaque={'default', 'converted', 'get_schema_node',
                               'convert_tag'})
    a = [x.arg for x in fn.node.args.args]
    node, par = ('p', a[1]), ('p', a[2]) if len(a) > 2 else None
    ps = eng.run(fn)
    ck.used(eng)
    own = ('prim', GSN, (DEV, node))
    for given in ((False, True) if par else (False,)):
        sch = par if given else own
        for dt, c in _dt_cells(sch, _base(ps, sch)).items():
            cell = c + [(isnone(('text', node)), False)]
            if par:
                cell.append((isnone(par), not given))
            for ty in ('leaf', 'leaf-list'):
                cc = cell + [(eq(('get', sch, C('type')), ty), True)]
                for p in ps:
                    if not consistent(p, cc):
                        continue
                    if dt in REFS:
                        ok = p.kind == 'return' and (
                            _conv(p, p.value, 'default', REFS[dt], node,
                                  NONE) or None
                            if p.value != ('text', node) and
                            p.value != NONE and not _wrongref(
                                p.value, REFS[dt]) else False)
                        if p.kind == 'return' and _conv(
                                p, p.value, 'default', REFS[dt], node, NONE):
                            ok = True
                        ck.req(ok, 'value/%s' % dt, 'the value of a %s %s is '
                               'compared independently of the prefix used' %
                               (dt, ty), '_parse_text gives %s for a %s' % (
                                   show(p.value) if p.value else p.kind,
                                   dt))
                    else:
                        ck.req(p.kind == 'return' and
                               p.value == ('text', node) or (
                                   None if p.kind == 'return' and
                                   contains(p.value, ('text', node)) and
                                   False else False), 'value/plain',
                               'the value of any other %s is its text' % ty,
                               '_parse_text gives %s for a %s of datatype %s'
                               % (show(p.value) if p.value else p.kind, ty,
                                  dt))
    for p in ps:
        if consistent(p, [(isnone(('text', node)), True)]):
            ck.req(p.kind == 'return' and (
                p.value == NONE or p.value == ('text', node)),
                'value/empty', 'a node without text has no value',
                '_parse_text on an empty node: %s' % p.kind)


def _blank(ck, prog):
    """White space inside containers and list entries is no value."""
    fn = prog.method('BaseCalculator', '_parse_text')
    eng = Engine(prog, opaque={'default', 'converted', 'get_schema_node',
                               'convert_tag'})
    a = [x.arg for x in fn.node.args.args]
    node, par = ('p', a[1]), ('p', a[2]) if len(a) > 2 else None
    ps = eng.run(fn)
    ck.used(eng)
    own = ('prim', GSN, (DEV, node))
    for given in ((False, True) if par else (False,)):
        sch = par if given else own
        ty = ('get', sch, C('type'))
        for t in ('container', 'list'):
            cell = [(eq(ty, u), u == t) for u in
                    ('container', 'list', 'leaf', 'leaf-list')]
            cell += _dt_cells(sch, _base(ps, sch))['none'] + [(isnone(('text', node)),
                                               False)]
            if par:
                cell.append((isnone(par), not given))
            for p in ps:
                if not consistent(p, cell) or p.kind != 'return':
                    continue
                if p.value == NONE:
                    ck.ok('the text of a %s is ignored' % t)
                    continue
                isty = any(a[0] in ('eq', 'in') and contains(a, ty)
                           for a, v in p.facts.log)
                ck.req(False if p.value == ('text', node) else None,
                       'value/' + t, 'the text of a %s is ignored' % t,
                       '_parse_text gives %s for a %s: white space in the '
                       'XML makes equal configs different%s' % (
                           show(p.value), t, '' if isty else
                           ' (type not looked at)'))


def _wrongref(v, cls):
    return v[0] == 'prim' and v[2] and v[2][0][0] == 'obj' and \
        v[2][0][2] != cls


def _merge(ck, prog):
    fn = prog.method('BaseCalculator', '_merge_text')
    eng = Engine(prog, opaque={'default', 'converted', 'get_schema_node',
                               'convert_tag'})
    a = [x.arg for x in fn.node.args.args]
    src, dst = ('p', a[1]), ('p', a[2])
    ps = eng.run(fn)
    ck.used(eng)
    sch = ('prim', GSN, (DEV, src))
    sch2 = ('prim', GSN, (DEV, dst))
    base = _base(ps, sch)
    for dt, c in _dt_cells(sch, base).items():
        cell = c + [(isnone(('text', src)), False)] + \
            _dt_cells(sch2, base)[dt]
        for p in ps:
            if not consistent(p, cell):
                continue
            sets = [e for e in p.events if e.kind == 'mut' and
                    e.name == 'set_text' and e.recv == dst]
            if p.kind != 'return' or not sets:
                ck.fail('merge/%s' % dt, '_merge_text leaves the target '
                        'without the value of the source (%s)' % dt)
                continue
            v = sets[-1].args[0]
            if dt in REFS:
                ok = _conv(p, v, 'converted', REFS[dt], src, dst)
                if not ok and not (v == ('text', src) or
                                   v[0] == 'prim' and v[1].endswith(
                                       '.default') or _wrongref(
                                           v, REFS[dt]) or
                                   v[0] == 'prim' and
                                   v[1].endswith('.converted')):
                    ok = None
                ck.req(ok, 'merge/%s' % dt, 'a %s is written with the '
                       'prefixes of the target' % dt,
                       '%s: a %s is written as %s' % (sets[-1].loc, dt,
                                                      show(v)))
            else:
                ck.req(v == ('text', src), 'merge/plain', 'any other value '
                       'is copied as it is', '%s: the text becomes %s' % (
                           sets[-1].loc, show(v)))
    for p in ps:
        if consistent(p, [(isnone(('text', src)), True)]):
            sets = [e for e in p.events if e.kind == 'mut' and
                    e.name == 'set_text' and e.recv == dst]
            ck.req(p.kind == 'return' and bool(sets) and
                   sets[-1].args[0] in (NONE, ('text', src)), 'merge/empty',
                   'an empty source empties the target',
                   '_merge_text keeps the old value when the source is '
                   'empty')


def _sametext(ck, prog):
    fn = prog.method('BaseCalculator', '_same_text')
    eng = Engine(prog, opaque={'_parse_text'})
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    x, y = ('p', a[1]), ('p', a[2])
    for p in ps:
        both = [(isnone(('text', x)), True), (isnone(('text', y)), True)]
        if consistent(p, both):
            t = {}
            for q in path_prims(p, '_parse_text'):
                t[q] = True
            r = truth(p, both + [(isnone(q), True) for q in t], p.value) \
                if p.kind == 'return' else False
            ck.req(r, 'same-text/empty', 'two nodes without value have the '
                   'same value', '_same_text is %s for two empty nodes' % r)
        f = p.facts
        pr = set()
        for q in path_prims(p, '_parse_text'):
            pr.add(q)
        px = [q for q in pr if q[2][1] == x]
        py = [q for q in pr if q[2][1] == y]
        cell = [(isnone(('text', x)), False), (isnone(('text', y)), False)]
        if not consistent(p, cell):
            continue
        if not px or not py:
            raw = contains(p.value, ('text', x)) if p.value else False
            raw = raw or any(contains(at, ('text', x)) and
                             contains(at, ('text', y))
                             for at, v in p.facts.log)
            ck.req(False if raw else None, 'same-text/values',
                   'values are compared after resolving prefixes',
                   '_same_text compares raw text')
            continue
        at = ('eq',) + tuple(sorted((px[0], py[0]), key=repr))
        for v in (True, False):
            if consistent(p, cell + [(at, v)]):
                r = truth(p, cell + [(at, v)], p.value)
                ck.req(r == v if r is not None else None,
                       'same-text/%s' % v, 'nodes are the same exactly when '
                       'their values are', '_same_text is %s when the values '
                       'are %s' % (r, 'equal' if v else 'different'))


def _keytypes(ck, prog):
    """The schema node handed to _parse_text belongs to the parsed node."""
    fn = prog.method('BaseCalculator', '_pair_children')
    eng = Engine(prog, opaque=PRS)
    ps = eng.run(fn)
    ck.used(eng)
    n = 0
    seen = set()

    def walk(path):
        for e in events(path):
            if e.kind == 'call' and e.name == '_parse_text':
                yield e
    for p in ps:
        for e in walk(p):
            x = e.args[0]
            s = e.args[1] if len(e.args) > 1 else e.kw.get('schema_node',
                                                           NONE)
            if (x, s) in seen:
                continue
            seen.add((x, s))
            n += 1
            if s == NONE:
                ck.ok('value parsed with its own schema node')
                continue
            g = prims(s, 'get_schema_node')
            if len(g) != 1 or g[0] != s:
                ck.open('schema node passed to _parse_text: %s' % show(s))
                continue
            y = g[0][2][1]
            iskey = any(isinstance(z, tuple) and z and z[0] in (
                'childtag', 'find', 'findall') for z in subterms(x)) and \
                contains(x, y) and x != y or (
                    _parent_like(x) and _parent_like(y) is None)
            ck.req(not iskey, 'key-value/schema-node', 'the value of a list '
                   'key is interpreted by the data type of the key',
                   '%s: the value of %s is interpreted with the schema node '
                   'of %s (the list), so identityref keys with different '
                   'prefixes are not recognised as the same key' % (
                       e.loc, show(x)[:120], show(y)[:80]))
    if n == 0:
        ck.open('_pair_children does not call _parse_text')


def _parent_like(x):
    """Node below which x was looked up."""
    for z in subterms(x):
        if isinstance(z, tuple) and z and z[0] in ('childtag', 'find',
                                                   'findall'):
            return z[1]
    return None


def _ref(ck, prog, cls):
    fn = maybe(prog, cls, 'parse_prefixed_id')
    if fn is None:
        ck.open('%s.parse_prefixed_id is gone' % cls)
    else:
        eng = Engine(prog, opaque={'namespaces'})
        ps = eng.run(fn, types={'self': cls})
        ck.used(eng)
        a = [x.arg for x in fn.node.args.args]
        idt, node = ('p', a[1]), ('p', a[2])
        nsm = ('nsmap', node)
        for p in ps:
            m = [(at, v) for at, v in p.facts.log if at[0] == 'truthy' and
                 contains(at, idt)]
            if not m:
                continue
            pref = m[0][1]
            known = [v for at, v in p.facts.log if at[0] == 'in' and
                     at[2] == nsm and at[1] != NONE]
            if pref and known and known[-1]:
                if p.kind != 'return' or p.value[0] != 'tup':
                    ck.req(None if p.kind == 'return' else False,
                           cls + '/prefix', 'a known prefix is resolved')
                    continue
                u = p.value[1][0]
                ck.req(u[0] == 'item' and u[1] == nsm, cls + '/prefix',
                       'a prefix is resolved by the namespaces in scope of '
                       'the node', '%s resolves a prefix to %s' % (
                           cls, show(u)))
            elif pref and p.kind == 'return' and p.value[0] == 'tup' and \
                    (known or prims(p.value[1][0], 'namespaces')):
                u = p.value[1][0]
                ck.req(False in known, cls +
                       '/precedence', 'the prefixes in scope of the node '
                       'come before module names', '%s resolves a prefix by '
                       'module name without looking at the namespaces in '
                       'scope of the node first (when %s)' % (
                           cls, facts_text(p)))
                ck.req(True if prims(u, 'namespaces') else None if contains(
                    u, ('attr', ('p', 'self'), 'device')) else False,
                       cls + '/module',
                       'a module name is resolved by the namespaces of the '
                       'device')
            elif not pref and p.kind == 'return' and p.value[0] == 'tup':
                u = p.value[1][0]
                if cls == 'IdentityRef':
                    ck.req(u in (('item', nsm, NONE), ('get', nsm, NONE)) or
                           None if contains(u, nsm) else False,
                           cls + '/default', 'an identity without prefix is '
                           'in the default namespace of the node',
                           '%s resolves an identity without prefix to %s' % (
                               cls, show(u)))
                ck.req(contains(p.value[1][1], idt), cls + '/id',
                       'the local name is kept', 'local name %s' %
                       show(p.value[1][1]))
        bad = [p for p in ps if p.kind == 'raise' and
               p.exc.cls == 'ConfigError']
        ck.req(bool(bad), cls + '/unknown-prefix', 'an unknown prefix raises '
               'ConfigError', '%s accepts an unknown prefix' % cls)
    fn = maybe(prog, cls, 'compose_prefixed_id')
    if fn is None:
        ck.open('%s.compose_prefixed_id is gone' % cls)
        return
    eng = Engine(prog, opaque={'convert_ns', 'namespaces'})
    ps = eng.run(fn, types={'self': cls})
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    url, idt, to = ('p', a[1]), ('p', a[2]), ('p', a[3])
    nurl = ('attr', ('p', 'self'), 'node_url')
    home = ('eq',) + tuple(sorted((nurl, url), key=repr))
    for p in ps:
        if consistent(p, [(isnone(to), True)]):
            if p.kind != 'return':
                ck.fail(cls + '/canonical/raise', '%s: %s' % (cls,
                                                              p.exc.cls))
                continue
            v = p.value
            ck.req(contains(v, idt), cls + '/canonical/id', 'the canonical '
                   'form holds the local name', show(v))
            named = prims(v, 'convert_ns')
            if named:
                c = named[0][2]
                ck.req(c[1] == url and (len(c) < 4 or tuple(c[2:4]) == (
                    C(2), C(0))), cls + '/canonical/module', 'the canonical '
                    'form names the module of the namespace',
                    '%s composes %s' % (cls, show(v)))
            else:
                ck.req(cls == 'IdentityRef' and p.test(home) is True or
                       None if contains(v, url) else
                       cls == 'IdentityRef' and p.test(home) is True,
                       cls + '/canonical/local', 'the module name is left '
                       'out only for an identity of the module of the leaf',
                       '%s composes %s when %s' % (cls, show(v),
                                                   facts_text(p)))
            if p.test(home) is True and cls == 'IdentityRef':
                ck.req(not named, cls + '/canonical/one-form', 'one identity '
                       'has one canonical form', '%s' % show(v))
        if consistent(p, [(isnone(to), False)]):
            if p.kind == 'raise':
                ck.req(p.exc.cls == 'ConfigError', cls + '/target/error',
                       'a namespace unknown to the target raises '
                       'ConfigError')
                continue
            v = p.value
            ck.req(contains(v, idt), cls + '/target/id', 'the converted '
                   'form holds the local name', show(v))
            if contains(v, ('nsmap', to)):
                ck.ok('prefix taken from the target')
            else:
                isdef = any(at[0] == 'eq' and at[2] == NONE and vv and
                            contains(at[1], ('nsmap', to))
                            for at, vv in p.facts.log)
                ck.req(isdef and cls == 'IdentityRef' or
                       (None if contains(v, to) else False),
                       cls + '/target/prefix', 'the prefix is the one the '
                       'target has for the namespace', '%s composes %s when '
                       '%s' % (cls, show(v), facts_text(p)))


def _names(ck, prog):
    """Names within an instance-identifier: each is resolved by its own
    prefix, and only without one it is in the namespace of the name before."""
    fn = maybe(prog, 'InstanceIdentifier', 'convert_str_list')
    if fn is None:
        ck.open('InstanceIdentifier.convert_str_list is gone')
        return
    II = 'InstanceIdentifier.'
    eng = Engine(prog, opaque={II + 'parse_prefixed_id',
                               II + 'compose_prefixed_id'})
    ps = eng.run(fn)
    ck.used(eng)
    me = ('p', 'self')
    node = ('attr', me, 'node')
    seen = {}
    for p in ps:
        for l in loops(p):
            for b in l.bodies:
                facts = [(f, v) for f, v in b.newfacts
                         if not contains_head(f, 'prev')]
                if any(f[0] == 'lt' and f[1] == C(1) and not v
                       for f, v in facts):
                    continue
                for e in b.events:
                    if e.kind != 'call' or e.name != 'compose_prefixed_id':
                        continue
                    own = [x for x in b.events if x.kind == 'call' and
                           x.name == 'parse_prefixed_id']
                    if len(own) != 1 or len(e.args) < 3 or not own[0].args:
                        ck.open('convert_str_list: which name is resolved')
                        continue
                    text = own[0].args[0]
                    pr = ('prim', 'ref.' + II + 'parse_prefixed_id',
                          (me,) + tuple(own[0].args))
                    url, idt = ('item', pr, C(0)), ('item', pr, C(1))
                    ck.req(tuple(own[0].args[1:]) == (node,) or (
                        None if len(own[0].args) != 2 or not decided(
                            own[0].args[1]) else False),
                        'names/scope', 'prefixes are those of the node',
                        'convert_str_list resolves a prefix at %s' %
                        show(own[0].args[-1]))
                    bare = b.facts.test(('eq', url, NONE))
                    seen.setdefault(frozenset(
                        (f, v) for f, v in facts if not contains(f, pr)),
                        set()).add(bare)
                    a = e.args[0]
                    if contains_head(a, 'phi') or contains_head(a, 'hav'):
                        ck.open('convert_str_list: namespace %s' %
                                show(a)[:60])
                    elif a == url:
                        ck.req(bare is not True, 'names/bare', 'a name '
                               'without prefix is in the namespace of the '
                               'name before', 'convert_str_list: a name '
                               'without prefix has no namespace')
                    else:
                        old = contains_head(a, 'prev')
                        ck.req(True if bare is True and old else
                               False if old or a == NONE or is_c(a) else None,
                               'names/own', 'a name with a prefix is resolved '
                               'by it', 'convert_str_list: a name of an '
                               'instance-identifier that has a prefix of its '
                               'own gets the namespace of %s' % show(a)[:80])
                    ck.req(e.args[1] == idt or (
                        False if contains_head(e.args[1], 'prev') or
                        e.args[1] == text else None),
                        'names/id', 'local names are kept',
                        'convert_str_list: the local name is %s' %
                        show(e.args[1])[:80])
                    ck.req(e.args[2] == ('p', 'to_node') or (
                        False if is_c(e.args[2]) or e.args[2] == node
                        else None), 'names/target', 'names are written with '
                        'prefixes of the target node', 'convert_str_list: '
                        'prefixes are those of %s' % show(e.args[2])[:80])
    if not seen:
        ck.open('convert_str_list: no name is converted')
    for sig, vals in seen.items():
        if None in vals:
            ck.open('convert_str_list: names with and without prefix are '
                    'not told apart')
            continue
        ck.req(True in vals, 'names/inherit', 'names without prefix are '
               'accepted', 'convert_str_list: a name without prefix is never '
               'in the namespace of the name before')


def contains_head(t, head):
    return any(x and x[0] == head for x in subterms(t))
