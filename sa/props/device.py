"""The device: schema lookup (C16), operations sent (C21), extraction of
configs from replies (C22), models offered by the device (C26), connection
set-up (C28), conversion of tags and namespaces (C29)."""
import ast

from ..engine import Engine
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show
from .delta import prims, subterms

SELF = ('p', 'self')
NODES = ('attr', SELF, 'nodes')
MODELS = ('attr', SELF, 'models')
TY = C('type')


def heads(t, *names):
    return [s for s in subterms(t) if s[0] in names]


# ----------------------------------------------------------------------
# C16

def c16(ck, prog, tier):
    ck.part(_c16_lookup, ck, prog)
    ck.part(_c16_cache, ck, prog)
    ck.part(_c16_path, ck, prog)
    ck.part(_c16_owner, ck, prog)
    ck.part(_c16_keys, ck, prog)
    ck.part(_c16_writers, ck, prog)


LOOK = {'ModelDevice.get_xpath', 'Composer.path', 'Composer.model_name'}


def _whole_path(p, key, node):
    """The key is made from the complete path of the node."""
    got = prims(key, 'path')
    if not got:
        return None if heads(key, 'obj', 'objof', 'call', 'cont',
                             'list') else False
    for o in got:
        n = p.st.heap.get((o, 'node'))
        if n is not None and n != node:
            return False
    cut = [s for s in heads(key, 'slice', 'item', 'pick')
           if prims(s[2] if s[0] == 'pick' else s[1], 'path')]
    if cut:
        return False
    if key[0] in ('join', 'str', 'prim', 'cont', 'call', 'tup'):
        return True
    return None


def _c16_lookup(ck, prog):
    fn = prog.method('ModelDevice', 'get_schema_node')
    eng = Engine(prog, opaque=LOOK)
    ps = eng.run(fn)
    ck.used(eng)
    node = ('p', [a.arg for a in fn.node.args.args][1])
    many = none = 0
    for p in ps:
        for e in events(p):
            if e.kind == 'setitem' and e.recv == NODES:
                k, v = e.args[0], e.args[1]
                if p.kind == 'return':
                    ck.req(v == p.value or None, 'cache/value',
                           'what is cached is what is returned')
                    if v != p.value and v[0] in ('pick', 'prim') and \
                            p.value[0] in ('pick', 'prim'):
                        ck.fail('cache/value', 'get_schema_node: %s is '
                                'cached but %s is returned' % (
                                    show(v), show(p.value)))
                ck.req(_whole_path(p, k, node), 'cache/key',
                       'the cache key is the whole path of the node',
                       'get_schema_node: cache entry stored under %s, which '
                       'does not identify the complete path of the node '
                       '(%s)' % (show(k), e.loc))
        if p.kind == 'raise':
            if p.exc.cls in ('ModelError', 'ConfigError'):
                # which situation?
                for a, v in p.facts.log:
                    if a[0] == 'len>=' and a[2] in (2, C(2)) and v and \
                            heads(a[1], 'desc'):
                        many += 1
            continue
        v = p.value
        if v == NONE:
            ck.fail('none', 'get_schema_node returns None instead of raising '
                    'ConfigError (when %s)' % facts_text(p))
            continue
        hit = _from_cache(v)
        if hit is not None:
            ck.req(_whole_path(p, hit, node), 'cache/lookup',
                   'a cached node is looked up by the whole path',
                   'get_schema_node: cache looked up by %s, which does not '
                   'identify the complete path of the node' % show(hit))
            continue
        _fresh(ck, p, v, node)
    amb = [p for p in ps if p.kind == 'raise' and p.exc.cls == 'ModelError']
    ck.req(bool(amb) or None, 'ambiguous', 'an ambiguous identifier raises '
           'ModelError')
    mis = [p for p in ps if p.kind == 'raise' and p.exc.cls == 'ConfigError']
    ck.req(bool(mis), 'missing', 'an identifier without schema node raises '
           'ConfigError', 'get_schema_node never raises ConfigError')


def _from_cache(v):
    if v[0] == 'item' and v[1] == NODES:
        return v[2]
    if v[0] in ('call', 'dget', 'get') and NODES in v[1:]:
        return v[2] if v[1] == NODES else None
    if v[0] == 'call' and v[1] == 'get' and v[2] and v[2][0] == NODES:
        return v[2][1]
    return None


def _collection(v):
    """candidate, collection, guards of a selected schema node"""
    if v[0] == 'pick':
        return v[2], v[3]
    if v[0] == 'item' and is_c(v[2]):
        return ('each', v[1], 0), ()
    if v[0] in ('each', 'find'):
        return v, ()
    return None, ()


def _scope(cand):
    x = cand[1] if cand and cand[0] == 'each' else cand
    if x and x[0] in ('desc', 'childtag', 'children', 'findall', 'find',
                      'xpath'):
        return x
    return None


def _fresh(ck, p, v, node):
    cand, guards = _collection(v)
    col = _scope(cand)
    if col is None:
        ck.open('get_schema_node returns %s' % show(v)[:120])
        return
    P = col[1]
    w = {}
    for a, b in p.facts.log:
        if a[0] == 'len>=' and prims(a[1], 'path') and a[2] in (2, C(2)):
            w['deep'] = b
        if a[0] == 'eq' and is_c(a[2]) and cv(a[2]) == 1 and \
                a[1][0] == 'len' and prims(a[1], 'path'):
            w['deep'] = not b
    par = ('parent', node)
    if 'deep' in w:
        if w['deep']:
            good = P[0] == 'prim' and P[1].endswith('.get_schema_node') and \
                P[2][-1] == par
            bad = P[0] == 'attr' and P[2] == 'tree' or \
                P[0] == 'prim' and P[1].endswith('.get_schema_node') and \
                P[2][-1] != par
            ck.req(good or (False if bad else None), 'parent',
                   'a nested node is searched in the schema node of its '
                   'parent', 'get_schema_node: a nested node is searched in '
                   '%s' % show(P))
        else:
            good = P[0] == 'attr' and P[2] == 'tree' and \
                P[1][0] == 'item' and P[1][1] == MODELS and \
                (prims(P[1][2], 'model_name') or None)
            ck.req(bool(good) if good is not None else None, 'root',
                   'a root is searched in the tree of its model',
                   'get_schema_node: a root is searched in %s' % show(P))
    # the tag
    if len(col) > 2:
        ck.req(True if col[2] == ('tag', node) else
               (None if not is_c(col[2]) and col[2][0] != 'call' else None),
               'tag', 'the tag searched is the tag of the node')
    atoms = [(a, b) for a, b in guards]
    # ambiguity is excluded
    one = any(a[0] == 'len>=' and a[2] in (2, C(2)) and not b and
              contains(a[1], col) for a, b in p.facts.log) or \
        any(a[0] == 'eq' and b and a[1][0] == 'len' and a[2] == C(1)
            for a, b in p.facts.log)
    ck.req(one or (None if col[0] != 'desc' else False), 'unique',
           'a node is returned only if it is the only candidate',
           'get_schema_node returns %s without making sure that there is no '
           'second candidate' % show(v)[:100])
    cty = ('get', cand, TY)
    for t in ('choice', 'case'):
        excl = [b for a, b in atoms if a == eq(cty, t)]
        seen = any(contains(a, cty) for a, b in atoms)
        ok = False in excl or any(a == eq(cty, u) and b and u != t
                                  for a, b in atoms
                                  for u in ('leaf', 'list', 'container'))
        if not ok and seen and not any(a[0] == 'eq' and a[1] == cty
                                       for a, b in atoms):
            ok = None
        ck.req(ok, 'candidate/' + t, 'a %s node is never the schema node of '
               'a config node' % t, 'get_schema_node may return a schema '
               'node of type %s' % t)
    if col[0] != 'desc':
        return
    # only choice and case nodes may lie between
    lp = [l for l in loops(p) if contains(l.recv, col) or l.recv == col]
    kept = []
    for l in lp:
        for b in l.bodies:
            fs = set(b.newfacts)
            if all(g in fs or b.facts.test(g[0]) == g[1] for g in atoms):
                kept.append(b)
    if not kept:
        ck.open('selection of the candidates')
        return
    strict = len(col) > 4 or any(
        a[0] == 'lt' and b for a, b in atoms) or any(
            a[0] == 'eq' and P in a[1:] and not b for a, b in atoms)
    unk = any(a[0] not in ('eq', 'lt') for a, b in atoms)
    ck.req(strict or (None if unk or not any(
        a[0] == 'lt' for a, b in atoms) else False), 'self',
        'the parent itself is not a candidate for its own child',
        'get_schema_node: a parent with the tag of its child is taken for '
        'the child itself')
    anc = ('anc', cand, NONE)
    for a, b in atoms:
        if a[0] == 'len>=' and not b and not is_c(a[1]) and \
                _anc(p, kept, a[1]):
            ck.fail('depth', 'get_schema_node accepts a child only if less '
                    'than %s nodes lie above it: nested choices are not '
                    'transparent' % (a[2] if isinstance(a[2], int) else
                                     show(a[2])))
        if a[0] == 'lt' and b:
            l, r = [_ids(p, kept, x) for x in a[1:]]
            if l and r:
                ck.req(l == 'parent' and r == 'cand', 'subset',
                       'the ancestors of the parent are among the ancestors '
                       'of the candidate', 'get_schema_node: ancestors of '
                       'parent and candidate compared the wrong way round')
    found = None
    for b in kept:
        ls = [l for l in loops_within(b)]
        for l in ls:
            if l.recv[0] == 'bin' and l.recv[1] == '-':
                ck.req(contains(l.recv[2], anc) or not heads(
                    l.recv[2], 'anc') and None, 'between',
                    'the nodes between parent and candidate are looked at',
                    'get_schema_node: the nodes between parent and '
                    'candidate are not looked at (%s)' % l.loc)
            ex = [x for x in l.exits if x.kind != 'raise']
            tested = {a[1] for x in list(ex) + list(l.bodies)
                      for a, vv in x.newfacts
                      if a[0] == 'eq' and a[1][0] == 'get' and
                      a[1][2] == TY}
            if not tested or not ex:
                continue
            found = True
            _between(ck, l, ex, tested, P)
    if found is None:
        mention = any(a[0] not in ('lt',) and heads(a, 'anc')
                      for a, b in atoms)
        blind = any(murky(b) for b in kept) or mention or any(
            l.recv[0] not in ('anc', 'desc') and not l.exits and
            l.bodies and any(heads(a, 'get') for x in l.bodies
                             for a, v in x.newfacts)
            for b in kept for l in loops_within(b))
        if blind or unk:
            ck.open('which nodes may lie between parent and candidate')
        else:
            ck.fail('between', 'get_schema_node accepts any descendant with '
                    'the tag, not only children through choice and case '
                    'nodes')


def _anc(p, kept, s):
    if heads(s, 'anc'):
        return True
    return any(x[0] in ('set', 'list') and x[1] in st.cont and
               any(heads(e.val, 'anc') for e in st.cont[x[1]])
               for st in [b.st for b in kept] + [p.st] for x in subterms(s)
               if len(x) > 1)


def _ids(p, kept, s):
    for st in [b.st for b in kept] + [p.st]:
        if s[0] == 'set' and s[1] in st.cont:
            v = [e.val for e in st.cont[s[1]]]
            x = [h for e in v for h in heads(e, 'anc')]
            if len(x) == 1:
                return 'cand' if x[0][1][0] == 'each' else 'parent'
    return None


def _between(ck, l, ex, tested, P):
    for t in tested:
        n = t[1]
        for ty in ('choice', 'case', 'container', 'list'):
            for isp in (False, True):
                cell = [(eq(t, u), u == ty) for u in
                        ('choice', 'case', 'container', 'list')]
                atom = ('eq', n, P)
                at2 = ('eq', P, n)
                used = any(a in (atom, at2) for x in list(ex) + list(l.bodies)
                           for a, v in x.newfacts)
                if not used and isp:
                    continue
                cell += [(atom, isp), (at2, isp)] if used else []
                mine = [x for x in ex if any(a[1] == t for a, v in x.newfacts
                                             if a[0] == 'eq')]
                rej = [x for x in mine if consistent(x, cell) and
                       not (is_c(x.value) and cv(x.value))
                       ] if mine else []
                if isp or ty in ('choice', 'case'):
                    ck.req(not rej, 'transparent/' + ty,
                           'a %s between parent and child is transparent'
                           % ty, 'get_schema_node rejects a child below a '
                           '%s (%s)' % ('parent' if isp else ty, l.loc))
                else:
                    ck.req(bool(rej), 'opaque/' + ty,
                           'a %s between parent and candidate rules the '
                           'candidate out' % ty, 'get_schema_node accepts a '
                           'descendant below a %s as child (%s)' % (
                               ty, l.loc))


def _c16_cache(ck, prog):
    fn = prog.method('ModelDevice', 'load_model')
    eng = Engine(prog, opaque={'ModelCompiler.compile', 'Model.__init__',
                               'ModelDevice.models_loadable',
                               'ModelDevice.roots'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            continue
        st = [e for e in p.events if e.kind == 'setitem' and
              e.recv == MODELS]
        if not st:
            for e in events(p):
                if e.kind == 'call' and e.recv == MODELS:
                    st.append(e)
            if not st:
                ck.fail('register', 'load_model returns without registering '
                        'the model (when %s)' % facts_text(p))
            else:
                ck.open('registration of a loaded model')
            continue
        e = st[-1]
        m = e.args[1]
        ck.req((e.args[0] == ('attr', m, 'name')) or None, 'register/name',
               'the model is registered under its own name')
        if e.args[0] == ('p', 'model'):
            ck.fail('register/name', 'load_model registers a model read from '
                    'a file under the file name')
        ck.req(m == p.value or None, 'register/value',
               'the model returned is the model registered')
        known = ('in', ('attr', m, 'name'), MODELS)
        if not consistent(p, [(known, True)]):
            continue
        res = None
        i = p.events.index(e)
        for x in p.events[:i] + p.events[i + 1:]:
            if x.kind == 'setattr' and x.name == 'nodes' and x.recv == SELF:
                res = _purged(p, x.args[0], m)
            elif x.kind == 'call' and x.recv == NODES and x.name == 'clear':
                res = True
            elif x.kind == 'loop' and any(
                    y.kind in ('delitem', 'call') and y.recv == NODES
                    for b in x.bodies for y in b.events):
                res = res or _purged_loop(x, m)
        if res is None:
            touched = any(y.recv == NODES or y.kind == 'setattr' and
                          y.name == 'nodes' for y in events(p)
                          if y.kind != 'loop')
            if touched or murky(p):
                ck.open('purge of the cache when a model is reloaded')
                continue
            ck.fail('purge', 'load_model: reloading a model leaves schema '
                    'nodes of the old model in the cache (when %s)'
                    % facts_text(p))
        elif res == 'open':
            ck.open('purge of the cache when a model is reloaded')
        else:
            ck.req(res is True, 'purge', 'reloading a model drops the cached '
                   'schema nodes of the old one', 'load_model: %s' % (res,))


def _purged(p, v, m):
    if v[0] != 'dict' or v[1] not in p.st.cont:
        if v[0] == 'cont' and not v[2]:
            return True
        return 'open'
    es = p.st.cont[v[1]]
    if not es:
        return True
    return _stay(es, m)


def _key_only(a):
    """a fact about the key of a cached node and constants alone"""
    def go(t):
        if t == NODES or not isinstance(t, tuple):
            return True
        if t[0] in ('attr', 'p', 'list', 'set', 'dict', 'cont', 'prim'):
            return False
        return all(go(x) for x in t[1:])
    return go(a)


def _stay(es, m):
    name = ('attr', m, 'name')
    for guard in [g for e in es for g in guardcases(e.guard)]:
        if not guard or all(_key_only(a) for a, b in guard):
            return 'cached schema nodes of the old model are kept'
        out = False
        und = False
        for a, b in guard:
            if a[0] == 'eq' and name in a[1:]:
                o = a[1] if a[2] == name else a[2]
                if prims(o, 'roots') or prims(o, 'model_name'):
                    out = out or not b
                    if b:
                        return 'only the stale schema nodes are kept'
                else:
                    und = True
            elif contains(a, name):
                und = True
            else:
                und = True
        if not out:
            return 'open' if und else \
                'cached schema nodes of the old model are kept'
    return True


def _purged_loop(l, m):
    name = ('attr', m, 'name')
    for b in l.bodies:
        gone = any(y.kind in ('delitem', 'call') and y.recv == NODES
                   for y in b.events)
        own = [v for a, v in b.newfacts if a[0] == 'eq' and name in a[1:]]
        if not own:
            return True if gone and len(l.bodies) == 1 else 'open'
        if own[0] and not gone:
            return 'cached schema nodes of the old model are kept'
    return True


def _c16_path(ck, prog):
    fn = prog.method('Composer', 'path')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    node = ('attr', SELF, 'node')
    for p in ps:
        if p.kind != 'return':
            continue
        v = p.value
        if v[0] != 'list' or v[1] not in p.st.cont:
            ck.open('Composer.path: %s' % show(v)[:100])
            continue
        es = p.st.cont[v[1]]
        if len(es) != 2:
            ck.open('Composer.path: parts of the path')
            continue
        a, b = es
        if b.val == ('tag', node) and not b.many:
            ck.ok('the path ends with the node itself')
        elif a.val == ('tag', node):
            ck.fail('path/order', 'Composer.path starts with the node itself '
                    'instead of the root')
            continue
        else:
            ck.open('the path ends with the node itself')
        if not a.many or not heads(a.val, 'anc') or a.val[0] != 'tag':
            ck.open('the path holds the tags of all ancestors')
            continue
        ck.req(not a.guard, 'path/all', 'no ancestor is left out',
               'Composer.path leaves out ancestors (when %s)' % (a.guard,))
        s = a.src
        if s is None:
            ck.open('order of the path')
            continue
        rev = [h for h in heads(s, 'reversed')]
        cut = heads(s, 'slice')
        if len(rev) == 1 and len(cut) == 1:
            c = cut[0]
            lo, hi = (C(1), NONE) if contains(c[1], rev[0]) or \
                c[1] == rev[0] else (NONE, C(-1))
            ck.req(c[2:4] == (lo, hi), 'path/skip', 'exactly the config '
                   'element is left out of the path', 'Composer.path leaves '
                   'out %s of the ancestors' % show(c)[:80])
        elif not rev and cut:
            ck.fail('path/order', 'Composer.path does not start at the root')
        elif rev and not cut:
            ck.fail('path/skip', 'Composer.path includes the config element')
        else:
            ck.open('order of the path')


def _c16_owner(ck, prog):
    fn = prog.method('Composer', 'model_name')
    eng = Engine(prog, opaque={'Composer.path', 'ModelDevice.roots',
                               'ModelDevice.namespaces'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind == 'raise':
            ck.req(p.exc.cls == 'ModelMissing', 'model/error',
                   'an unknown root raises ModelMissing',
                   'Composer.model_name raises %s' % p.exc.cls)
            continue
        v = p.value
        k = None
        if v[0] == 'item' and prims(v[1], 'roots'):
            k = v[2]
        elif prims(v, 'namespaces'):
            ck.fail('model/name', 'Composer.model_name: name of a model that '
                    'is not loaded is returned (%s)' % show(v)[:100])
            continue
        if k is None:
            if v == NONE:
                ck.fail('model/none', 'Composer.model_name returns None for '
                        'an unknown root')
                continue
            ck.open('Composer.model_name: %s' % show(v)[:100])
            continue
        first = k[0] == 'item' and prims(k[1], 'path') and k[2] == C(0)
        wrong = k[0] == 'item' and prims(k[1], 'path') and is_c(k[2]) and \
            k[2] != C(0)
        ck.req(bool(first) or (False if wrong else None), 'model/root',
               'the model is found by the root of the node',
               'Composer.model_name: model looked up by %s' % show(k))
    # roots of the device
    fn = prog.method('ModelDevice', 'roots')
    eng = Engine(prog, opaque={'Model.roots'})
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        v = p.value
        if v[0] != 'dict' or v[1] not in p.st.cont:
            ck.open('ModelDevice.roots')
            continue
        es = p.st.cont[v[1]]
        ck.req(bool(es) or None, 'roots', 'the roots of every model are known')
        for e in es:
            mod = [s for s in subterms(e.val) if s[0] == 'each' and
                   contains(s, MODELS)]
            if e.guard:
                ck.fail('roots/all', 'ModelDevice.roots leaves out roots '
                        '(when %s)' % ' and '.join(
                            ('' if b else 'not ') + show(a)[:80]
                            for a, b in e.guard))
            own = e.val[0] == 'attr' and e.val[2] == 'name' or \
                e.val[0] == 'item' and mod
            ck.req(bool(own) or None, 'roots/name', 'a root is mapped to the '
                   'name of its model')
        for l in distinct_loops([p]):
            if l.recv[0] == 'slice':
                ck.fail('roots/all', 'ModelDevice.roots looks at part of the '
                        'roots only (%s)' % l.loc)
    fn = prog.method('Model', 'roots')
    eng = Engine(prog)
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        v = p.value
        if v[0] == 'list' and v[1] in p.st.cont:
            for e in p.st.cont[v[1]]:
                ck.req((e.val[0] == 'tag') or None, 'model-roots',
                       'a root is the tag of a child of the tree')
                if e.guard:
                    ck.fail('model-roots/all', 'Model.roots leaves out roots')
        else:
            ck.open('Model.roots')
    # is_config, schema_node
    fn = prog.method('Composer', 'is_config')
    eng = Engine(prog)
    ct = '{%s}config' % NC
    for p in eng.run(fn):
        if p.kind != 'return' or not is_c(p.value):
            ck.open('Composer.is_config')
            continue
        fs = [(a, b) for a, b in p.newfacts if a[0] == 'eq' and
              a[1][0] == 'tag' and a[2] == C(ct)]
        if not fs:
            ck.open('Composer.is_config')
            continue
        a, b = fs[0]
        top = a[1][1]
        if top[0] == 'item' and top[1][0] == 'anc':
            ck.req(top[2] == C(-1), 'is_config', 'the topmost ancestor '
                   'decides whether a node is a config node',
                   'Composer.is_config looks at %s' % show(top))
        ck.req(b == cv(p.value), 'is_config/value', 'a node below a config '
               'element is a config node, any other is not',
               'Composer.is_config is wrong when %s' % facts_text(p))
    fn = prog.method('Composer', 'schema_node')
    eng = Engine(prog, opaque={'Composer.is_config',
                               'ModelDevice.get_schema_node'})
    node = ('attr', SELF, 'node')
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        v = p.value
        memo = ('attr', SELF, '_schema_node')
        if v == memo:
            ck.req(p.facts.test(isnone(memo)) is False or None,
                   'schema_node/memo', 'the remembered schema node is set')
            continue
        isc = [b for a, b in p.newfacts if prims(a, 'is_config')]
        if v == node:
            ck.req(False in isc or None if True not in isc else False,
                   'schema_node/schema', 'a schema node is its own schema '
                   'node', 'Composer.schema_node returns a config node')
        elif v[0] == 'prim' and v[1].endswith('.get_schema_node'):
            ck.req((v[2][-1] == node) and (False not in isc),
                   'schema_node/config', 'the schema node of a config node '
                   'is looked up', 'Composer.schema_node looks up %s'
                   % show(v))
        else:
            ck.open('Composer.schema_node: %s' % show(v)[:80])


def _c16_keys(ck, prog):
    fn = prog.method('Composer', 'keys')
    eng = Engine(prog, opaque={'Composer.schema_node'})
    ps = eng.run(fn)
    ck.used(eng)
    sch = ('prim', 'composer.Composer.schema_node', (SELF,))
    ty = ('get', sch, TY)
    for p in ps:
        if p.kind != 'return':
            continue
        lst = p.facts.test(eq(ty, 'list'))
        nok = p.facts.test(isnone(('get', sch, C('key'))))
        v = p.value
        es = p.st.cont.get(v[1]) if v[0] == 'list' else None
        if lst is False or nok:
            ck.req((es == () or es == []) if es is not None else None,
                   'keys/none', 'a node that is no keyed list has no keys',
                   'Composer.keys: keys of a node without key statement')
            continue
        if es is not None and not es and lst:
            ck.fail('keys/empty', 'Composer.keys: no keys for a list (when '
                    '%s)' % facts_text(p))
            continue
        src = [s for e in events(p) for a in (e.args or ())
               for s in subterms(a) if s == ('get', sch, C('key'))] or \
            [1 for l in distinct_loops([p])
             if contains(l.recv, ('get', sch, C('key')))]
        ck.req(bool(src) or None, 'keys/statement', 'the keys are those of '
               'the key statement')
        # separators: any white space (RFC 7950)
        for e in events(p):
            if e.kind != 'call' or e.name is None:
                continue
            arg = ('get', sch, C('key'))
            if e.name == 'split' and e.recv == arg:
                a = [x for x in e.args if x != NONE]
                ck.req(not a, 'keys/separator', 'keys are separated by any '
                       'white space', 'Composer.keys splits the key '
                       'statement at %s only: keys separated by other white '
                       'space are lost' % (a and show(a[0])))
            if e.name in ('re.split', 're.findall') and arg in e.args:
                pat = e.args[0]
                ok = None
                if is_c(pat):
                    ok = '\\s' in cv(pat) or '\\S' in cv(pat)
                    if e.name == 're.findall' and not ok:
                        ok = None
                ck.req(ok, 'keys/separator', 'keys are separated by any '
                       'white space', 'Composer.keys splits the key '
                       'statement at %s only: keys separated by other white '
                       'space are lost' % show(pat))
        bad = [l for l in distinct_loops([p]) if l.recv[0] in (
            'slice', 'sorted', 'reversed', 'setof')]
        ret = v[0] in ('sorted', 'reversed', 'setof', 'slice')
        ck.req(not bad and not ret, 'keys/order', 'all keys are given in the '
               'order of the key statement', 'Composer.keys: keys reordered '
               'or left out (%s)' % (bad[0].loc if bad else show(v)))
        if es:
            for e in es:
                g = [x for x in flatguard(e.guard) if not (
                    x[0][0] == 'eq' and x[0][2] == NONE or
                    x[0][0] == 'truthy' or x[0][0] == 'eq' and
                    heads(x[0], 'call'))]
                ck.req(not g or None, 'keys/all', 'no key is left out')
                tag = e.val[0] == 'tag' and contains(e.val, sch)
                ck.req(tag or None, 'keys/tag', 'a key is given as the tag '
                       'of a child of the list')


def _c16_writers(ck, prog):
    """Nothing else writes to the cache or to the loaded models."""
    allowed = {'nodes': {'get_schema_node', 'load_model', '__init__'},
               'models': {'load_model', '__init__'}}
    n = 0
    for f in prog.functions():
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for y in ts:
                    z = y.value if isinstance(y, ast.Subscript) else y
                    if isinstance(z, ast.Attribute) and z.attr in allowed:
                        t = z
            if t is None:
                continue
            if getattr(f.cls, 'name', None) != 'ModelDevice' and not (
                    isinstance(t.value, ast.Attribute) and
                    t.value.attr == 'device'):
                continue
            n += 1
            if getattr(f.cls, 'name', None) == 'ModelDevice':
                ck.ok('%s written in %s' % (t.attr, f.qual))
            else:
                ck.fail('writer/' + t.attr, '%s of a device is written by '
                        '%s' % (t.attr, f.qual))
    ck.req(n > 0 or None, 'writers', 'writers of the cache were found')


# ----------------------------------------------------------------------
# C21

OPS = ('retrieve.Get', 'retrieve.GetConfig', 'edit.EditConfig', 'lock.Lock')
KW = ('p', 'kwargs')
ARGS = ('p', 'args')
CAND = C('urn:ietf:params:netconf:capability:candidate:1.0')
WRUN = C('urn:ietf:params:netconf:capability:writable-running:1.0')
ACCESS = C('access')


def c21(ck, prog, tier):
    for op in OPS:
        ck.part(_c21_op, ck, prog, op)
    ck.part(_c21_name, ck, prog)
    ck.part(_c21_reply, ck, prog, 'take_notification')


def _ext(op):
    return ('ext', 'ncclient.operations.' + op)


def _run_op(ck, prog, op):
    fn = prog.method('ModelDevice', 'execute')
    eng = Engine(prog, opaque={'ModelDevice.models_loaded',
                               'ModelDevice.roots', 'ModelDevice._get_ns'})
    O = _ext(op)
    ass = [(('eq', ('call', 'type', (O,)), ('ext', 'builtins.str')), False),
           (('isinst', O, 'str'), False)]
    for o in OPS:
        if o != op:
            ass += [(('eq', O, _ext(o)), False), (('eq', _ext(o), O), False)]
    a = [x.arg for x in fn.node.args.args]
    kw = fn.node.args.kwarg.arg
    va = fn.node.args.vararg.arg
    if (kw, va) != ('kwargs', 'args'):
        ck.open('execute: names of the variable arguments')
    ps = eng.run(fn, args={a[1]: O}, assume=ass)
    ck.used(eng)
    return O, ps


def _sends(p):
    return [e for e in p.events if e.kind == 'call' and e.name == 'execute'
            and e.recv == SELF]


def _given(p):
    """was argument models given on this path? (None: never looked at)"""
    for a, v in p.facts.log:
        if a[0] == 'eq' and a[2] == NONE and _is_models(a[1]):
            return not v
        if a == ('in', C('models'), KW):
            return v
    return None


def _is_models(t):
    return contains(t, C('models')) and contains(t, KW)


def _c21_op(ck, prog, op):
    O, ps = _run_op(ck, prog, op)
    n = 0
    for p in ps:
        snd = _sends(p)
        if p.kind == 'raise':
            if snd:
                ck.fail('sent/' + p.exc.cls, 'execute raises %s after the '
                        'request was sent' % p.exc.cls)
            elif op in OPS[:2] and p.exc.cls not in ('ModelMissing',
                                                     'ValueError'):
                ck.open('execute raises %s' % p.exc.cls)
            continue
        if len(snd) != 1:
            ck.req(len(snd) < 2 and None, 'sent', 'exactly one request is '
                   'sent', 'execute sends %d requests' % len(snd))
            continue
        n += 1
        e = snd[0]
        ck.req(e.args[:1] == (O,), 'operation/' + op, 'the operation asked '
               'for is the operation sent', 'execute(%s) sends %s' % (
                   op, show(e.args[0]) if e.args else 'nothing'))
        ck.req((e.kw or {}).get('**') == KW or None, 'kwargs/' + op,
               'keyword arguments are passed on')
        fil = [x for x in p.events if x.kind == 'setitem' and x.recv == KW]
        if op in OPS[:2]:
            g = _given(p)
            if g is None:
                ck.fail('models/' + op, 'execute(%s): argument models is not '
                        'looked at (when %s)' % (op, facts_text(p)))
            elif g:
                _filtered(ck, p, op, fil)
            else:
                ck.req(not fil, 'nofilter/' + op, 'without models nothing '
                       'is filtered', 'execute(%s) changes %s although no '
                       'models are given' % (op, [show(x.args[0])
                                                  for x in fil]))
        if op == OPS[1]:
            _source(ck, p, e, fil)
        elif op == OPS[2]:
            _edit(ck, p, e, fil)
        else:
            ck.req(e.args[1:] == (('star', ARGS),) or (
                None if len(e.args) == 2 and e.args[1][0] == 'star' else
                False), 'args/' + op, 'positional arguments are passed on',
                'execute(%s) sends arguments %s' % (
                    op, [show(x) for x in e.args[1:]]))
            if op == OPS[3]:
                ck.req(not fil, 'kwargs/other', 'other operations get '
                       'exactly the given arguments', 'execute(%s) sets '
                       'argument %s' % (op, [show(x.args[0]) for x in fil]))
        _stamped(ck, p, e)
    if not n:
        ck.open('execute(%s): nothing is sent' % op)


def _filtered(ck, p, op, fil):
    # loaded?
    loaded = None
    for a, v in p.facts.log:
        if not prims(a, 'models_loaded') or not _is_models(a) or \
                prims(a, 'roots'):
            continue
        if a[0] == 'truthy' and a[1][0] == 'bin' and a[1][1] == '-':
            if prims(a[1][2], 'models_loaded'):
                loaded = loaded or False
            elif not v:
                loaded = True
            else:
                loaded = loaded or False
        elif a[0] == 'in' and v or a[0] == 'truthy' and not v:
            loaded = True
    for l in loops(p):
        for b in l.bodies:
            if any(prims(a, 'models_loaded') for a, v in b.newfacts) and \
                    _is_models(l.recv) and not prims(l.recv, 'roots'):
                loaded = True
    if loaded is None and not any(prims(a, 'models_loaded')
                                  for a, v in p.facts.log):
        loaded = False
    ck.req(loaded, 'missing/' + op, 'a model that is not loaded raises '
           'ModelMissing before anything is sent', 'execute(%s) sends a '
           'request for models that were not checked to be loaded' % op)
    fs = [x for x in fil if x.args[0] == C('filter')]
    if not fs:
        ck.req(None if murky(p) else False, 'filter/' + op, 'argument filter '
               'is built from the models', 'execute(%s) sends no filter '
               'although models are given (when %s)' % (op, facts_text(p)))
        return
    f = fs[-1].args[1]
    if f[0] != 'elem':
        ck.open('execute(%s): filter %s' % (op, show(f)[:80]))
        return
    ck.req(f[2] == C('{%s}filter' % NC), 'filter/tag', 'the filter is a '
           'netconf filter', 'the filter element is %s' % show(f))
    ty = p.st.eattr.get((f, C('type')))
    ck.req(ty in (C('subtree'),) or (None if ty is None and murky(p) else
                                     False), 'filter/type',
           'the filter is a subtree filter', 'the type of the filter is %s'
           % (ty and show(ty)))
    # which roots go into the filter?
    root = None
    for l in loops(p):
        if prims(l.recv, 'roots') and l.recv[0] not in ('cont',):
            r = l.recv
            if r[0] == 'dictitems_':
                root, own = ('item', ('each', r, 0), C(0)), \
                    ('item', ('each', r, 0), C(1))
            elif r[0] == 'prim':
                root = ('each', r, 0)
                own = ('item', r, root)
            else:
                continue
            break
    if root is None:
        ck.open('execute(%s): roots in the filter' % op)
        return
    adds = [x for x in events(p) if x.kind == 'newelem' and
            x.name == 'SubElement' and x.args[0] == f]
    ck.req(any(root in x.args for x in adds) or (False if adds and all(
        is_c(x.args[1]) for x in adds) else None), 'filter/roots',
        'every selected root is put into the filter')

    def accept(b):
        if any(x.kind == 'newelem' and root in x.args
               for x in events(b) if x.kind != 'loop'):
            return True
        return any(y.val == root and not y.many
                   for es in b.st.cont.values() for y in es)
    want = {'read-write': True, 'read-only': op == OPS[0],
            'write-only': False}
    acc = {a[1] for b in l.bodies for a, v in b.newfacts
           if a[0] == 'eq' and a[1][0] == 'get' and a[1][2] == ACCESS}
    mem = {a for b in l.bodies for a, v in b.newfacts
           if a[0] in ('eq', 'in') and _is_models(a) and
           contains(a, own)}
    if l.exh is False or any(b.kind != 'raise' for b in l.exits):
        ck.fail('roots/all', 'execute(%s) stops before all roots were looked '
                'at (%s)' % (op, l.loc))
    for b in l.bodies:
        if accept(b):
            ok = any(b.facts.test(m) for m in mem)
            ck.req(ok or (None if mem or any(
                _is_models(a) for a, v in b.newfacts) else False),
                'roots/own', 'only roots of the given models are requested',
                'execute(%s) requests roots of other models (when %s)' % (
                    op, facts_text(b)))
            for x in acc:
                ck.req((contains(x, own) and contains(x, root)) or None,
                       'roots/node', 'the access of the root itself decides')
    if not acc:
        ck.req(None if any(murky(b) for b in l.bodies) else False,
               'roots/access', 'roots are chosen by access', 'execute(%s) '
               'requests roots regardless of their access' % op)
        return
    for ac, w in sorted(want.items()):
        for m in ([True, False] if mem else [True]):
            cell = [(eq(x, ac), True) for x in acc] + \
                [(y, m) for y in mem]
            bs = [b for b in l.bodies if consistent(b, cell)]
            if not bs:
                continue
            got = {accept(b) for b in bs}
            if m and w:
                ck.req(got == {True} or (None if True in got else False),
                       'roots/%s/%s' % (op, ac), 'a %s root of a given '
                       'model is requested' % ac, 'execute(%s) leaves out '
                       '%s roots (%s)' % (op, ac, l.loc))
            else:
                ck.req(True not in got, 'roots/%s/%s' % (op, ac),
                       'a %s root is not requested by %s' % (ac, op),
                       'execute(%s) requests %s roots%s (%s)' % (
                           op, ac, '' if m else ' of other models', l.loc))
    # nothing to ask for
    emp = [(a, v) for a, v in p.facts.log if a[0] in ('truthy', 'len>=') and
           contains(a, root) and a[1][0] == 'cont']
    ck.req(any(v for a, v in emp) or (None if not emp else False),
           'roots/none', 'without any matching root ValueError is raised',
           'execute(%s) sends an empty filter' % op)
    if not emp and not murky(p):
        ck.fail('roots/none', 'execute(%s) does not make sure that there is '
                'a root to ask for: an empty filter is sent' % op)


def _source(ck, p, e, fil):
    none = p.facts.test(('truthy', ARGS)) is False and \
        p.facts.test(('in', C('source'), KW)) is False
    some = p.facts.test(('truthy', ARGS)) or \
        p.facts.test(('in', C('source'), KW))
    run = C('running') in e.args[1:] or any(
        x.args == (C('source'), C('running')) for x in fil)
    other = any(is_c(x) and x != C('running') for x in e.args[1:]) or any(
        x.args[0] == C('source') and is_c(x.args[1]) and not run for x in fil)
    raw = e.args[1:] == (('star', ARGS),) and not run
    if other:
        ck.fail('source/default', 'execute(get_config) sends %s as source '
                'when none is given' % [show(x) for x in e.args[1:]])
        return
    if none:
        ck.req(run or (None if not raw else False), 'source/default',
               'get_config reads running if no source is given',
               'execute(get_config) sends %s although no source is given'
               % [show(x) for x in e.args[1:]])
    elif some:
        ck.req(raw or (None if not run and not is_c(e.args[-1]) else False),
               'source/given', 'a given source is not replaced',
               'execute(get_config) sends %s although a source is given '
               '(when %s)' % ([show(x) for x in e.args[1:]], facts_text(p)))
    elif run:
        ck.fail('source/given', 'execute(get_config) replaces a given source '
                'by running (when %s)' % facts_text(p))
    else:
        d = [a for a, v in p.facts.log if contains(a, ARGS) or
             contains(a, C('source'))]
        ck.req(None if d or not raw else False, 'source/default',
               'get_config reads running if no source is given',
               'execute(get_config) has no default source')


def _edit(ck, p, e, fil):
    first = ('item', ARGS, C(0))
    isc = p.facts.test(('isinst', first, 'Config'))
    ele = ('attr', first, 'ele')
    raw = e.args[1:] == (('star', ARGS),)
    conv = any(contains(x, ele) for x in e.args) or any(
        x.kind == 'setitem' and ele in x.args for x in p.events)
    have = p.facts.test(('truthy', ARGS))
    if isc:
        ck.req(conv and not raw or (
            False if raw or e.args[1:] and not conv and not murky(p) else
            None), 'edit/config',
               'a Config is sent as its edit-config element',
               'execute(edit_config) sends a Config object as it is')
        rest = any(x[0] == 'star' for x in e.args[1:]) or any(
            contains(x, ('slice', ARGS, C(1), NONE)) for x in e.args)
        ck.req(rest or None, 'edit/rest', 'further arguments are kept')
        if not rest and len(e.args) == 2 and e.args[1] == ele:
            ck.fail('edit/rest', 'execute(edit_config) drops the arguments '
                    'that follow a Config')
    elif isc is False or have is False:
        ck.req(raw or (None if not conv else False), 'edit/other',
               'anything else is sent unchanged', 'execute(edit_config) '
               'treats an argument that is no Config as one')
    elif have:
        ck.fail('edit/config', 'execute(edit_config): a Config is not '
                'recognised (when %s)' % facts_text(p))
    cap = [t[2] for t in (a for a, v in p.facts.log) if t[0] == 'in' and
           t[1] in (CAND, WRUN)]
    tg = [x for x in fil if x.args[0] == C('target')]
    giv = p.facts.test(('in', C('target'), KW))
    ca = wr = None
    for c in set(cap):
        ca = p.facts.test(('in', CAND, c)) if ca is None else ca
        wr = p.facts.test(('in', WRUN, c)) if wr is None else wr
    if giv:
        ck.req(not tg, 'edit/target', 'a given target is kept',
               'execute(edit_config) replaces the given target')
    elif ca is False and wr:
        ck.req(any(x.args[1] == C('running') for x in tg) or (
            None if giv is None else False), 'edit/default',
            'running is edited if it is the only choice',
            'execute(edit_config) does not edit running although the '
            'device offers nothing else')
        if tg and giv is None:
            ck.fail('edit/target', 'execute(edit_config) does not look for a '
                    'given target')
    elif ca or wr is False:
        ck.req(not tg, 'edit/nodefault', 'otherwise the default target is '
               'left alone', 'execute(edit_config) sets target %s (when %s)'
               % ([show(x.args[1]) for x in tg], facts_text(p)))
    elif tg:
        ck.fail('edit/nodefault', 'execute(edit_config) sets target %s (when '
                '%s)' % ([show(x.args[1]) for x in tg], facts_text(p)))
    else:
        ck.open('default target of edit_config')


def _stamped(ck, p, e):
    """The reply is returned and carries its namespaces."""
    rep = [s for s in subterms(p.value) if s[0] in ('call', 'prim') and
           'execute' in str(s[1])] or (
               [p.value] if p.value[0] in ('call', 'prim') else [])
    if p.value == NONE:
        ck.fail('reply', 'execute does not return the reply')
        return
    if not rep or rep[0] != p.value:
        ck.open('what execute returns')
        return
    r = p.value
    for cls, root in (('RPCReply', '_root'), ('Notification', '_root_ele')):
        isr = [v for a, v in p.facts.log if a[0] == 'isinst' and a[1] == r and
               cls in str(a[2])]
        if True not in isr:
            continue
        st = [x for x in p.events if x.kind == 'setattr' and
              x.recv == r and x.name == 'ns']
        good = any(prims(x.args[0], '_get_ns') and
                   contains(x.args[0], ('attr', r, root)) for x in st)
        ck.req(good or (None if st and False else False), 'reply/ns',
               'the namespaces of the reply are set on the reply',
               'the namespaces of a %s are not set from its root' % cls)


def _c21_reply(ck, prog, name):
    fn = prog.lookup('ModelDevice', name)
    if fn is None:
        ck.open('%s is gone' % name)
        return
    eng = Engine(prog, opaque={'ModelDevice._get_ns'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            continue
        snd = [e for e in p.events if e.kind == 'call' and e.name == name]
        if len(snd) != 1:
            ck.open(name)
            continue
        e = snd[0]
        for k in ('block', 'timeout'):
            v = (e.kw or {}).get(k)
            pos = [x.arg for x in fn.node.args.args]
            if k in pos:
                ck.req(v == ('p', k) or ('p', k) in e.args or (
                    False if v is not None or k not in (e.kw or {}) else
                    None), name + '/' + k, '%s is passed on' % k,
                    '%s ignores argument %s' % (name, k))
        r = p.value
        if r == NONE:
            ck.fail(name, '%s does not return the notification' % name)
            continue
        for cls, root in (('RPCReply', '_root'),
                          ('Notification', '_root_ele')):
            isr = [v for a, v in p.facts.log if a[0] == 'isinst' and
                   a[1] == r and cls in str(a[2])]
            if True not in isr:
                continue
            st = [x for x in p.events if x.kind == 'setattr' and
                  x.recv == r and x.name == 'ns']
            ck.req(any(prims(x.args[0], '_get_ns') and
                       contains(x.args[0], ('attr', r, root)) for x in st),
                   name + '/ns', 'the namespaces of a notification are set',
                   '%s does not set the namespaces of a %s' % (name, cls))


def _c21_name(ck, prog):
    """operation given by name"""
    fn = prog.method('ModelDevice', 'execute')
    eng = Engine(prog, opaque={'ModelDevice.models_loaded',
                               'ModelDevice.roots', 'ModelDevice._get_ns'})
    a = [x.arg for x in fn.node.args.args]
    o = ('p', a[1])
    ty = ('eq', ('call', 'type', (o,)), ('ext', 'builtins.str'))
    tab = ('item', ('ext', 'ncclient.manager.OPERATIONS'), o)
    ass = [(ty, True), (('isinst', o, 'str'), True)]
    for x in OPS:
        ass += [(('eq', tab, _ext(x)), False), (('eq', _ext(x), tab), False)]
    ps = eng.run(fn, assume=ass)
    ck.used(eng)
    n = 0
    for p in ps:
        for e in _sends(p):
            n += 1
            ck.req(e.args[:1] == (tab,) or (False if e.args[:1] == (o,)
                                            else None), 'name',
                   'an operation given by name is looked up in the '
                   'operations of ncclient', 'execute sends %s for an '
                   'operation given by name' % show(e.args[0]))
        if p.kind == 'raise':
            ck.req(p.exc.cls == 'ValueError' or None, 'name/unknown',
                   'an unknown operation raises ValueError')
    if not n:
        ck.open('operations given by name')


# ----------------------------------------------------------------------
# C22

def c22(ck, prog, tier):
    ck.part(_c22, ck, prog)


def _c22(ck, prog):
    fn = prog.method('ModelDevice', 'extract_config')
    eng = Engine(prog, opaque={'Config.__init__',
                               'ModelDevice.get_schema_node'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            continue
        new = [e for e in p.events if e.kind == 'new' and e.name == 'Config']
        if len(new) != 1:
            ck.open('extract_config: construction of the config')
            continue
        e = new[0]
        kw = dict(e.kw or {})
        names = ['device', 'config', 'validate', 'remove_deprecated']
        init = prog.lookup('Config', '__init__')
        if init is not None:
            names = [x.arg for x in init.node.args.args][1:]
        for i, v in enumerate(e.args):
            kw.setdefault(names[i], v)
        pr = [x.arg for x in fn.node.args.args]
        ck.req(SELF in kw.values(), 'device', 'the config belongs to this '
               'device', 'extract_config builds a config of another device')
        ck.req(('p', pr[1]) in kw.values(), 'reply', 'the config is built '
               'from the reply', 'extract_config does not use the reply')
        ck.req(kw.get('validate', TRUE) == TRUE, 'validate', 'the config of '
               'a reply is validated', 'extract_config builds a config '
               'without validation')
        if 'remove_deprecated' in pr:
            ck.req(kw.get('remove_deprecated') == ('p', 'remove_deprecated'),
                   'deprecated', 'remove_deprecated is passed on',
                   'extract_config ignores remove_deprecated')
        obj = p.value
        ck.req(obj[0] in ('obj', 'objof') and 'Config' in obj or None,
               'value', 'the config is returned')
        if obj == NONE:
            ck.fail('value', 'extract_config does not return the config')
            continue
        top = ('attr', obj, 'ele')
        _c22_walk(ck, p, top)


def _c22_walk(ck, p, top):
    ls = [l for l in loops(p) if l.recv[0] == 'children' and
          l.recv[1] == top or l.recv == top]
    des = [l for l in distinct_loops([p]) if l.recv[0] == 'desc' or
           heads(l.recv, 'desc')]
    if not ls:
        if des or murky(p) or loops(p):
            ck.open('extract_config: walk over the config')
        else:
            ck.fail('walk', 'extract_config does not look for read-only '
                    'nodes')
        return
    ls = [l for l in ls if any(
        a[0] == 'eq' and a[1][0] == 'get' and a[1][2] == ACCESS
        for b in list(l.bodies) + list(l.exits) for a, v in b.newfacts)] or ls
    l = ls[0]
    x = ('each', l.recv, 0)
    if l.exh is False or any(b.kind != 'raise' for b in l.exits):
        ck.fail('walk/all', 'extract_config stops before all children were '
                'looked at (%s)' % l.loc)
    acc = {a[1] for b in l.bodies for a, v in b.newfacts
           if a[0] == 'eq' and a[1][0] == 'get' and a[1][2] == ACCESS}
    if not acc:
        ck.req(None if any(murky(b) for b in l.bodies) else False, 'access',
               'read-only nodes are found', 'extract_config does not look at '
               'the access of a node')
        return
    for t in acc:
        ck.req(t[1][0] == 'prim' and
               prims(t[1], 'get_schema_node') == [SELF] and
               t[1][2][-1] == x or (
                   False if any(s[0] == 'parent' for s in subterms(t)) else
                   None), 'access/node',
               'the schema node of the child itself decides',
               'extract_config decides by the access of %s, not of the node '
               'itself' % show(t[1])[:120])
    def rm(b):
        return any(e.kind == 'mut' and e.name == 'remove' and e.args and
                   same(e.args[0], x) for e in events(b) if e.kind != 'loop')
    defer = [m for m in loops(p) if m is not l and m.recv[0] == 'cont']
    if defer and not any(rm(b) for b in l.bodies):
        ck.open('extract_config: removal of read-only nodes')
        return
    rec = [e for b in l.bodies for e in b.events if e.kind == 'call' and
           any(same(y, x) for y in e.args) and e.name != 'get_schema_node']
    names = {e.name for e in rec}
    for ac in ('read-only', 'read-write', 'write-only'):
        for kids in (True, False):
            cell = [(eq(t, ac), True) for t in acc] + [(('truthy', x), kids)]
            for a in (('len>=', x, 1), ('len>=', ('children', x, 0), 1)):
                cell.append((a, kids))
            bs = [b for b in l.bodies if consistent(b, cell)]
            for b in bs:
                gone = rm(b)
                if ac == 'read-only':
                    ck.req(gone or (None if murky(b) else False),
                           'read-only', 'a read-only node is removed',
                           'extract_config keeps a read-only node (when %s)'
                           % facts_text(b))
                else:
                    ck.req(not gone, 'keep', 'a %s node is kept' % ac,
                           'extract_config removes a %s node (when %s)' % (
                               ac, facts_text(b)))
                    if kids:
                        down = any(e.kind == 'call' and e.name in names and
                                   any(same(y, x) for y in e.args)
                                   for e in b.events)
                        ck.req(down or (None if murky(b) or any(
                            z.recv[0] in ('children', 'desc')
                            for z in loops(b)) else False), 'descend',
                            'the children of a node that is kept are looked '
                            'at', 'extract_config does not look below a '
                            'node (when %s)' % facts_text(b))
