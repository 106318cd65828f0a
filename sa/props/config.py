"""Properties of Config and ConfigDelta objects (config.py)."""
import ast

from ..engine import Engine
from ..pairs import describe, DEV, GSN
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, Facts, contains, cv, is_c, show, \
    subterms
from ..walk import WalkFn, Undecided, is_children, rec_fn

SCHEMA = {'ModelDevice.get_schema_node', 'get_xpath', 'Composer.keys',
          'Composer.is_config'}
SELF = ('p', 'self')
ELE = ('attr', SELF, 'ele')
ATTR_NAMES = {OP: 'operation', INSERT: 'insert', VALUE: 'value', KEY: 'key'}


def calls(p, name, deep=False):
    return [e for e in events(p, deep) if e.kind == 'call' and
            e.name == name]


def raises(*cls):
    return lambda b: b.kind == 'raise' and b.exc.cls in cls


def walker(ck, prog, cls, hint, entry, opaque=SCHEMA, node=1):
    fn = rec_fn(prog, cls, hint, entry)
    return WalkFn(ck, prog, fn, node, opaque, mutators={fn.name}), fn


def recursed(fn, x):
    return lambda b: any(e.kind == 'call' and e.fn is not None and
                         e.fn.qual == fn.qual and e.args and
                         same(e.args[0], x) for e in events(b))


# ----------------------------------------------------------------------
# C12 validation
def c12(ck, prog, tier):
    ck.part(_c12_node, ck, prog)
    ck.part(_c12_keys, ck, prog)
    ck.part(_c12_entry, ck, prog)
    ck.part(_c12_roots, ck, prog)


def clean(w):
    """no edit-config attribute on the child"""
    c = []
    for a in EDIT_ATTRS:
        t = ('get', w.x, a)
        c += [(isnone(t), True)]
    return c


def sizes(w, was, now):
    """was/now: the child has children before/after the recursion"""
    c = [(('truthy', w.x), was), (('truthy', ('children', w.x, 0)), was)]
    if was:
        c.append((('truthy', ('after', w.x, 1)), now))
    return c


def _c12_node(ck, prog):
    w, fn = walker(ck, prog, 'Config', '_validate_node', 'validate_config')
    bad = raises('ConfigError')
    w.every('unknown-schema', 'a node without schema node raises ConfigError',
            [(isnone(w.s), True)] + clean(w), bad)
    for a in EDIT_ATTRS:
        t = ('get', w.x, a)
        for was in (True, False):
            cell = [(isnone(w.s), False), (isnone(t), False),
                    (('truthy', t), True)]
            cell += [(isnone(('get', w.x, b)), True) for b in EDIT_ATTRS
                     if b != a]
            cell += sizes(w, was, True)
            w.every('attribute/%s' % ATTR_NAMES[a],
                    "a %s child with attribute '%s' raises ConfigError" % (
                        'non-empty' if was else 'childless', ATTR_NAMES[a]),
                    cell, bad)
    for ty in ('container', 'list'):
        for st in ('current', 'obsolete'):
            cell = w.cell(ty, clean(w) + sizes(w, True, True), status=st)
            w.every('recursion', 'a non-empty %s child is validated '
                    'recursively' % ty, cell, recursed(fn, w.x))
    rm = w.removed
    dep = ('attr', SELF, 'remove_deprecated')
    for ty in ('container', 'list', 'leaf', 'leaf-list'):
        for was, now in ((True, True), (True, False), (False, False)):
            if ty in ('leaf', 'leaf-list') and was:
                continue
            if ty == 'leaf':
                pres = [None]
            elif ty == 'container':
                pres = [True, False]
            else:
                pres = [None]
            for pr in pres:
                base = clean(w) + sizes(w, was, now)
                kw = {} if pr is None else {
                    'presence': 'true' if pr else False}
                what = '%s%s child%s' % (
                    '' if pr is None else 'presence ' if pr else 'np-', ty,
                    '' if now else ' without children')
                w.every('obsolete', 'an obsolete %s is removed' % what,
                        w.cell(ty, base, status='obsolete', **kw), rm)
                w.every('deprecated/asked', 'a deprecated %s is removed '
                        'when asked' % what,
                        w.cell(ty, base + [(('truthy', dep), True)],
                               status='deprecated', **kw), rm)
                empty = not now and (ty == 'list' or ty == 'container' and
                                     not pr)
                for st in ('deprecated', None, 'current'):
                    cell = w.cell(ty, base + [(('truthy', dep), False)],
                                  status=st, **kw)
                    if empty:
                        w.every('empty/' + ty, 'an empty %s is removed' %
                                what, cell, rm)
                    else:
                        w.never('kept/' + ty, 'a %s (status %s) is not '
                                'removed' % (what, st), cell, rm)
                        w.never('accepted', 'a %s (status %s) is accepted' % (
                            what, st), cell, raises('ConfigError'))
    # the walk visits every child
    ls = [l for l in w.loops if is_children(l.recv, w.node)]
    early = [b for l in ls for b in l.exits if b.kind != 'raise']
    ck.req(not early, 'early-exit', '%s visits every child' % fn.qual,
           early and '%s stops before the last child: when %s' % (
               fn.qual, facts_text(early[0])))


def key_object(p, t):
    """the node whose keys a term enumerates: Composer(dev, X).keys -> X"""
    while t[0] in ('reversed', 'sorted', 'setof', 'listof'):
        t = t[1]
    if t[0] == 'prim' and t[1] == 'composer.Composer.keys':
        o = t[2][0]
        n = p.st.heap.get((o, 'node'))
        return n
    return None


def collected(p, X, k):
    """the missing keys were collected and the collection is empty"""
    for a, v in p.facts.log:
        if v or a[0] != 'truthy' or a[1][0] != 'cont':
            continue
        for val, key, g, many in a[1][2]:
            if val == k and len(g) == 1 and g[0][1] and \
                    noep(g[0][0]) == noep(isnone(('find', X, k, 0))):
                return True
    return False


def _c12_keys(ck, prog):
    w, fn = walker(ck, prog, 'Config', '_validate_node', 'validate_config')
    what = 'a list entry lacking any of its keys raises ConfigError'
    seen = [False]
    bad = []

    def scan(p, X, sX):
        """does path p check every key of X?  True/False/None"""
        if not consistent(p, [(isnone(sX), False),
                              (eq(('get', sX, C('type')), 'list'), True)]):
            return True
        if p.kind == 'raise':
            return True
        res = False
        for e in p.events:
            if e.kind == 'loop':
                X2 = key_object(p, e.recv)
                if X2 is not None and same(X2, X):
                    k = ('each', e.recv, 0)
                    ok = e.exh is not False
                    for b in list(e.bodies) + list(e.exits):
                        cands = [s for a, v in b.newfacts
                                 for s in subterms(a)
                                 if s[0] in ('find', 'findall', 'childtag')
                                 and same(s[1], X) and contains(s, k)]
                        if b.kind == 'raise':
                            if b.exc.cls != 'ConfigError':
                                ok = False
                            continue
                        if b.kind == 'break':
                            ok = False
                            continue
                        if not cands:
                            ok = False
                        f = b.facts.clone()
                        for s in cands:
                            atom = isnone(s) if s[0] == 'find' else \
                                ('truthy', s)
                            if f.test(atom) is (s[0] == 'find') or \
                                    f.test(atom) is None:
                                ok = False
                    if ok:
                        return True
                    if collected(p, X, k):
                        return True
                    if any(not en.many and contains(en.val, k)
                           for b in e.bodies for es in b.st.cont.values()
                           for en in es):
                        res = None
                        continue
                    bad.append((e.loc, facts_text(p)))
                    res = False
                elif any(isinstance(s, tuple) and s[0] == 'prim' and
                         s[1] == 'composer.Composer.keys'
                         for s in subterms(e.recv)):
                    if e.recv[0] in ('slice', 'item'):
                        bad.append((e.loc, facts_text(p)))
                        continue
                    res = None
        if res is False and not bad:
            for a, v in p.facts.log:
                if any(isinstance(s, tuple) and s[0] == 'prim' and
                       s[1] == 'composer.Composer.keys'
                       for s in subterms(a)):
                    return None
        return res

    root = None
    # the node itself
    res = []
    for p in w.paths:
        if p.kind != 'return':
            continue
        sn = ('prim', GSN, (DEV, w.node))
        # paths on which the node is known to be the document root
        isroot = any(v and a[0] == 'eq' and contains(a, ('tag', w.node)) and
                     ('getroot' in repr(a) or 'config' in repr(a))
                     for a, v in p.facts.log)
        if any(not v and a[0] == 'truthy' and a[1][0] == 'prim' and
               a[1][1] == 'composer.Composer.is_config'
               for a, v in p.facts.log):
            continue
        if isroot or p.facts.test(('is', w.node, ELE)) is True or \
                p.facts.test(('eq', w.node, ELE)) is True:
            continue
        res.append(scan(p, w.node, sn))
    if res and all(r is True for r in res):
        return ck.ok('%s: %s' % (fn.qual, what))
    # or each child
    cres = []
    cbad = list(bad)
    for l in w.loops:
        if not is_children(l.recv, w.node):
            continue
        for b in bodies(l, w.cell('list', clean(w) + sizes(w, True, True))):
            cres.append(scan(b, w.x, w.s))
    if cres and all(r is True for r in cres):
        return ck.ok('%s: %s' % (fn.qual, what))
    if bad:
        return ck.fail('keys', '%s: expected: %s; the loop at %s does not '
                       'reject every missing key (when %s)' % (
                           (fn.qual, what) + bad[0]))
    if None in res or None in cres:
        return ck.open(what)
    ck.fail('keys', '%s: expected: %s; no check of the keys on the path '
            'where %s' % (fn.qual, what, facts_text(
                [p for p in w.paths if p.kind == 'return'][-1])))


def _c12_entry(ck, prog):
    fn = prog.method('Config', '__init__')
    wname = rec_fn(prog, 'Config', '_validate_node', 'validate_config').name
    tname = rec_fn(prog, 'Config', '_trim_defaults', 'trim_defaults').name
    eng = Engine(prog, opaque={'NetconfParser', 'NetconfParser.ele', wname,
                               tname, 'Config.roots'} | SCHEMA)
    ps = eng.run(fn)
    ck.used(eng)
    val = ('p', 'validate')
    for p in ps:
        if p.kind == 'return':
            ele = p.st.heap.get((SELF, 'ele'))
            v = [e for e in p.events if e.kind == 'call' and e.name == wname]
            r = [e for e in p.events if e.kind == 'prop' and
                 e.name == 'roots']
            t = [e for e in p.events if e.kind == 'call' and e.name == tname]
            ck.req(bool(t) and (not t or t[0].args and t[0].args[0] == ele),
                   'ctor/trim', 'Config() trims the defaults of its content',
                   'Config.__init__: a path does not trim the defaults of '
                   'self.ele (when %s)' % facts_text(p))
            if consistent(p, [(('truthy', val), True)]):
                ck.req(bool(v) and v[0].args and v[0].args[0] == ele,
                       'ctor/validate', 'Config() validates its content',
                       'Config.__init__: with validate=True a path does not '
                       'validate self.ele (when %s)' % facts_text(p))
                ck.req(bool(r), 'ctor/roots', 'Config() checks its roots',
                       'Config.__init__: with validate=True a path does not '
                       'check the roots (when %s)' % facts_text(p))
    d = dict(zip([a.arg for a in fn.node.args.args][::-1],
                 fn.node.args.defaults[::-1]))
    dv = d.get('validate')
    ck.req(isinstance(dv, ast.Constant) and dv.value is True,
           'ctor/default', 'validation is on by default',
           'Config.__init__: parameter validate defaults to %s' % (
               ast.unparse(dv) if dv is not None else 'nothing'))
    cfg = ('p', 'config')
    for p in ps:
        cell = [(isnone(cfg), False), (('isinst', cfg, 'RPCReply'), False),
                (('isinst', cfg, 'str'), False),
                (('isinst', cfg, 'Config'), False),
                (('iselement', cfg), False)]
        iss = [(a, False) for a, v in p.facts.log
               if a[0] in ('isinst', 'iselement') or
               'iselement' in repr(a)[:40]]
        if consistent(p, cell + iss):
            ck.req(p.kind == 'raise' and p.exc.cls == 'TypeError',
                   'ctor/type', 'Config() of anything else raises TypeError',
                   'Config.__init__ accepts a config of another type (when '
                   '%s)' % facts_text(p))
    fn = prog.method('Config', 'validate_config')
    eng = Engine(prog, opaque={wname, 'Config.roots'} | SCHEMA)
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        ck.req(any(e.kind == 'call' and e.name == wname and e.args and
                   e.args[0] == ELE for e in p.events),
               'validate_config/tree', 'validate_config validates the tree',
               'Config.validate_config has a path that does not validate '
               'self.ele (when %s)' % facts_text(p))
        ck.req(any(e.kind == 'prop' and e.name == 'roots' for e in p.events),
               'validate_config/roots', 'validate_config checks the roots',
               'Config.validate_config has a path that does not check the '
               'roots (when %s)' % facts_text(p))
    ck.used(eng)


def _c12_roots(ck, prog):
    fn = prog.method('Config', 'roots')
    w = WalkFn(ck, prog, fn, ELE, {'ModelDevice.roots',
                                   'ModelDevice.namespaces'})
    tag = ('tag', w.x)
    known = ('in', tag, ('attr', DEV, 'roots'))
    alts = set()
    for l in w.loops:
        for b in list(l.bodies) + list(l.exits):
            for a, v in b.newfacts:
                if a[0] == 'in' and a[1] == tag and \
                        contains(a[2], DEV) and 'roots' in repr(a[2]):
                    alts.add(a)
                if a[0] == 'eq' and 'roots' in repr(a) and contains(a, tag):
                    alts.add(a)
    ins = [a for a in alts if a[0] == 'in']
    if not ins:
        return ck.open('%s: membership in device.roots not recognised' %
                       fn.qual)
    w.every('roots/unknown', 'a root that belongs to no loaded model raises '
            'ConfigError or ModelMissing', [(a, False) for a in ins],
            raises('ConfigError', 'ModelMissing'))
    w.never('roots/known', 'a root of a loaded model is accepted',
            [(a, True) for a in ins], lambda b: b.kind == 'raise')


# ----------------------------------------------------------------------
# C13 default trimming
def c13(ck, prog, tier):
    ck.part(_c13_node, ck, prog)
    ck.part(_c13_leaf_list, ck, prog)
    ck.part(_c13_entry, ck, prog)


def _c13_node(ck, prog):
    w, fn = walker(ck, prog, 'Config', '_trim_defaults', 'trim_defaults')
    rm = w.removed
    dflt, text = w.sget('default'), ('text', w.x)

    def same_default(v):
        a, b = sorted((dflt, text), key=repr)
        c = [(('eq', a, b), v), (isnone(dflt), False)]
        return c

    for ty in ('container', 'list'):
        w.every('recursion', 'a non-empty %s child is trimmed recursively' %
                ty, w.cell(ty, sizes(w, True, True)), recursed(fn, w.x))
    for ty, pr in (('container', True), ('container', False), ('list', None)):
        kw = {} if pr is None else {'presence': 'true' if pr else False}
        for was, now in ((True, True), (True, False), (False, False)):
            what = '%s%s child%s' % ('' if pr is None else 'presence '
                                     if pr else 'np-', ty,
                                     '' if now else ' without children')
            cell = w.cell(ty, sizes(w, was, now), **kw)
            if not now and not pr:
                w.every('empty/' + ty, 'a %s is removed' % what, cell, rm)
            else:
                w.never('kept/' + ty, 'a %s is kept' % what, cell, rm)
    empty = sizes(w, False, False)
    w.every('leaf/default', 'a leaf equal to its default is removed',
            w.cell('leaf', empty + same_default(True), is_key=None), rm)
    w.never('leaf/other', 'a leaf with another value is kept',
            w.cell('leaf', empty + same_default(False), is_key=None), rm)
    w.never('leaf/none', 'a leaf without default is kept',
            w.cell('leaf', empty, default=None, is_key=None), rm)
    for v in (True, False):
        w.never('leaf/key', 'a list key is kept%s' % (
            ' even with its default value' if v else ''),
            w.cell('leaf', empty + same_default(v), is_key='true'), rm)
    w.never('leaf-list/none', 'a leaf-list without default is kept',
            w.cell('leaf-list', empty, default=None), rm)
    for ty in ('container', 'list', 'leaf', 'leaf-list'):
        w.never('accepted', 'a known %s is not rejected' % ty,
                w.cell(ty, empty), raises('ConfigError'))
    ls = [l for l in w.loops if is_children(l.recv, w.node)]
    early = [b for l in ls for b in l.exits if b.kind != 'raise']
    ck.req(not early, 'early-exit', '%s visits every child' % fn.qual,
           early and '%s stops before the last child: when %s' % (
               fn.qual, facts_text(early[0])))


def list_of_values(t, w):
    """t enumerates the text of every child of the node with the child's
    tag"""
    if t[0] != 'cont' or len(t[2]) != 1:
        return False
    v, k, g, m = t[2][0]
    if g or v[0] != 'text' or v[1][0] != 'each':
        return False
    r = noep(v[1][1])
    return r in (('childtag', noep(w.node), noep(('tag', w.x)), 0),
                 ('findall', noep(w.node), noep(('tag', w.x)), 0))


def _c13_leaf_list(ck, prog):
    w, fn = walker(ck, prog, 'Config', '_trim_defaults', 'trim_defaults')
    dflt = w.sget('default')
    order = w.sget('ordered-by')

    def splits(t):
        return any(isinstance(s, tuple) and s[0] in ('prim', 'meth', 'call')
                   and contains(s, dflt) for s in subterms(t))

    def kind(a):
        """what a comparison fact compares: 'list', 'set' or None"""
        if a[0] != 'eq':
            return None
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x[0] == 'cont' and list_of_values(x, w) and contains(y, dflt):
                ws = (x[1] in ('set', 'frozenset'),
                      y[0] == 'setof' or y[0] == 'cont' and y[1] == 'set')
                if y[0] == 'cont' and y[1] in ('list', 'tuple'):
                    ws = (ws[0], False)
                return 'set' if any(ws) else \
                    'sorted' if x[0] == 'sorted' else 'list'
        return None

    def marks(b):
        """tag marked for removal on the path: True/False/None"""
        res = None
        for e in b.events:
            if e.kind == 'setitem' and e.args and contains(e.args[0], w.x):
                v = e.args[1] if len(e.args) > 1 else None
                if v is not None:
                    t = truth_of(b, v)
                    res = t if t is not None else res
            elif e.kind in ('mut', 'call', 'contmut') and e.name in (
                    'add', 'append') and e.args and \
                    contains(e.args[0], w.x):
                res = True
            elif e.kind == 'loop':
                for bb in e.bodies:
                    if any(x.kind == 'mut' and x.name == 'remove'
                           for x in bb.events):
                        res = True
        return res

    n = {'user': 0, 'system': 0}
    for l in w.loops:
        if not is_children(l.recv, w.node):
            continue
        for o, ov in (('user', 'user'), ('system', 'system'),
                      ('system', None)):
            cell = w.cell('leaf-list', sizes(w, False, False) +
                          [(isnone(dflt), False), (eq(order, ov), True)])
            for b in bodies(l, cell):
                if b.kind == 'raise':
                    continue
                facts = [(kind(a), v) for a, v in b.newfacts]
                facts = [(k, v) for k, v in facts if k]
                if not facts:
                    m = marks(b)
                    if m is True:
                        ck.fail('leaf-list/unchecked', '%s: a leaf-list is '
                                'marked as default without comparing its '
                                'values with the defaults (when %s)' % (
                                    fn.qual, facts_text(b)))
                    continue
                k, v = facts[-1]
                n[o] += 1
                m = marks(b)
                want = 'list' if o == 'user' else 'set'
                ck.req(k == want, 'leaf-list/%s' % o,
                       'values of a %s-ordered leaf-list are compared with '
                       'the defaults as a %s' % (o, want),
                       '%s compares the values of a leaf-list ordered by %s '
                       'as a %s (when %s)' % (fn.qual, o, k, facts_text(b)))
                ck.req(None if m is None and v else bool(m) == v,
                       'leaf-list/mark',
                       'a leaf-list is trimmed exactly when its values are '
                       'the defaults',
                       '%s: a leaf-list whose values %s the defaults is %s '
                       '(when %s)' % (fn.qual, 'are' if v else 'are not',
                                      'marked for removal' if m else 'kept',
                                      facts_text(b)))
    for o in n:
        if not n[o]:
            ck.open('%s: no comparison of a %s-ordered leaf-list found' % (
                fn.qual, o))
    # the marked ones are removed, all of them, and only them
    hit = 0
    for p in w.paths:
        if p.kind != 'return':
            continue
        for l in loops(p):
            if is_children(l.recv, w.node):
                continue
            for b in list(l.bodies) + list(l.exits):
                inner = [x for x in loops(b) if any(
                    e.kind == 'mut' and e.name == 'remove'
                    for bb in x.bodies for e in bb.events)]
                for il in inner:
                    hit += 1
                    ck.req(il.exh is not False and not il.exits and
                           il.recv[0] in ('childtag', 'findall') and
                           same(il.recv[1], w.node) and
                           all(any(e.kind == 'mut' and e.name == 'remove' and
                                   e.args[0] == ('each', il.recv, 0)
                                   for e in bb.events) for bb in il.bodies),
                           'leaf-list/all', 'every entry of a default '
                           'leaf-list is removed',
                           '%s: not every entry of a leaf-list with default '
                           'values is removed (loop at %s)' % (fn.qual,
                                                               il.loc))
            bs = list(l.bodies) + list(l.exits)
            for b in bs:
                one = [e for e in b.events if e.kind == 'mut' and
                       e.name == 'remove' and e.args and
                       e.args[0][0] == 'find']
                if one:
                    hit += 1
                    ck.fail('leaf-list/all', '%s: only one entry of a '
                            'leaf-list with default values is removed (%s)'
                            % (fn.qual, one[0].loc))

            def takes(b):
                return any(e.kind == 'mut' and e.name == 'remove'
                           for e in events(b))
            if l.recv[0] == 'cont' and l.recv[1] == 'dict' and \
                    any(contains(en[1] or (), w.x) for en in l.recv[2]) and \
                    any(takes(b) for b in bs):
                plain = []
                for b in bs:
                    m = [v for a, v in b.newfacts if a[0] == 'truthy' and
                         a[1][0] == 'item' and contains(a[1], w.x)]
                    if m:
                        ck.req(takes(b) == m[-1], 'leaf-list/marked',
                               'exactly the marked leaf-lists are removed',
                               '%s: a leaf-list %s as equal to its defaults '
                               'is %s (loop at %s)' % (
                                   fn.qual, 'marked' if m[-1] else
                                   'not marked', 'removed' if takes(b) else
                                   'kept', l.loc))
                    else:
                        plain.append(b)
                if plain and all(takes(b) for b in plain) and \
                        any(en[0] == FALSE for en in l.recv[2]):
                    ck.fail('leaf-list/marked', '%s: leaf-lists that differ '
                            'from their defaults are removed too (loop at '
                            '%s)' % (fn.qual, l.loc))
    if not hit:
        ck.open('%s: removal of default leaf-lists not recognised' % fn.qual)


def truth_of(p, v):
    f = p.facts.clone()
    if is_c(v):
        return bool(cv(v))
    if v[0] in ('eq', 'truthy', 'in', 'isinst'):
        return f.test(v)
    return f.test(('truthy', v))


def _c13_entry(ck, prog):
    tname = rec_fn(prog, 'Config', '_trim_defaults', 'trim_defaults').name
    fn = prog.method('Config', 'trim_defaults')
    eng = Engine(prog, opaque={tname} | SCHEMA)
    for p in eng.run(fn):
        if p.kind == 'return':
            ck.req(any(e.kind == 'call' and e.name == tname and e.args and
                       e.args[0] == ELE for e in p.events),
                   'entry', 'trim_defaults trims the whole tree',
                   'Config.trim_defaults has a path that does not process '
                   'self.ele (when %s)' % facts_text(p))
    ck.used(eng)


# ----------------------------------------------------------------------
# C14 filtering
def c14(ck, prog, tier):
    ck.part(_c14_node, ck, prog)
    ck.part(_c14_entry, ck, prog)


def _c14_node(ck, prog):
    fn = rec_fn(prog, 'Config', '_node_filter', 'filter')
    w = WalkFn(ck, prog, fn, 1, SCHEMA, mutators={fn.name})
    params = [a.arg for a in fn.node.args.args]
    if len(params) != 4:
        raise Undecided('signature of %s' % fn.qual)
    anc, fil = ('p', params[2]), ('p', params[3])
    sn = ('prim', GSN, (DEV, w.node))
    x = w.x

    def m(n, a, f):
        return [(('in', n, anc), a), (('in', n, fil), f)]

    cfg = eq(('tag', w.node), '{%s}config' % NC)

    def at(kind):
        c = m(w.node, True, False)
        if kind == 'root':
            return c + [(cfg, True)]
        return c + [(cfg, False), (isnone(sn), False),
                    (eq(('get', sn, C('type')), kind), True)]
    # a selected node keeps its whole subtree
    for a in (True, False):
        for p in w.paths:
            if consistent(p, m(w.node, a, True)):
                hits = [e for e in events(p) if e.kind == 'mut']
                rec = [e for e in events(p) if e.kind == 'call' and
                       e.fn is not None and e.fn.qual == fn.qual]
                ck.req(not hits and not rec, 'selected',
                       'a selected node is left alone with its subtree',
                       hits and '%s changes a selected node: %r' % (
                           fn.qual, hits[0]) or
                       '%s filters inside a selected node' % fn.qual)
    for kind in ('root', 'container', 'list'):
        top = at(kind)
        sch = [(isnone(w.s), False)]
        key = ('get', w.s, C('is_key'))
        for a in (True, False):
            w.never('child/selected', 'a selected child of a %s is kept' %
                    kind, top + sch + m(x, a, True), w.removed)
        c = top + sch + m(x, True, False)
        w.every('child/ancestor', 'a child of a %s on the way to a selected '
                'node is filtered recursively' % kind,
                c + [(isnone(key), True)], recursed(fn, x))
        w.never('child/ancestor-kept', 'a child of a %s on the way to a '
                'selected node is kept' % kind, c, w.removed)
        w.every('child/other', 'any other child of a %s is removed' % kind,
                top + sch + m(x, False, False) + [(isnone(key), True)],
                w.removed)
        if kind == 'list':
            w.never('child/key', 'a key of a list entry on the way to a '
                    'selected node is kept', top + sch +
                    m(x, False, False) + [(eq(key, 'true'), True),
                                          (isnone(key), False)], w.removed)
    for l in w.loops:
        for b in bodies(l, m(x, True, False)):
            for e in events(b):
                if e.kind == 'call' and e.fn is not None and \
                        e.fn.qual == fn.qual:
                    ck.req(tuple(e.args[1:3]) == (anc, fil),
                           'child/arguments', 'the recursion passes on the '
                           'ancestors and the selected nodes',
                           '%s: recursion with %s' % (
                               fn.qual, [show(t) for t in e.args]))


def _c14_entry(ck, prog):
    fn = prog.method('Config', 'filter')
    rfn = rec_fn(prog, 'Config', '_node_filter', 'filter')
    eng = Engine(prog, opaque={rfn.name, 'trim_defaults', 'validate_config',
                               'Config.xpath', 'NetconfParser.ele'} | SCHEMA)
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            continue
        r = p.value
        ele = p.st.heap.get((r, 'ele'))
        if r == SELF or ele == ELE:
            ck.fail('entry/copy', 'Config.filter returns a config that '
                    'shares the tree of the original (when %s)' %
                    facts_text(p))
            continue
        if ele is None:
            ck.open('Config.filter: result %s not recognised' % show(r))
            continue
        ck.ok('Config.filter works on its own tree')
        xs = [e for e in p.events if e.kind == 'call' and e.name == 'xpath']
        if len(xs) != 1:
            ck.open('Config.filter: no single xpath evaluation')
            continue
        xe = xs[0]
        ck.req(xe.recv == r, 'entry/xpath', 'the expression is evaluated on '
               'the tree that is filtered', 'Config.filter evaluates the '
               'xpath on %s but returns %s' % (show(xe.recv), show(r)))
        ck.req(any(contains(a, ('p', 'args')) for a in xe.args) and
               any(contains(v, ('p', 'kwargs')) for v in xe.kw.values()),
               'entry/args', 'the arguments are passed on to xpath',
               'Config.filter: xpath called with %r' % xe)
        el = ('each', xe.res, 0)
        calls_ = [e for e in p.events if e.kind == 'call' and
                  e.fn is not None and e.fn.qual == rfn.qual]
        islist = p.facts.test(('isinst', xe.res, 'list'))
        if islist is False:
            continue
        if calls_:
            e = calls_[0]
            ck.req(e.recv == r and e.args[0] == ele,
                   'entry/tree', 'the returned tree is filtered',
                   'Config.filter filters %s but returns a config with %s' %
                   (show(e.args[0]), show(ele)))
            t = e.args[2] if len(e.args) > 2 else NONE
            if t[0] == 'bin' and t[1] in ('-', '&', '^') and \
                    t[2][0] == 'cont':
                ck.fail('entry/selected', 'Config.filter: some of the '
                        'selected elements are left out: %s' % show(t))
                continue
            sets = []
            for t in e.args[1:3]:
                es = p.st.cont.get(t[1]) if len(t) > 1 else None
                sets.append(es)
            if None in sets:
                ck.open('Config.filter: node sets not recognised')
                continue
            elem = ('isinst', el, '_Element')

            def plain(g):
                return all(f == (elem, True) or f[0][0] == 'isinst' and
                           f[0][1] != el for f in g)
            sel = [n for n in sets[1] if n.val == el and plain(n.guard)]
            ck.req(bool(sel), 'entry/selected', 'every selected element is '
                   'kept', 'Config.filter: selected elements are collected '
                   'as %s' % [show(n.val) for n in sets[1]])
            extra = [n for n in sets[1] if n.val != el]
            ck.req(not extra, 'entry/selected-only', 'only selected elements '
                   'count as selected', extra and 'Config.filter also '
                   'selects %s' % show(extra[0].val))
            an = [n for n in sets[0] if n.val[0] == 'each' and
                  n.val[1][0] == 'anc' and n.val[1][1] == el and
                  n.val[1][2:] in ((NONE,), ()) and plain(n.guard)]
            other = [n for n in sets[0]]
            if an:
                ck.ok('all ancestors of every selected element are kept')
            elif not other or all(n.val[0] in ('each', 'parent')
                                  for n in other):
                ck.fail('entry/ancestors', 'Config.filter: ancestors are '
                        'collected as %s' % [show(n.val) for n in other])
            else:
                ck.open('Config.filter: ancestors %s' % [
                    show(n.val) for n in other])
        else:
            # nothing selected
            ck.req(ele[0] == 'elem' and not any(
                e.kind == 'mut' and e.name in ADDERS and e.recv == ele
                for e in events(p)), 'entry/empty',
                'nothing selected gives an empty config',
                'Config.filter: without selected elements the result is %s '
                '(when %s)' % (show(ele), facts_text(p)))
