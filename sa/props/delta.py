"""Compatibility of configs (C15) and the options and algebra of deltas
(C27)."""
from ..engine import Engine
from ..pairs import describe, DEV, GSN
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show
from ..terms import subterms as _subterms
from ..walk import Undecided, rec_fn

SELF = ('p', 'self')


def subterms(t):
    return [s for s in _subterms(t) if isinstance(s, tuple) and len(s) > 1]


def cfg(n):
    return ('attr', SELF, 'config%d' % n)


def dev(n):
    return ('attr', cfg(n), 'device')


def prims(t, name):
    """receivers of the opaque property/method name within a term"""
    return [s[2][0] for s in subterms(t) if isinstance(s, tuple) and
            len(s) == 3 and s[0] == 'prim' and
            s[1].rsplit('.', 1)[-1] == name and s[2]]


def all_facts(p):
    """facts of a path and of its loops, with the loops they come from"""
    for a, v in p.facts.log:
        yield a, v, None
    for l in loops(p):
        for b in l.bodies:
            for a, v in b.newfacts:
                yield a, v, l


COMPAT = {'ConfigCompatibility.models', 'ModelDevice.models_loaded',
          'ModelDevice.models_loadable', 'ModelDevice.namespaces',
          'ModelDiff.__bool__', 'ModelDiff.__init__'}


def c15(ck, prog, tier):
    ck.part(_c15_verdict, ck, prog)
    ck.part(_c15_models, ck, prog)
    ck.part(_c15_add, ck, prog)
    ck.part(_c15_delta, ck, prog)


def _c15_verdict(ck, prog):
    fn = prog.method('ConfigCompatibility', 'is_compatible')
    eng = Engine(prog, opaque=COMPAT)
    ps = eng.run(fn)
    ck.used(eng)
    n = 0
    MODELS = ('prim', 'config.ConfigCompatibility.models', (SELF,))
    same_dev = eq(dev(1), dev(2))
    for p in ps:
        if p.kind == 'raise':
            ck.req(p.exc.cls in ('ModelMissing', 'ModelIncompatible') or None,
                   'error', 'incompatibility is reported as ModelMissing or '
                   'ModelIncompatible')
            continue
        if is_c(p.value) and not cv(p.value):
            continue
        for sd in (True, False):
            if not consistent(p, [(same_dev, sd)]):
                continue
            n += 1
            _missing(ck, p, 'models_loaded', MODELS, 'is not loaded')
            if not sd:
                _missing(ck, p, 'models_loadable', MODELS, 'does not exist')
            _every_model(ck, p, MODELS, 'diff',
                         'the models are the same on both devices',
                         lambda b: _diffed(b, MODELS))
            if not sd:
                for i, w in ((1, 'prefix'), (2, 'URL')):
                    _every_model(ck, p, MODELS, 'namespace/' + w,
                                 'the %s of the model is the same on both '
                                 'devices' % w, lambda b: _agree(b, i))
    if not n:
        ck.open('is_compatible: no accepting path')


def _missing(ck, p, what, MODELS, text):
    for d in (1, 2):
        good = bad = False
        for a, v, l in all_facts(p):
            if not any(r == dev(d) for r in prims(a, what)):
                continue
            if not contains(a, MODELS):
                continue
            if a[0] == 'truthy' and a[1][0] == 'bin' and a[1][1] == '-':
                first = prims(a[1][2], 'models')
                if not v and first and not prims(a[1][2], what):
                    good = True
                else:
                    bad = True
            elif a[0] == 'in':
                if v and l is not None and l.exh is not False and \
                        prims(a[2], what):
                    good = True
                else:
                    bad = True
            else:
                good = good or None
        # or collected by a filter whose emptiness was tested
        for a, v in p.facts.log:
            if a[0] == 'truthy' and not v and a[1][0] == 'cont' and \
                    any(r == dev(d) for r in prims(a, what)) and \
                    contains(a, MODELS):
                good = True
        ck.req(good if not (good is False and not bad) else False,
               'missing/' + what, 'a model that %s on device %d raises '
               'ModelMissing' % (text, d),
               'ConfigCompatibility: a verdict is reached without making '
               'sure that every model is in %s of device %d (when %s)' % (
                   what, d, facts_text(p)))


def _every_model(ck, p, MODELS, key, text, pred):
    good = None
    wit = ''
    for l in loops(p):
        if not contains(l.recv, MODELS):
            continue
        if l.recv[0] in ('slice', 'item', 'pick'):
            wit = 'only part of the models is looked at (%s)' % l.loc
            continue
        bs = [b for b in l.bodies]
        ok = [pred(b) for b in bs]
        if all(x is True for x in ok) and bs:
            if l.exh is False or any(b.kind != 'raise' for b in l.exits):
                wit = 'the loop over the models at %s stops early' % l.loc
                continue
            good = True
        elif any(x is None for x in ok):
            wit = None
    # all(...) / any(...)
    if good is None and wit == '':
        for a, v in p.facts.log:
            if contains(a, MODELS) and a[0] == 'truthy' and \
                    a[1][0] in ('all', 'any', 'cont'):
                wit = None
    if good:
        ck.ok('a verdict is reached only if ' + text)
    elif wit is None:
        ck.open('a verdict is reached only if ' + text)
    else:
        ck.fail(key, 'ConfigCompatibility: a positive verdict is reached '
                'without checking for every model that %s. %s (when %s)' % (
                    text, wit, facts_text(p)))


def _diffed(b, MODELS):
    m = ('each', MODELS, 0)
    for a, v in b.newfacts:
        if a[0] == 'truthy' and a[1][0] == 'objof' and \
                a[1][1] == 'ModelDiff':
            args = a[1][2]
            want = [('item', ('attr', dev(i), 'models'), m) for i in (1, 2)]
            if sorted(map(repr, args)) == sorted(map(repr, want)):
                return not v
            if all(x[0] == 'item' for x in args):
                return False
            return None
    return False


def _agree(b, i):
    und = False
    for a, v in b.newfacts:
        if a[0] != 'eq':
            continue
        ns = [prims(t, 'namespaces') for t in a[1:]]
        if not ns[0] or not ns[1]:
            continue
        if {ns[0][0], ns[1][0]} != {dev(1), dev(2)}:
            continue
        idx = [{s[2] for s in subterms(t) if isinstance(s, tuple) and
                s[0] == 'item' and is_c(s[2])} for t in
               (x[2] if x[0] == 'pick' else x for x in a[1:])]
        if all(C(i) in x or not x for x in idx):
            if v:
                return True
        if idx[0] != idx[1]:
            continue
    for a, v in b.newfacts:
        ns = prims(a, 'namespaces')
        if ns and a[0] != 'eq':
            und = True
    return None if und else False


def _c15_models(ck, prog):
    for cls, attrs in (('ConfigCompatibility', (cfg(1), cfg(2))),
                       ('ConfigDelta', (('attr', SELF, 'config_src'),
                                        ('attr', SELF, 'config_dst')))):
        fn = prog.method(cls, 'models')
        eng = Engine(prog, opaque={'Config.models', 'Config.roots',
                                   'ConfigDelta.models'})
        for p in eng.run(fn):
            if p.kind != 'return':
                continue
            for a in attrs:
                have = [s for s in subterms(p.value)
                        if isinstance(s, tuple) and (
                            s == ('attr', a, 'models') or
                            s[0] == 'prim' and s[1].endswith('.models') and
                            s[2] and s[2][0] == a)]
                bad = p.value[0] in ('pick', 'item') or any(
                    isinstance(s, tuple) and (
                        s[0] == 'slice' or s[0] == 'bin' and s[1] in
                        ('-', '&', '^')) for s in subterms(p.value))
                ck.req(bool(have) and not bad, 'models/' + cls,
                       '%s.models covers the models of %s' % (cls, show(a)),
                       '%s.models is %s and does not cover every model of '
                       '%s' % (cls, show(p.value), show(a)))
        ck.used(eng)
    fn = prog.method('Config', 'models')
    eng = Engine(prog, opaque={'Config.roots'})
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        roots = ('prim', 'config.Config.roots', (SELF,))
        v = p.value
        while v[0] in ('sorted', 'setof', 'listof', 'reversed'):
            v = v[1]
        ok = None
        if v[0] == 'cont' and len(v[2]) == 1:
            val, k, g, many = v[2][0]
            whole = (('item', ('each', ('dictitems_', roots), 0), C(1)),
                     ('each', ('dictvalues_', roots), 0),
                     ('item', roots, ('each', roots, 0)))
            if g:
                ok = False
            elif val in whole:
                ok = True
            elif not contains(val, roots):
                ok = False
        elif contains(v, roots) and v[0].startswith('dictv'):
            ok = True
        ck.req(ok, 'models/Config', 'Config.models lists the model of every '
               'root', 'Config.models is %s' % show(p.value))
    ck.used(eng)


OTHER = ('p', 'other')
ADD = {'ConfigCompatibility.is_compatible', 'NetconfCalculator.add',
       'NetconfCalculator.__init__', 'BaseCalculator.__init__',
       'Config.__init__', 'ConfigDelta.nc', 'ConfigDelta.__init__',
       'NetconfCalculator.sub'}


def compat_evaluated(p, a, b):
    """is_compatible of ConfigCompatibility(a, b) was evaluated on the path:
    the term, or None"""
    for e in p.events:
        if e.kind == 'prop' and e.name == 'is_compatible':
            o = e.recv
            c1 = p.st.heap.get((o, 'config1'))
            c2 = p.st.heap.get((o, 'config2'))
            if {c1, c2} == {a, b} or (c1, c2) in ((a, b), (b, a)):
                return e.res
    return None


def _c15_add(ck, prog):
    fn = prog.method('Config', '__add__')
    eng = Engine(prog, opaque=ADD)
    ps = eng.run(fn)
    ck.used(eng)
    other = ('p', [a.arg for a in fn.node.args.args][1])
    for t in ('Config', 'ConfigDelta'):
        n = 0
        cell = [(('isinst', other, x), x == t)
                for x in ('Config', 'ConfigDelta')]
        cell.append((('isinst', other, '_Element'), False))
        for p in ps:
            if p.kind != 'return' or not consistent(p, cell):
                continue
            n += 1
            r = compat_evaluated(p, SELF, other)
            if is_c(p.value):
                ck.req(cv(p.value) is not NotImplemented and
                       r is not None, 'add/refused',
                       'config + %s is refused only if incompatible' % t,
                       'Config.__add__ returns %s for a %s (when %s)' % (
                           show(p.value), t, facts_text(p)))
                continue
            ck.req(r is not None and p.facts.test(('truthy', r)) is not False,
                   'add/' + t, 'config + %s is computed only after the '
                   'compatibility check' % t,
                   'Config.__add__ with a %s has a path that computes the '
                   'sum without checking the compatibility of the operands '
                   '(when %s)' % (t, facts_text(p)))
        if not n:
            ck.open('Config.__add__: no path for a %s' % t)


def _c15_delta(ck, prog):
    fn = prog.method('ConfigDelta', '__init__')
    eng = Engine(prog, opaque=ADD | {'Config.__add__', 'NetconfParser.ele',
                                     'NetconfParser.__init__'})
    args = [a.arg for a in fn.node.args.args]
    run = {'preferred_create': C('merge'), 'preferred_replace': C('merge'),
           'preferred_delete': C('delete'), 'random_depth': NONE,
           'random_seed': NONE}
    ps = eng.run(fn, args={k: v for k, v in run.items() if k in args})
    ck.used(eng)
    src, dst, dl = ('p', 'config_src'), ('p', 'config_dst'), ('p', 'delta')
    n = 0
    for p in ps:
        if p.kind != 'return' or not consistent(p, [(isnone(dl), True),
                                                    (isnone(dst), False)]):
            continue
        n += 1
        ck.req(compat_evaluated(p, src, dst) is not None, 'delta',
               'a delta of two configs is created only after the '
               'compatibility check',
               'ConfigDelta.__init__ has a path that accepts two configs '
               'without checking their compatibility (when %s)' %
               facts_text(p))
    if not n:
        ck.open('ConfigDelta.__init__: no path with two configs')


# ----------------------------------------------------------------------
# C27 options and algebra of deltas
NOTIMPL = ('ext', 'builtins.NotImplemented')
PREFS = {'preferred_create': ('merge', 'create', 'replace'),
         'preferred_replace': ('merge', 'replace'),
         'preferred_delete': ('delete', 'remove')}
BASE = {'preferred_create': C('merge'), 'preferred_replace': C('merge'),
        'preferred_delete': C('delete'), 'random_depth': NONE,
        'random_seed': NONE}
INIT = ADD | {'Config.__add__', 'NetconfParser.ele',
              'NetconfParser.__init__'}


def c27(ck, prog, tier):
    ck.part(_c27_prefs, ck, prog)
    ck.part(_c27_random, ck, prog)
    ck.part(_c27_types, ck, prog)
    ck.part(_c27_target, ck, prog)
    ck.part(_c27_nc, ck, prog)
    ck.part(_c27_algebra, ck, prog)
    ck.part(_c27_reorder, ck, prog)
    ck.part(_c27_reorder_children, ck, prog)


def construct(ck, prog, **kw):
    fn = prog.method('ConfigDelta', '__init__')
    args = [a.arg for a in fn.node.args.args + fn.node.args.kwonlyargs]
    d = dict(BASE)
    d.update(kw)
    for k in d:
        if k not in args:
            raise Undecided('ConfigDelta.__init__ has no argument %s' % k)
    eng = Engine(prog, opaque=INIT)
    ps = eng.run(fn, args=d)
    ck.used(eng)
    return ps


def field(p, name):
    v = p.st.heap.get((SELF, name))
    return p.st.heap.get((SELF, '_' + name)) if v is None else v


def rejected(ck, ps, key, cls, what):
    for p in ps:
        if p.kind == 'raise' and p.exc.cls == cls:
            ck.ok(what)
        else:
            ck.fail(key, 'ConfigDelta.__init__: expected: %s, but %s (when '
                    '%s)' % (what, 'raises ' + p.exc.cls if p.kind == 'raise'
                             else 'accepts it', facts_text(p)))


def _c27_prefs(ck, prog):
    for opt, vals in PREFS.items():
        for v in ('merge', 'create', 'replace', 'delete', 'remove', 'none',
                  ''):
            ps = construct(ck, prog, **{opt: C(v)})
            if v not in vals:
                rejected(ck, ps, 'option/' + opt, 'ValueError',
                         '%s=%r raises ValueError' % (opt, v))
                continue
            for p in ps:
                if p.kind == 'raise':
                    ck.req(p.exc.cls == 'TypeError', 'option/' + opt,
                           '%s=%r is accepted' % (opt, v),
                           'ConfigDelta.__init__ raises %s for %s=%r' % (
                               p.exc.cls, opt, v))
                    continue
                for o in PREFS:
                    want = C(v) if o == opt else BASE[o]
                    ck.req(field(p, o) == want, 'stored/' + o,
                           '%s is kept as given' % o,
                           'ConfigDelta.__init__ sets %s to %s when it is '
                           'given as %s' % (o, show(field(p, o) or NONE),
                                            show(want)))
    # options that are stored as they are
    for p in construct(ck, prog):
        if p.kind != 'return':
            continue
        for o in ('diff_type', 'replace_depth', 'replace_xpath'):
            ck.req(field(p, o) == ('p', o), 'stored/' + o,
                   '%s is kept as given' % o,
                   'ConfigDelta.__init__ sets %s to %s' % (
                       o, show(field(p, o) or NONE)))


def _c27_random(ck, prog):
    for d, s in ((C(-1), NONE), (C('x'), NONE), (C(-7), C(5)),
                 (C(1.5), C(5)), (C(0), C('x')), (C(2), C(1.5)),
                 (NONE, C('x'))):
        rejected(ck, construct(ck, prog, random_depth=d, random_seed=s),
                 'random/reject', 'ValueError',
                 'random_depth=%s with random_seed=%s raises ValueError' % (
                     show(d), show(s)))
    for d, s in ((NONE, NONE), (NONE, C(5)), (C(0), C(5)), (C(3), C(5)),
                 (C(0), C(0)), (C(0), NONE), (C(4), NONE)):
        for p in construct(ck, prog, random_depth=d, random_seed=s):
            if p.kind != 'return':
                ck.req(p.exc.cls == 'TypeError', 'random/accept',
                       'random_depth=%s is accepted' % show(d),
                       'ConfigDelta.__init__ raises %s for random_depth=%s, '
                       'random_seed=%s' % (p.exc.cls, show(d), show(s)))
                continue
            ck.req(field(p, 'random_depth') == d, 'random/depth',
                   'random_depth=%s is kept' % show(d),
                   'ConfigDelta.__init__ sets random_depth to %s when it is '
                   'given as %s' % (show(field(p, 'random_depth') or NONE),
                                    show(d)))
            v = field(p, 'random_seed')
            if v is None:
                ck.open('random_seed is not an attribute')
            elif d == NONE:
                ck.req(v == NONE, 'random/seed', 'no seed without a depth',
                       'ConfigDelta: random_seed is %s without random_depth'
                       % show(v))
            elif s != NONE:
                ck.req(v == s, 'random/seed', 'the given seed %s is kept' %
                       show(s), 'ConfigDelta: random_seed is %s when given '
                       'as %s' % (show(v), show(s)))
            else:
                ck.req(not is_c(v), 'random/seed', 'a seed is chosen when '
                       'only the depth is given', 'ConfigDelta: random_seed '
                       'is %s when only random_depth is given' % show(v))


def _c27_types(ck, prog):
    bad = C('x'), C(1)
    for v in bad + (NONE,):
        rejected(ck, construct(ck, prog, config_src=v), 'type/config_src',
                 'TypeError', 'config_src=%s raises TypeError' % show(v))
    for v in bad:
        rejected(ck, construct(ck, prog, config_dst=v, delta=NONE),
                 'type/config_dst', 'TypeError',
                 'config_dst=%s raises TypeError' % show(v))
    rejected(ck, construct(ck, prog, delta=C(1), config_dst=NONE),
             'type/delta', 'TypeError', 'delta=1 raises TypeError')


def _c27_target(ck, prog):
    src, dst, dl = ('p', 'config_src'), ('p', 'config_dst'), ('p', 'delta')
    for p in construct(ck, prog):
        if p.kind != 'return':
            continue
        ck.req(field(p, 'config_src') == src, 'source',
               'config_src is the source', 'ConfigDelta.__init__ sets '
               'config_src to %s' % show(field(p, 'config_src') or NONE))
        got = field(p, 'config_dst')
        if consistent(p, [(isnone(dl), False)]):
            par = [e for e in p.events if e.kind == 'prop' and
                   e.name == 'ele']
            if par and p.facts.test(isnone(par[-1].res)) is True:
                continue
            ok = None
            if got is not None:
                v = got
                if v[0] == 'bin' and v[1] == '+':
                    ok = v[2] == src and contains(v[3], dl)
                elif v[0] in ('prim', 'call') and '__add__' in str(v[1]):
                    ok = v[2][0] == src and contains(v[2][1], dl)
                elif v in (src, dst) or is_c(v):
                    ok = False
            ck.req(ok, 'target/delta', 'with a delta the target is source + '
                   'delta', 'ConfigDelta.__init__: with a delta, config_dst '
                   'is %s (when %s)' % (show(got or NONE), facts_text(p)))
        elif consistent(p, [(isnone(dst), True)]):
            ck.req(got == src, 'target/none', 'without target and delta the '
                   'target is the source', 'ConfigDelta.__init__: without '
                   'config_dst and delta, config_dst is %s' %
                   show(got or NONE))
        else:
            ck.req(got == dst, 'target/given', 'the given target is used',
                   'ConfigDelta.__init__: config_dst is %s' %
                   show(got or NONE))


def bind(prog, cls, e):
    """arguments of a 'new' event by parameter name"""
    f = prog.method(cls, '__init__')
    names = [a.arg for a in f.node.args.args][1:]
    d = dict(zip(names, e.args))
    d.update(e.kw)
    return d


def _c27_nc(ck, prog):
    fn = prog.method('ConfigDelta', 'nc')
    eng = Engine(prog, opaque={'NetconfCalculator.sub', 'ConfigDelta.reorder',
                               'NetconfCalculator.__init__'})
    ps = eng.run(fn)
    ck.used(eng)

    def a(n):
        return ('attr', SELF, n)
    ini = prog.method('NetconfCalculator', '__init__')
    n1, n2 = [x.arg for x in ini.node.args.args][2:4]
    depth = a('random_depth')
    for p in ps:
        if p.kind != 'return':
            continue
        new = [e for e in p.events if e.kind == 'new' and
               e.name == 'NetconfCalculator']
        if len(new) != 1 or new[0].args is None:
            ck.open('ConfigDelta.nc: no single NetconfCalculator')
            continue
        d = bind(prog, 'NetconfCalculator', new[0])
        want = {n1: ('attr', a('config_dst'), 'ele'),
                n2: ('attr', a('config_src'), 'ele')}
        for o in list(PREFS) + ['diff_type', 'replace_depth',
                                'replace_xpath']:
            want[o] = a(o)
        for k, v in want.items():
            ck.req(d.get(k) == v, 'nc/' + k, 'the edit-config is computed '
                   'with %s = %s' % (k, show(v)),
                   'ConfigDelta.nc computes the edit-config with %s = %s '
                   'instead of %s' % (k, show(d[k]) if k in d else
                                      'the default', show(v)))
        sub = [e for e in p.events if e.kind == 'prop' and e.name == 'sub']
        ck.req(len(sub) == 1 and p.value == sub[0].res or None,
               'nc/result', 'the computed edit-config is returned')
        if not sub:
            continue
        re_ = [e for e in p.events if e.kind == 'call' and
               e.name == 'reorder']
        seeds = [x for x in (a('_random_seed'), a('random_seed'))
                 if p.facts.test(isnone(x)) is not None]
        nodepth = p.facts.test(isnone(depth)) is True
        noseed = any(p.facts.test(isnone(x)) is True for x in seeds)
        if nodepth or noseed:
            ck.req(not re_, 'nc/order', 'without depth or seed the order is '
                   'not randomised', 'ConfigDelta.nc reorders without depth '
                   'or seed (when %s)' % facts_text(p))
        elif p.facts.test(isnone(depth)) is False:
            ok = False
            if re_:
                ra = list(re_[0].args)
                if len(ra) == 4 and not re_[0].kw:
                    ok = ra[0] == sub[0].res and ra[1] in (
                        a('_random_seed'), a('random_seed')) and \
                        ra[2] == depth and ra[3] == C(0)
                else:
                    ok = None
            elif re_ == [] and seeds == []:
                ok = False
            ck.req(ok, 'nc/random', 'with depth and seed the edit-config is '
                   'reordered from its root', 'ConfigDelta.nc: %s (when %s)'
                   % (re_ and repr(re_[0]) or 'no reordering',
                      facts_text(p)))
        else:
            ck.fail('nc/order', 'ConfigDelta.nc does not look at the random '
                    'depth (when %s)' % facts_text(p))


def _c27_algebra(ck, prog):
    # negation
    eng = Engine(prog, opaque=INIT)
    for p in eng.run(prog.method('ConfigDelta', '__neg__')):
        if p.kind != 'return':
            continue
        d = _new_delta(prog, p)
        ck.req(None if d is None else
               d.get('config_src') == ('attr', SELF, 'config_dst') and
               d.get('config_dst') == ('attr', SELF, 'config_src') and
               d.get('delta', NONE) == NONE, 'negation',
               'a negated delta leads from the target to the source',
               d and 'ConfigDelta.__neg__ gives ConfigDelta(%s)' % ', '.join(
                   '%s=%s' % (k, show(v)) for k, v in d.items()))
    for p in eng.run(prog.method('ConfigDelta', '__pos__')):
        if p.kind == 'return':
            ck.req(p.value == SELF or None, 'pos', '+delta is the delta')
    # config - x
    eng2 = Engine(prog, opaque=INIT | {'ConfigDelta.__neg__'})
    fn = prog.method('Config', '__sub__')
    other = ('p', [a.arg for a in fn.node.args.args][1])
    types = {t: ('isinst', other, t) for t in ('Config', 'ConfigDelta')}

    def cell(t):
        return [(atom, n == t) for n, atom in types.items()]
    for p in eng2.run(fn):
        if p.kind != 'return':
            continue
        if consistent(p, cell('Config')):
            d = _new_delta(prog, p)
            ck.req(None if d is None and not is_c(p.value) and
                   p.value != NOTIMPL else d is not None and
                   d.get('config_src') == other and
                   d.get('config_dst') == SELF, 'sub/config',
                   'c1 - c2 is the delta from c2 to c1',
                   'Config.__sub__ gives ConfigDelta(%s)' % ', '.join(
                       '%s=%s' % (k, show(v)) for k, v in (d or {}).items()))
        if consistent(p, cell('ConfigDelta')):
            v = p.value
            ok = None
            ops = None
            if v[0] in ('prim', 'call') and '__add__' in str(v[1]):
                ops = list(v[2])
            elif v[0] == 'bin' and v[1] == '+':
                ops = [v[2], v[3]]
            elif v == NOTIMPL or is_c(v) or v in (SELF, other) or \
                    v[0] == 'bin':
                ok = False
            if ops:
                neg = ops[1][0] == 'un' and ops[1][1] == 'USub' and \
                    ops[1][2] == other or \
                    ops[1][0] == 'prim' and ops[1][1].endswith('__neg__') and \
                    ops[1][2][0] == other
                ok = ops[0] == SELF and neg
                if ops[0] == SELF and not neg and ops[1] != other:
                    ok = None
            ck.req(ok, 'sub/delta', 'config - delta is config + (-delta)',
                   'Config.__sub__ with a delta gives %s' % show(v))
        if consistent(p, cell(None)):
            ck.req(p.value == NOTIMPL, 'sub/other', 'config - anything else '
                   'is not implemented', 'Config.__sub__ gives %s for '
                   'something else (when %s)' % (show(p.value),
                                                 facts_text(p)))
    # config + x
    fn = prog.method('Config', '__add__')
    other = ('p', [a.arg for a in fn.node.args.args][1])
    types = {t: ('isinst', other, t) for t in ('Config', 'ConfigDelta',
                                               '_Element')}
    opq = ADD - {'Config.__init__'} | {'Config.__init__'}
    for p in Engine(prog, opaque=opq).run(fn):
        if p.kind != 'return':
            continue
        if consistent(p, cell(None)):
            ck.req(p.value == NOTIMPL, 'add/other', 'config + anything else '
                   'is not implemented', 'Config.__add__ gives %s for '
                   'something else (when %s)' % (show(p.value),
                                                 facts_text(p)))
        for t in types:
            if not consistent(p, cell(t)) or is_c(p.value):
                continue
            new = [e for e in p.events if e.kind == 'new' and
                   e.name == 'NetconfCalculator']
            if len(new) != 1:
                ck.req(False if p.value in (SELF, other, NOTIMPL) else None,
                       'add/' + t, 'config + %s is computed' % t,
                       'Config.__add__ gives %s for a %s' % (
                           show(p.value), t))
                continue
            d = bind(prog, 'NetconfCalculator', new[0])
            ini = prog.method('NetconfCalculator', '__init__')
            n1, n2 = [x.arg for x in ini.node.args.args][2:4]
            w2 = {'Config': [('attr', other, 'ele')],
                  'ConfigDelta': [('attr', other, 'nc'), (
                      'prim', 'config.ConfigDelta.nc', (other,))],
                  '_Element': [other]}[t]
            ck.req(d.get(n1) == ('attr', SELF, 'ele') and d.get(n2) in w2,
                   'add/' + t, 'config + %s applies the operand to the '
                   'config' % t, 'Config.__add__ with a %s computes with %s '
                   'and %s' % (t, show(d.get(n1, NONE)),
                               show(d.get(n2, NONE))))
            add = [e for e in p.events if e.kind == 'prop' and
                   e.name == 'add']
            ck.req(len(add) == 1 and contains(p.value, add[0].res) or None,
                   'add/result', 'config + %s gives the computed config' % t)
    # delta + x, delta - x
    fn = prog.method('ConfigDelta', '__add__')
    other = ('p', [a.arg for a in fn.node.args.args][1])
    isc = ('isinst', other, 'Config')
    for p in eng2.run(fn):
        if p.kind != 'return':
            continue
        if consistent(p, [(isc, False)]):
            ck.req(p.value == NOTIMPL, 'delta-add/other', 'delta + anything '
                   'but a config is not implemented',
                   'ConfigDelta.__add__ gives %s for something else' %
                   show(p.value))
        if consistent(p, [(isc, True)]):
            v = p.value
            ops = None
            if v[0] == 'bin' and v[1] == '+':
                ops = [v[2], v[3]]
            elif v[0] in ('prim', 'call') and '__add__' in str(v[1]):
                ops = list(v[2])
            ok = None
            if ops:
                ok = ops[0] == other and (
                    ops[1] == SELF or ops[1][0] in ('attr', 'prim') and
                    contains(ops[1], SELF))
            elif v == NOTIMPL or is_c(v) or v in (SELF, other):
                ok = False
            ck.req(ok, 'delta-add/config', 'delta + config is config + delta',
                   'ConfigDelta.__add__ gives %s' % show(v))
    for p in eng2.run(prog.method('ConfigDelta', '__sub__')):
        ck.req(p.kind == 'return' and p.value == NOTIMPL, 'delta-sub',
               'delta - anything is not implemented',
               'ConfigDelta.__sub__ gives %s' % show(p.value or NONE))
    ck.used(eng)
    ck.used(eng2)


def _new_delta(prog, p):
    new = [e for e in p.events if e.kind == 'new' and
           e.name == 'ConfigDelta']
    if len(new) != 1:
        return None
    return bind(prog, 'ConfigDelta', new[0])


def _c27_reorder(ck, prog):
    fn = prog.method('ConfigDelta', 'reorder')
    eng = Engine(prog, opaque={'ConfigDelta.reorder_children'})
    ps = eng.run(fn)
    ck.used(eng)
    params = [a.arg for a in fn.node.args.args]
    if len(params) != 5:
        raise Undecided('signature of ConfigDelta.reorder')
    node, seed, depth, cur = [('p', x) for x in params[1:]]
    at = eq(cur, depth)

    def shuffles(p):
        return [e for e in p.events if e.kind == 'call' and
                e.name == 'reorder_children']
    for p in ps:
        if p.kind != 'return':
            continue
        if consistent(p, [(at, True)]):
            c = shuffles(p)
            ck.req(len(c) == 1 and tuple(c[0].args) == (node, seed),
                   'reorder/at', 'the children of a node at the depth are '
                   'reordered with the seed', 'ConfigDelta.reorder: at the '
                   'depth: %s' % (c and repr(c[0]) or 'nothing happens'))
            continue
        if not consistent(p, [(at, False)]):
            continue
        ck.req(not shuffles(p), 'reorder/above', 'nothing above the depth '
               'is reordered', 'ConfigDelta.reorder reorders above the '
               'depth (when %s)' % facts_text(p))
        x = ('each', node, 0)
        good = None
        for l in loops(p):
            if noep(l.recv) not in (node, ('children', node, 0)):
                continue
            x = ('each', l.recv, 0)
            good = l.exh is not False and not l.exits
            for b in l.bodies:
                rec = [e for e in b.events if e.kind == 'call' and
                       e.fn is not None and e.fn.qual == fn.qual]
                nxt = [('bin', '+', cur, C(1)), ('bin', '+', C(1), cur)]
                if not (len(rec) == 1 and len(rec[0].args) == 4 and
                        same(rec[0].args[0], x) and
                        tuple(rec[0].args[1:3]) == (seed, depth) and
                        rec[0].args[3] in nxt):
                    good = False
        has = [l for l in loops(p)]
        ck.req(good if has or good else False, 'reorder/below',
               'every child is visited one level deeper',
               'ConfigDelta.reorder does not visit every child with the next '
               'depth (when %s)' % facts_text(p))


def _c27_reorder_children(ck, prog):
    fn = prog.method('ConfigDelta', 'reorder_children')
    eng = Engine(prog, opaque={'ModelDevice.get_schema_node'})
    ps = eng.run(fn)
    ck.used(eng)
    params = [a.arg for a in fn.node.args.args]
    node, seed = [('p', x) for x in params[1:3]]
    n = 0
    starts = []

    def strip(t):
        while t[0] in ('reversed', 'sorted', 'listof', 'setof'):
            t = t[1]
        return t

    def moved(p, name):
        """what is removed/appended on the path: list of (kind, term)"""
        out = []
        for e in p.events:
            if e.kind == 'mut' and e.name == name and e.recv == node:
                out.append(('one', e.args[0]))
            elif e.kind == 'loop':
                hit = [b for b in e.bodies if any(
                    x.kind == 'mut' and x.name == name and x.recv == node
                    for x in b.events)]
                if hit:
                    out.append(('loop', e, len(hit) == len(e.bodies) and
                                e.exh is not False and not e.exits))
        return out

    def indices(p, l):
        """the collection of positions a loop runs over"""
        r = strip(l.recv)
        if r[0] in ('list', 'ref') and len(r) > 1:
            es = p.st.cont.get(r[1])
            if es and len(es) == 1 and es[0].val[0] == 'each':
                return strip(es[0].val[1])
        return r

    for p in ps:
        if p.kind != 'return':
            continue
        rem, app = moved(p, 'remove'), moved(p, 'append')
        if not rem and not app:
            continue
        n += 1
        if len(rem) != 1 or len(app) != 1:
            if not app and rem:
                ck.fail('children/lost', 'ConfigDelta.reorder_children: '
                        'removed children are not put back (when %s)' %
                        facts_text(p))
            else:
                ck.open('reorder_children: moves not recognised')
            continue
        if rem[0][0] == 'one' and app[0][0] == 'one':
            ck.req(rem[0][1] == app[0][1], 'children/lost', 'a moved child '
                   'is put back', 'ConfigDelta.reorder_children removes %s '
                   'but appends %s' % (show(rem[0][1]), show(app[0][1])))
            start = rem[0][1][2] if rem[0][1][0] == 'item' else None
        elif rem[0][0] == app[0][0] == 'loop':
            if not (rem[0][2] and app[0][2]):
                ck.fail('children/lost', 'ConfigDelta.reorder_children: not '
                        'every removed child is put back')
                continue
            ri, ai = indices(p, rem[0][1]), indices(p, app[0][1])
            start = None
            if ri[0] == 'range' and len(ri[1:]) and ai[0] == 'prim' or \
                    ai[0] in ('call', 'ext', 'callext'):
                pass
            samp = [e for e in p.events if e.kind == 'call' and
                    e.name.startswith('random.') and
                    e.name not in ('random.seed', 'random.Random')]
            if len(samp) == 1 and samp[0].name == 'random.sample' and \
                    ri[0] == 'range':
                src_ = strip(samp[0].args[0])
                if src_[0] in ('list', 'ref') and len(src_) > 1:
                    es = p.st.cont.get(src_[1])
                    if es and len(es) == 1 and es[0].val[0] == 'each':
                        src_ = strip(es[0].val[1])
                bounds = ri[1] if isinstance(ri[1], tuple) and \
                    ri[1] and isinstance(ri[1][0], tuple) else ri[1:]
                ok = src_ == ri and ai == samp[0].res
                cnt = samp[0].args[1]
                if ok and len(bounds) == 2:
                    start = bounds[0]
                    full = [('bin', '-', bounds[1], bounds[0])]
                    if bounds[0] == C(0):
                        full.append(bounds[1])
                    ok = cnt in full or cnt[0] == 'len'
                ck.req(ok, 'children/lost', 'every removed child is put back '
                       'once', 'ConfigDelta.reorder_children removes %s but '
                       'appends %s' % (show(ri), show(ai)))
                i = p.events.index(samp[0])
                seeds = [e for e in p.events[:i] if e.kind == 'call' and
                         e.name == 'random.seed']
                ck.req(bool(seeds) and tuple(seeds[-1].args) == (seed,),
                       'children/seed', 'the order is reproducible with the '
                       'seed', 'ConfigDelta.reorder_children draws a random '
                       'order %s' % ('seeded with %s' % [
                           show(x) for x in seeds[-1].args] if seeds else
                           'without setting the seed'))
            else:
                if not any(e.kind in ('call', 'new') and
                           any(x == seed for x in e.args)
                           for e in p.events):
                    ck.fail('children/seed', 'ConfigDelta.reorder_children '
                            'does not use the seed (when %s)' %
                            facts_text(p))
                else:
                    ck.open('reorder_children: random order not recognised')
        else:
            ck.open('reorder_children: moves not recognised')
            continue
        if start is not None and is_c(start):
            keys = sum(1 for a, v in p.facts.log if v and a[0] == 'eq' and
                       C('true') in a and any(
                           s[0] == 'get' and s[-1] == C('is_key')
                           for s in subterms(a)))
            starts.append(cv(start))
            ck.req(cv(start) >= keys and (keys > 0 or not cv(start)),
                   'children/keys', 'leading keys stay in '
                   'place', 'ConfigDelta.reorder_children moves children '
                   'from position %s on when %d leading keys were found' % (
                       cv(start), keys))
        else:
            starts.append(None)
            ck.open('reorder_children: first position %s' % (
                start and show(start)))
    if not n:
        ck.open('reorder_children: nothing is moved')
    elif starts and None not in starts and max(starts) < 2:
        ck.fail('children/keys', 'ConfigDelta.reorder_children moves '
                'children from position %d on, including list keys' %
                max(starts))
