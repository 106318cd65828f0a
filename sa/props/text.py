"""C33: text of models and of model diffs, line by line."""
import math

from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..terms import C, Facts, NONE, contains, cv, is_c, show, subterms
from .device import SELF
from .device import prims
from .model import once, params
from .names import chars, parts

TYPES = ('container', 'list', 'leaf', 'leaf-list', 'choice', 'case', 'anyxml',
         'anydata', 'rpc', 'action', 'notification', 'input', 'output')
ACCESS = {None: '', 'write': '-w', 'read-write': 'rw', 'read-only': 'ro',
          'none': '--'}


def c33(ck, prog, tier):
    ck.part(_flags, ck, prog)
    ck.part(_name, ck, prog)
    ck.part(_prefix, ck, prog)
    ck.part(_datatype, ck, prog)
    ck.part(_line, ck, prog)
    ck.part(_diff, ck, prog)
    ck.part(_width, ck, prog)
    ck.part(_depth, ck, prog)
    ck.part(_nodes, ck, prog)
    ck.part(_tree, ck, prog)


def anchor(prog, cls, name):
    fn = prog.method(cls, name)
    if fn is None:
        raise AnalysisBroken('%s.%s vanished' % (cls, name))
    return fn


def cells(el, **kw):
    """facts about attributes of an element: attr=value|None|other"""
    out = []
    for k, v in kw.items():
        g = ('get', el, C(k.replace('_', '-')))
        if v is None:
            out.append((isnone(g), True))
            out.append((('truthy', g), False))
        else:
            out.append((eq(g, v), True))
            out.append((isnone(g), False))
            out.append((('truthy', g), True))
    return out


def given(el, k):
    g = ('get', el, C(k))
    return [(isnone(g), False), (('truthy', g), True)]


def text(v):
    """a text as a list of characters and terms, or None if it is unclear"""
    ch = chars(v)
    for x in ch:
        if not isinstance(x, str) and x[0] in ('phi', 'list', 'dict', 'obj'):
            return None
    return ch


def the(term):
    """this term; an altered one is certainly not it"""
    def f(t):
        if t == term:
            return True
        if t[0] in ('get', 'tag', 'text', 'prim', 'p', 'attr', 'len'):
            return False
        if t[0] in ('item', 'slice', 'bin') and contains(t, term):
            return False
        return None
    return f


def compare(ck, got, want, key, what, bad):
    """got: text; want: characters and predicates on terms"""
    if got is None:
        ck.open(what)
        return
    ok = len(got) == len(want)
    sure = False
    if ok:
        for g, w in zip(got, want):
            if isinstance(g, str) or isinstance(w, str):
                ok = ok and g == w
            else:
                r = w(g)
                if r is None:
                    ck.open(what)
                    return
                sure = sure or not r
                ok = ok and r
    if not ok and not sure and any(not isinstance(g, str) and not any(
            not isinstance(w, str) and w(g) for w in want) and
            g[0] not in ('get', 'tag', 'text', 'prim', 'p', 'attr')
            for g in got):
        ck.open(what)
        return
    ck.req(ok, key, what, bad % ''.join(
        g if isinstance(g, str) else '<%s>' % show(g)[:60] for g in got))


@once
def _flags(ck, prog):
    fn = anchor(prog, 'Model', 'get_flags_str')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    el = params(fn)[0]
    for p in ps:
        if p.kind != 'return':
            ck.req(None, 'flags/raise', 'flags of a node')
            continue
        for t in TYPES:
            for a, w in ACCESS.items():
                if not consistent(p, cells(el, type=t, access=a)):
                    continue
                want = '-x' if t in ('rpc', 'action') else \
                    '-n' if t == 'notification' else w
                if t == 'case' or a == 'none' and t not in ('rpc', 'action',
                                                            'notification'):
                    pass
                compare(ck, text(p.value), list(want), 'flags/%s/%s' % (t, a),
                        'flags of a %s with access %s' % (t, a),
                        'the flags of a ' + t + ' with access ' + str(a) +
                        ' are "%s"')


def is_name(el):
    def f(t):
        if t[0] != 'prim' or not t[1].endswith('.remove_model_prefix'):
            return False if t[0] in ('tag', 'get') or t[0] == 'prim' and \
                t[1].endswith('.url_to_prefix') or local(t) else None
        t = t[2][-1]
        if t[0] != 'prim' or not t[1].endswith('.url_to_prefix'):
            return False if t[0] in ('tag', 'get') else None
        return t[2][-1] == ('tag', el)
    return f


def local(t):
    return any(x and x[0] == 'call' and str(x[1]).endswith('QName') or
               x and x[0] in ('localname', 'qname') for x in subterms(t))


def is_flags(el):
    return lambda t: t[0] == 'prim' and t[1].endswith('.get_flags_str') and \
        t[2][-1] == el


@once
def _name(ck, prog):
    fn = anchor(prog, 'Model', 'get_name_str')
    eng = Engine(prog, opaque={'Model.get_flags_str', 'Model.url_to_prefix',
                               'Model.remove_model_prefix'})
    ps = eng.run(fn)
    ck.used(eng)
    el = params(fn)[0]
    F, N = is_flags(el), is_name(el)
    for p in ps:
        for t in TYPES:
            for m in ('true', None):
                for k in (False, True):
                    cell = cells(el, type=t, mandatory=m)
                    if k:
                        cell += given(el, 'key')
                    else:
                        cell += cells(el, key=None)
                    if not consistent(p, cell):
                        continue
                    what = 'name of a %s%s%s' % (
                        t, ' (mandatory)' if m else '',
                        ' with keys' if k else '')
                    if p.kind != 'return':
                        ck.fail('name/raise/' + t, 'get_name_str raises for '
                                'the ' + what)
                        continue
                    if t == 'choice':
                        want = [F] + list(' (') + [N] + list(')')
                    elif t == 'case':
                        want = list(':(') + [N] + list(')')
                    else:
                        want = [F, ' ', N]
                    if t in ('choice', 'leaf', 'anyxml', 'anydata') and not m:
                        want += ['?']
                    if t in ('list', 'leaf-list'):
                        want += ['*']
                    if t == 'list' and k:
                        want += list(' [') + [the(('get', el, C('key')))] + [']']
                    compare(ck, text(p.value), want, 'name/%s/%s/%s' % (
                        t, bool(m), k), what, 'the ' + what +
                        ' is written as %s')


@once
def _prefix(ck, prog):
    """names: {URL}name -> prefix:name -> name"""
    fn = anchor(prog, 'Model', 'url_to_prefix')
    eng = Engine(prog)
    for p in eng.run(fn):
        i = params(fn)[0]
        _url(ck, p, i)
    ck.used(eng)
    fn = anchor(prog, 'Model', 'remove_model_prefix')
    eng = Engine(prog)
    i = params(fn)[0]
    PRE = ('attr', SELF, 'prefix')
    for p in eng.run(fn):
        if p.kind != 'return':
            ck.open('remove_model_prefix raises')
            continue
        v = p.value
        own = None
        other = None
        for a, b in p.newfacts:
            if a[0] in ('truthy', 'eq') and a[0] == 'truthy' or NONE in a[1:]:
                t = a[1] if a[0] == 'truthy' else [
                    x for x in a[1:] if x != NONE][0]
                b = b if a[0] == 'truthy' else not b
                if t[0] == 'call' and t[1] in ('re.search', 're.match',
                                               're.fullmatch'):
                    pat = ''.join(x if isinstance(x, str) else
                                  '\0' if pre(x, PRE) else '\1'
                                  for x in chars(t[2][0]))
                    if t[2][1] == i:
                        if pat in ('^\0:(.+)$', '^\0:(.*)$') or \
                                t[1] != 're.search' and pat in (
                                    '\0:(.+)', '\0:(.+)$', '\0:(.*)'):
                            own = b
                        else:
                            other = pat
            if a[0] == 'startswith' and a[1] == i:
                pat = ''.join(x if isinstance(x, str) else
                              '\0' if x == PRE else '\1' for x in chars(a[2]))
                if pat == '\0:':
                    own = b
                else:
                    other = pat
            if a[0] == 'eq' and PRE in a[1:]:
                own = b
        if own is None:
            ck.req(False if other is not None and '\1' not in other else None,
                   'own/pattern', 'the prefix of the model is recognised',
                   'remove_model_prefix looks for %r' % other)
            continue
        if own is False:
            ck.req(v == i or (False if is_c(v) or v[0] in ('item', 'call',
                                                           'slice') else
                              None), 'own/kept', 'names of other modules keep '
                   'their prefix', 'remove_model_prefix turns another name '
                   'into %s' % show(v)[:80])
        else:
            ck.req(False if v == i else None if v[0] not in (
                'item', 'call', 'slice', 'group') else True, 'own/removed',
                'the prefix of the model is left out', 'remove_model_prefix '
                'leaves the prefix of the model')
    ck.used(eng)


def pre(t, PRE):
    return t == PRE or t[0] == 'call' and str(t[1]).split('.')[-1] == \
        'escape' and PRE in t[2]


def _url(ck, p, i):
    if p.kind != 'return':
        ck.open('url_to_prefix raises')
        return
    ch = chars(p.value)
    m = None
    G = None
    for a, b in p.newfacts:
        t = a[1] if a[0] == 'truthy' else ([
            x for x in a[1:] if x != NONE] or [NONE])[0] \
            if a[0] == 'eq' and NONE in a[1:] else NONE
        if t[0] == 'call' and t[1] in ('re.search', 're.match',
                                       're.fullmatch') and t[2][1] == i:
            m, G = (b if a[0] == 'truthy' else not b), t
    if m is None:
        ck.open('url_to_prefix: how names are taken apart')
        return
    if not m:
        ck.req(p.value == i or (False if is_c(p.value) else None),
               'url/plain', 'a name without namespace stays as it is',
               'url_to_prefix turns a name without namespace into %s' %
               show(p.value)[:80])
        return
    g = [x for x in ch if not isinstance(x, str)]
    lit = ''.join(x if isinstance(x, str) else '\0' for x in ch)
    urls = ('attr', SELF, 'urls')
    if len(g) == 1 and contains(g[0], G) and not contains(g[0], urls):
        ck.fail('url/prefix', 'url_to_prefix loses the prefix: it writes %s' %
                show(g[0])[:80])
        return
    ok = lit == '\0:\0' and len(g) == 2 and contains(g[0], urls) and \
        contains(g[1], G) and not contains(g[1], urls)
    ck.req(ok or (None if len(g) != 2 or not any(
        contains(x, G) for x in g) else False), 'url/prefix',
        'the URL is replaced by its prefix', 'url_to_prefix writes %s' %
        show(p.value)[:120])


def col(el, length):
    """blanks up to the column"""
    def f(t):
        if t[0] != 'bin' or t[1] != '*':
            return None
        n = t[3] if t[2] == C(' ') else t[2] if t[3] == C(' ') else None
        if n is None:
            return False
        if n[0] == 'bin' and n[1] == '-':
            return n[2][0] == 'prim' and n[2][1].endswith('.get_width') and \
                n[2][2][-1] == el and n[3] == length
        return False if n[0] == 'prim' or is_c(n) else None
    return f


@once
def _datatype(ck, prog):
    fn = anchor(prog, 'Model', 'get_datatype_str')
    eng = Engine(prog, opaque={'Model.get_width'})
    ps = eng.run(fn)
    ck.used(eng)
    el, ln = params(fn)[:2]
    S = col(el, ln)
    DT, FE = ('get', el, C('datatype')), ('get', el, C('if-feature'))
    for p in ps:
        for t in TYPES:
            for d in (True, False):
                for f in (True, False):
                    cell = cells(el, type=t)
                    cell += given(el, 'datatype') if d else \
                        cells(el, datatype=None)
                    cell += given(el, 'if-feature') if f else \
                        cells(el, if_feature=None)
                    if not consistent(p, cell):
                        continue
                    what = 'type of a %s%s%s' % (
                        t, ' with datatype' if d else '',
                        ' with if-feature' if f else '')
                    if p.kind != 'return':
                        ck.open(what)
                        continue
                    if t in ('anyxml', 'anydata'):
                        want = [S] + list('<%s>' % t)
                        if d:
                            continue
                    else:
                        want = [S, the(DT)] if d else []
                    if f:
                        want += list(' {') + [the(FE)] + list('}?')
                    got = text(p.value)
                    if got is not None and not d and t not in (
                            'anyxml', 'anydata') and got[:1] and \
                            not isinstance(got[0], str) and S(got[0]):
                        got = got[1:]           # aligned as well
                    compare(ck, got, want, 'type/%s/%s/%s' % (t, d, f), what,
                            'the ' + what + ' is written as %s')


def _entries(p):
    v = p.value
    if p.kind != 'return' or v[0] != 'list' or v[1] not in p.st.cont:
        return None
    return p.st.cont[v[1]]


@once
def _line(ck, prog):
    for cls in ('Model', 'ModelDiff'):
        fn = anchor(prog, cls, 'emit_children')
        extra = ('Model.get_datatype_str' if cls == 'Model' else
                 'ModelDiff.get_diff_str')
        eng = Engine(prog, opaque={
            'Model.get_depth_str', 'Model.get_name_str', extra,
            'ModelDiff.get_name_str'})
        ps = eng.run(fn)
        ck.used(eng)
        ty = params(fn)[1]
        for p in ps:
            es = _entries(p)
            if es is None:
                ck.open('%s.emit_children' % cls)
                continue
            for e in es:
                _oneline(ck, cls, e, ty, extra.split('.')[1])


def _oneline(ck, cls, e, ty, extra):
    ch = text(e.val)
    what = 'a line of a %s' % cls
    if ch is None or any(isinstance(x, str) for x in ch):
        ck.req(False if ch and all(isinstance(x, str) or x[0] == 'prim'
                                   for x in ch) else None, 'line/parts', what,
               what + ' is %s' % show(e.val)[:100])
        return
    el = None
    names = []
    for x in ch:
        if x[0] != 'prim':
            ck.open(what)
            return
        names.append(x[1].split('.')[-1])
        el = x[2][1 if names[-1] in ('get_name_str', extra) and
                  len(x[2]) > 1 else 0]
        els = [y for y in x[2] if y[0] == 'each']
        if els:
            el = els[0]
    ck.req(names[:2] == ['get_depth_str', 'get_name_str'] and
           names[2:] in ([], [extra]), 'line/order', what + ' has branches, '
           'name and type', what + ' is made of %s' % names)
    if names[:2] != ['get_depth_str', 'get_name_str']:
        return
    d = ch[0]
    same_el = all(el in x[2] for x in ch)
    ck.req(same_el, 'line/node', what + ' is about one node', what +
           ' is about several nodes')
    ck.req(ty in d[2] or (False if len(d[2]) == 1 or any(
        is_c(x) for x in d[2]) else None), 'line/section', 'branches are '
        'drawn within the section', 'branches are drawn for another section')
    if len(ch) == 3:
        n = ch[2][2][-1]
        ck.req(n == ('len', ch[1]) or (False if n[0] == 'len' or is_c(n)
                                       else None), 'line/length', 'the column '
               'depends on the length of the name', 'the column depends on '
               '%s' % show(n)[:60])
    # when is there a type?
    for cell, want in cases(el, cls):
        if not allows(e.guard, cell):
            continue
        if cls == 'Model' and not want:
            continue                    # the type of such a node is ''
        ck.req((len(ch) == 3) == want, 'line/%s' % extra, what + ' has a '
               'type exactly if the node has one', what + (
                   ' lacks ' if want else ' has ') + (
                   'the type' if cls == 'Model' else 'the mark') +
               ' of a node %s' % ', '.join(show(a)[-30:] for a, v in cell if v
                                            )[:120])


class Guard(object):
    """one case of a guard, as facts"""
    kind = 'return'

    def __init__(self, case):
        self.facts = Facts()
        self.ok = all(self.facts.assume(a, v) for a, v in case)


def allows(guard, cell):
    gs = [Guard(c) for c in guardcases(guard)]
    return any(g.ok and consistent(g, cell) for g in gs)


def cases(el, cls):
    if cls == 'ModelDiff':
        yield cells(el, diff=None), False
        yield given(el, 'diff'), True
        return
    for t in TYPES:
        for d in (True, False):
            for f in (True, False):
                cell = cells(el, type=t)
                cell += given(el, 'datatype') if d else \
                    cells(el, datatype=None)
                cell += given(el, 'if-feature') if f else \
                    cells(el, if_feature=None)
                yield cell, t in ('anyxml', 'anydata') or d or f


@once
def _diff(ck, prog):
    fn = anchor(prog, 'ModelDiff', 'get_diff_str')
    eng = Engine(prog, opaque={'Model.get_width'})
    el, ln = params(fn)[:2]
    for p in eng.run(fn):
        if p.kind != 'return':
            continue
        compare(ck, text(p.value), [col(el, ln), the(('get', el, C('diff')))], 'mark', 'the mark of a difference is in '
            'the column', 'the mark of a difference is written as %s')
    ck.used(eng)


def fold(t, M, n):
    """value of an arithmetic term with M replaced by n"""
    if t == M:
        return n
    if is_c(t):
        return cv(t)
    if t[0] == 'bin':
        a, b = fold(t[2], M, n), fold(t[3], M, n)
        if a is None or b is None:
            return None
        op = t[1]
        try:
            return {'+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b, 'Div': lambda: a / b,
                    '/': lambda: a / b, '//': lambda: a // b,
                    'FloorDiv': lambda: a // b, '%': lambda: a % b,
                    'Mod': lambda: a % b}[op]()
        except Exception:
            return None
    if t[0] == 'call' and str(t[1]).split('.')[-1] in ('ceil', 'int', 'floor',
                                                       'round'):
        a = fold(t[2][-1], M, n)
        if a is None:
            return None
        return {'ceil': math.ceil, 'int': int, 'floor': math.floor,
                'round': round}[str(t[1]).split('.')[-1]](a)
    return None


@once
def _width(ck, prog):
    fn = anchor(prog, 'Model', 'get_width')
    eng = Engine(prog, opaque={'Model.get_name_str'})
    el = params(fn)[0]
    W = ('attr', SELF, 'width')
    PAR = ('parent', el)
    ps = eng.run(fn)
    ck.used(eng)
    seen = False
    for p in ps:
        if p.kind != 'return':
            continue
        v = p.value
        if v[0] in ('item', 'get') and v[1] == W:
            ck.req(v[2] == PAR or (False if v[2] == el or is_c(v[2]) or
                                   v[2][0] in ('tag', 'get') else None),
                   'width/cache', 'the column is kept per parent',
                   'the column is kept per %s' % show(v[2])[:60])
            continue
        st = [e for e in p.events if e.kind == 'setitem' and e.recv == W]
        for e in st:
            ck.req(same(e.args[0], PAR) or (False if e.args[0] == el or
                                            e.args[0][0] in ('tag', 'get')
                                            else None), 'width/cache',
                   'the column is kept per parent', 'the column is kept per '
                   '%s' % show(e.args[0])[:60])
            ck.req(same(e.args[1], v) or None, 'width/value', 'the column '
                   'kept is the column used')
        lens = [x for x in subterms(v) if x and x[0] == 'len' and
                prims(x, 'get_name_str')]
        for M in lens[:1]:
            vals = [fold(v, M, n) for n in range(1, 60)]
            if None in vals:
                ck.open('where the column is')
                continue
            seen = True
            ck.req(all(w > n for n, w in enumerate(vals, 1)), 'width/room',
                   'the column is behind the longest name',
                   'the column does not leave room for the longest name')
        for l in loops(p):
            if l.recv[0] not in ('children', 'childtag', 'p', 'parent',
                                 'elemiter'):
                ck.req(False if l.recv[0] == 'siblings' else None,
                       'width/all', 'all siblings count', 'only %s count for '
                       'the column' % show(l.recv)[:60])
                continue
            ck.req(not l.exits, 'width/all', 'all siblings count',
                   'not all siblings count for the column')
            K = ('each', l.recv, 0)
            for b in l.bodies:
                _longest(ck, b, K)
            skip = [b for b in l.bodies if not sized(b, K)]
            if len(skip) < len(l.bodies):
                for b in skip:
                    why = [a for a, v in b.newfacts if contains(a, K)]
                    ck.req(False if why else None, 'width/all',
                           'all siblings count', 'a sibling does not count '
                           'for the column when %s' % facts_text(b, 3))
        for x in subterms(v):
            if x and x[0] == 'filter' and contains(x, PAR):
                ck.fail('width/all', 'only some siblings count for the '
                        'column: %s' % show(x)[:80])
    if not seen:
        ck.req(False if ignored(ps) else None, 'width/longest',
               'the longest name counts', 'names measured do not count for '
               'the column')
    for p in ps:
        if p.kind == 'return' and last(p):
            ck.fail('width/longest', 'the column depends on the last name '
                    'only')


def sized(b, K):
    """the name of this child is looked at"""
    def of(t):
        return any(contains(x, K) and not contains(x, ('prev', K))
                   for x in prims(t, 'get_name_str'))
    return any(of(a) for a, v in b.newfacts) or any(
        of(x) for f in b.st.frames.values() for x in f['vars'].values()) or \
        any(e.kind == 'call' and e.name == 'get_name_str' and any(
            contains(a, K) for a in e.args) for e in events(b))


def measured(b, K):
    """lengths of the name of this child that are kept"""
    return [k for f in b.st.frames.values() for k, x in f['vars'].items()
            if x[0] == 'len' and prims(x, 'get_name_str') and
            contains(x, K) and not contains(x, ('prev', K))]


def ignored(ps):
    """names are measured, and the column is a constant"""
    ps = [p for p in ps if p.kind == 'return' and loops(p)]
    return bool(ps) and all(
        not any(x and x[0] not in ('bin', 'c', 'call')
                for x in [p.value]) and fold(p.value, NONE, 0) is not None
        for p in ps) and any(
            measured(b, ('each', l.recv, 0)) for p in ps for l in loops(p)
            for b in l.bodies)


def last(p):
    """the result is the length of a name, taken without comparison"""
    v = p.value
    if any(x and x[0] in ('phi', 'prim', 'call') and
           str(x[1]).split('.')[-1] in ('max', 'sorted') for x in
           subterms(v)) or any(x and x[0] in ('max', 'maxof', 'sorted')
                               for x in subterms(v)):
        return False
    ls = [l for l in loops(p) if any(
        measured(b, ('each', l.recv, 0)) for b in l.bodies)]
    if len(ls) != 1:
        return False
    K = ('each', ls[0].recv, 0)
    if not any(x and x[0] == 'len' and prims(x, 'get_name_str') and
               contains(x, K) for x in subterms(v)):
        return False
    return all(len(measured(b, K)) > 1 and not any(
        contains(a, K) for a, w in b.newfacts) for b in ls[0].bodies)


def _longest(ck, b, K):
    """the longest name so far is kept"""
    for a, v in b.newfacts:
        if a[0] not in ('lt', 'le') or a[1][0] != 'len' or \
                a[2][0] != 'len':
            continue
        new = [contains(x, K) and not contains(x, ('prev', K))
               for x in a[1:3]]
        if new[0] == new[1]:
            continue
        longer = v if new[1] else not v         # old < new
        if a[0] == 'lt' and new[0] or a[0] == 'le' and new[1]:
            if v is False or a[0] == 'le' and v:
                strict = False
        cur = a[1] if new[0] else a[2]
        vals = [x for f in b.st.frames.values() for k, x in
                f['vars'].items() if x == cur]
        phis = [x for f in b.st.frames.values() for k, x in
                f['vars'].items() if x[0] == 'phi' and contains(x, ('prev', K))
                ]
        if longer:
            ck.req(not phis or None if vals else False, 'width/longest',
                   'the longest name counts', 'a longer name does not count '
                   'for the column')
        else:
            ck.req(bool(phis) or (None if not vals else False),
                   'width/longest', 'the longest name counts', 'a shorter '
                   'name replaces a longer one')


@once
def _depth(ck, prog):
    fn = anchor(prog, 'Model', 'get_depth_str')
    eng = Engine(prog)
    el, ty = params(fn)[:2]
    ps = eng.run(fn)
    ck.used(eng)
    done = set()
    n = 0
    for p in ps:
        if p.kind != 'return':
            ck.open('get_depth_str raises')
            continue
        ch = text(p.value)
        if ch is not None and all(isinstance(x, str) for x in ch):
            ck.req(''.join(ch).endswith('+--'), 'depth/end', 'a node is '
                   'joined to its branch', 'a node is joined by %r' %
                   ''.join(ch)[-4:])
        for l in loops(p):
            t, rev = l.recv, 0
            while t[0] in ('enum', 'reversed', 'list', 'cont'):
                if t[0] == 'cont':
                    break
                rev += t[0] == 'reversed'
                t = t[1]
            if t[0] != 'anc':
                continue
            if id(l) in done:
                continue
            done.add(id(l))
            n += 1
            ck.req(rev % 2 == 1 or (None if any(
                x and x[0] in ('bin', 'slice') for b in l.bodies
                for a, v in b.newfacts for x in subterms(a)) else False),
                'depth/order', 'branches are drawn from the root on',
                'branches are drawn from the parent on')
            ck.req(t[1] == el or None, 'depth/node', 'the ancestors of the '
                   'node count')
            ck.req(not l.exits, 'depth/all', 'all ancestors count',
                   'not all ancestors count')
            for b in l.bodies:
                _branch(ck, b, ('each', t, 0), ty)
    if not n:
        ck.open('get_depth_str: branches of ancestors')


def _drawn(b):
    """what the iteration appends to a text"""
    out = set()
    for f in b.st.frames.values():
        for k, x in f['vars'].items():
            if is_c(x) and isinstance(cv(x), str) and len(cv(x)) % 3 == 1 \
                    and not cv(x).strip(' |') and len(cv(x)) > 3:
                out.add(cv(x)[-3:])
    for e in events(b):
        if e.kind == 'mut' and e.name == 'append' and e.args and \
                is_c(e.args[0]) and isinstance(cv(e.args[0]), str):
            out.add(cv(e.args[0]))
    return out


def _branch(ck, b, A, ty):
    d = _drawn(b)
    if len(d) != 1:
        ck.open('get_depth_str: what is drawn for an ancestor')
        return
    d = d.pop()
    if d not in ('|  ', '   '):
        ck.fail('depth/width', 'a branch is drawn as %r' % d)
        return
    top = b.test(('eq', ('idx', A), C(1)))
    first = b.test(('eq', ('idx', A), C(0)))
    fol, sect = None, None
    for a, v in b.newfacts:
        if contains(a, ('prev', A)):
            continue
        if a[0] == 'eq' and NONE in a[1:] and any(
                x[0] == 'call' and x[1] in ('getnext', 'getprevious')
                for x in a[1:]):
            x = [y for y in a[1:] if y != NONE][0]
            if x[1] == 'getnext' and x[2][0] == A:
                fol = not v
            else:
                ck.fail('depth/sibling', 'a branch is drawn if %s' %
                        show(x)[:60])
                return
        if a[0] in ('truthy', 'len>=') and contains(a, A) and \
                a[1][0] == 'cont':
            sect = (v, a[1])
    if first:
        ck.req(d == '   ', 'depth/root', 'the module has no branch',
               'a branch is drawn for the module')
        return
    if top:
        if sect is None:
            ck.req(False if fol is not None else None, 'depth/section',
                   'siblings of other sections do not count', 'a branch is '
                   'drawn for top-level nodes of another section')
            return
        ck.req((d == '|  ') == sect[0], 'depth/branch', 'there is a branch '
               'if a sibling follows', 'a branch is drawn %s' % (
                   'although no sibling follows' if d == '|  ' else
                   'nowhere although a sibling follows'))
        for en in sect[1][2]:
            _section(ck, b, en, A, ty)
        return
    if top is None:
        ck.open('get_depth_str: top-level nodes') if sect or fol is None else \
            ck.fail('depth/section', 'branches of top-level nodes do not '
                    'depend on the section')
        return
    if sect is not None and fol is None:
        ck.fail('depth/inner', 'branches below the top level depend on the '
                'section')
        return
    if fol is None:
        ck.open('get_depth_str: siblings')
        return
    ck.req((d == '|  ') == fol, 'depth/branch', 'there is a branch if a '
           'sibling follows', 'a branch is drawn %s' % (
               'although no sibling follows' if d == '|  ' else
               'nowhere although a sibling follows'))


def _section(ck, b, en, A, ty):
    val, guard = en[0], en[2]
    if val[0] != 'each' or val[1][0] != 'siblings':
        ck.open('get_depth_str: which siblings count')
        return
    g = ('get', val, C('type'))
    pre_ = val[1]
    back = any(x == C('preceding') or x == C(True) for x in pre_[2:])
    ck.req(not back, 'depth/following', 'following siblings count',
           'preceding siblings count')
    sec = None
    for s in ('rpc', 'notification'):
        if b.test(('eq', ty, C(s))) is True:
            sec = s
    fs = flatguard(guard)
    for kind in ('rpc', 'notification', 'container', 'leaf'):
        for s in ('rpc', 'notification', 'other'):
            if sec is not None and s != sec:
                continue
            if sec is None and any(b.test(('eq', ty, C(x))) is True
                                   for x in ('rpc', 'notification')):
                continue
            if b.test(('eq', ty, C(s))) is False:
                continue
            want = kind == s or s == 'other' and kind not in (
                'rpc', 'notification')
            got = True
            for a, v in fs:
                r = None
                if a[0] == 'eq' and g in a[1:]:
                    o = [x for x in a[1:] if x != g]
                    o = C(s) if o and o[0] == ty else (o[0] if o else g)
                    if is_c(o):
                        r = cv(o) == kind
                elif a[0] == 'eq' and ty in a[1:]:
                    o = [x for x in a[1:] if x != ty][0]
                    if is_c(o):
                        r = cv(o) == s
                elif a[0] == 'in' and a[1] == g and a[2][0] == 'tup':
                    r = C(kind) in a[2][1]
                if r is None:
                    got = None
                elif r != v:
                    got = False
                    break
            ck.req(None if got is None else got == want, 'depth/siblings',
                   'siblings of the same section count', 'a %s %s for the '
                   'branches of section %s' % (
                       kind, 'counts' if got else 'does not count', s))


SECTIONS = ('rpc', 'notification', 'other')


def holds(a, sub):
    """truth of a fact with some terms replaced by constants"""
    if a[0] == 'or':
        rs = []
        for d in a[1]:
            r = True
            for x, v in d:
                h = holds(x, sub)
                if h is None:
                    r = None if r else r
                elif h != v:
                    r = False
            rs.append(r)
        return True if True in rs else None if None in rs else False
    if a[0] in ('eq', 'in'):
        x, y = [sub.get(t, t) for t in a[1:3]]
        if a[0] == 'in':
            if is_c(x) and y[0] == 'tup' and all(is_c(z) for z in y[1]):
                return x in y[1]
            return None
        if is_c(x) and is_c(y):
            return cv(x) == cv(y)
        return True if x == y else None
    return None


@once
def _nodes(ck, prog):
    """every node of a section is a line"""
    for cls in ('Model', 'ModelDiff'):
        fn = anchor(prog, cls, 'emit_children')
        eng = Engine(prog, opaque={
            'Model.get_depth_str', 'Model.get_name_str',
            'Model.get_datatype_str', 'ModelDiff.get_name_str',
            'ModelDiff.get_diff_str'})
        ps = eng.run(fn)
        ck.used(eng)
        tree, ty = params(fn)[:2]
        for p in ps:
            es = _entries(p)
            if es is None:
                ck.open('%s.emit_children' % cls)
                continue
            found = {(k, s): [] for k in ('rpc', 'notification', 'leaf',
                                          'container') for s in SECTIONS}
            clear = bool(es)
            for e in es:
                els = {x for x in subterms(e.val) if x and x[0] == 'each'
                       and x[1][0] in ('desc', 'children', 'childtag', 'p')}
                top = [x for x in els if x[1][0] == 'desc']
                if len(top) != 1:
                    flat = els and all(x[1] in (
                        tree, ('children', tree)) or x[1][0] == 'children'
                        for x in els)
                    ck.req(False if flat else None, 'nodes/deep', 'nodes of '
                           'all levels are shown', '%s shows only nodes of '
                           'one level' % cls)
                    clear = False
                    continue
                d = top[0][1]
                ck.req(True if d[2] in (NONE, ('ext', 'lxml.etree.Element'),
                                        C('*')) and len(d) < 5 else (
                    False if len(d) > 4 or is_c(d[2]) else None),
                    'nodes/all', 'all nodes are shown', '%s shows only %s' % (
                        cls, show(d)))
                root = d[1]
                if root == tree:
                    ck.fail('nodes/module', '%s shows the module as a node '
                            'and all sections at once' % cls)
                    continue
                if root[0] != 'each' or not contains(root, tree):
                    ck.open('%s: roots shown' % cls)
                    clear = False
                    continue
                g = ('get', root, C('type'))
                for k, s in found:
                    sub = {g: C(k), ty: C(s)}
                    r = True
                    for a, v in e.guard:
                        if not (contains(a, g) or contains(a, ty)):
                            continue
                        h = holds(a, sub)
                        if h is None:
                            r = r and None
                        elif h != v:
                            r = False
                            break
                    found[k, s].append(r)
            if not clear:
                continue
            for (k, s), rs in found.items():
                want = k == s or s == 'other' and k not in SECTIONS
                got = True if True in rs else None if None in rs else False
                ck.req(None if got is None else got == want,
                       'nodes/%s/%s' % (k, s), '%s in section %s' % (k, s),
                       '%s: a %s %s section %s' % (
                           cls, k, 'is shown in' if got else
                           'is left out of', s))


@once
def _tree(ck, prog):
    fn = anchor(prog, 'Model', 'emit_tree')
    eng = Engine(prog, opaque={'Model.emit_children',
                               'ModelDiff.emit_children'})
    ps = eng.run(fn)
    ck.used(eng)
    tree = params(fn)[0]

    def sec(t):
        if t[0] == 'prim' and t[1].endswith('.emit_children'):
            a = t[2][1:] if t[2][0] == SELF else t[2]
            if a[0] != tree:
                return None
            return cv(a[1]) if len(a) > 1 and is_c(a[1]) else 'other'
        return None
    for p in ps:
        if p.kind != 'return':
            ck.open('emit_tree raises')
            continue
        v = p.value
        if v[0] != 'join' or v[2][0] != 'cont':
            ck.open('emit_tree')
            continue
        ck.req(v[1] == C('\n') or (False if is_c(v[1]) else None),
               'tree/lines', 'lines are separated', 'lines are joined by %s'
               % show(v[1]))
        has = {}
        for a, b in p.newfacts:
            if a[0] == 'truthy' and sec(a[1]):
                has[sec(a[1])] = b
            elif a[0] == 'len>=' and sec(a[1]) and a[2] == 1:
                has[sec(a[1])] = b
        got = []
        for e in v[2][2]:
            x, many = e[0], e[3]
            if x[0] == 'each' and sec(x[1]):
                got.append(sec(x[1]))
            elif is_c(x):
                got.append(cv(x))
            elif x == ('str', (C('module: '), ('tag', tree))) or \
                    x == ('bin', '+', C('module: '), ('tag', tree)):
                got.append('module')
            else:
                got.append(None)
        if None in got:
            ck.open('emit_tree: lines')
            continue
        want = ['module', 'other']
        und = False
        for s, h in (('rpc', '  rpcs:'), ('notification',
                                          '  notifications:')):
            if has.get(s) is None:
                und = und or s not in got
                if s in got and h not in got:
                    ck.fail('tree/heading', 'section %s has no heading' % s)
                want = None
                break
            if has[s]:
                want += ['', h, s]
        if want is None:
            ck.req(False if und else None, 'tree/section', 'all sections are '
                   'shown', 'a section is left out of the text of a model')
            continue
        # an empty section adds no lines
        got = [g for g in got if g not in has or has[g]]
        ck.req(got == want, 'tree/order', 'sections follow each other under '
               'their headings', 'the text of a model %s is made of %s '
               'instead of %s' % (', '.join(
                   ('with ' if b else 'without ') + s
                   for s, b in has.items()), got, want))
