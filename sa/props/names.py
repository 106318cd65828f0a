"""C29: notations of names, conversions between them, paths of nodes, and
which defaults are in use."""
import ast
import re

from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..terms import C, NONE, contains, cv, is_c, show, subterms
from .device import SELF
from ..pairs import STROPS
from .model import once, params

NS = ('prim', 'manager.ModelDevice.namespaces', (SELF,))
EACH = ('each', NS, 0)
COLON = ('^(.+):(.+)$', '{}:{}')
BRACE = (r'^\{(.+)\}(.+)$', '{{{}}}{}')
NOTATION = {'YTOOL': (1, 'omit', COLON), 'XPATH': (1, 'omit', COLON),
            'LXML_XPATH': (1, 'no', COLON), 'LXML_ETREE': (2, 'no', BRACE),
            'JSON_NAME': (0, 'omit', COLON), 'JSON_PREFIX': (1, 'omit', COLON)}
SPECIAL = {'urn:ietf:params:xml:ns:netconf:base:1.0': 'nc',
           'urn:ietf:params:xml:ns:yang:1': 'yang',
           'http://tail-f.com/ns/netconf/params/1.1': 'tailf',
           'urn:ietf:params:xml:ns:netconf:notification:1.0': 'ncEvent'}
SAMPLES = ['a', 'a:b', ':b', 'a:', 'a:b:c', '{u}b', '{u:v}b', '{u}', '{}b',
           'x{u}b', '{u}b:c', '{u:v/w}b', '{u}{v}b', '', ':', 'pre-fix:na.me',
           'nc', 'x:{u}b', 'urn:x:y', '{urn:x:y}z']


def c29(ck, prog, tier):
    ck.part(_notations, ck, prog)
    ck.part(_tags, ck, prog)
    ck.part(_spaces, ck, prog)
    ck.part(_defaults, ck, prog)
    ck.part(_path, ck, prog)
    ck.part(_isconfig, ck, prog)
    ck.part(_in_use, ck, prog)


# ----------------------------------------------------------------------
# notations

class Unclear(Exception):
    pass


def lit(prog, e, depth=0):
    """constant expressions of the class Tag as Python values"""
    T = prog.classes['Tag']
    if depth > 12:
        raise Unclear
    if isinstance(e, ast.Name) and e.id in T.attrs:
        return lit(prog, T.attrs[e.id], depth + 1)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
            e.value.id == 'Tag' and e.attr in T.attrs:
        return lit(prog, T.attrs[e.attr], depth + 1)
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(lit(prog, x, depth + 1) for x in e.elts)
    if isinstance(e, ast.Subscript):
        return lit(prog, e.value, depth + 1)[lit(prog, e.slice, depth + 1)]
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return lit(prog, e.left, depth + 1) + lit(prog, e.right, depth + 1)
    try:
        return ast.literal_eval(e)
    except ValueError:
        raise Unclear


def term(v):
    if isinstance(v, tuple):
        return ('tup', tuple(term(x) for x in v))
    return C(v)


def tags(prog):
    if 'Tag' not in prog.classes:
        raise AnalysisBroken('class Tag not found')
    T = prog.classes['Tag']
    out = {}
    for n in NOTATION:
        if n not in T.attrs:
            raise AnalysisBroken('Tag.%s not found' % n)
        out[n] = lit(prog, T.attrs[n])
    return out, {n: lit(prog, T.attrs[n]) for n in (
        'NO_OMIT', 'OMIT_BY_INHERITANCE', 'OMIT_BY_MODULE', 'NAME', 'PREFIX',
        'NAMESPACE') if n in T.attrs}


def same_re(a, b):
    def res(r, s):
        m = re.search(r, s)
        return m and m.groups()
    return all(res(a, s) == res(b, s) for s in SAMPLES)


@once
def _notations(ck, prog):
    try:
        ts, ks = tags(prog)
    except Unclear:
        ck.open('notations: not constant')
        return
    for n, v in (('NAME', 0), ('PREFIX', 1), ('NAMESPACE', 2)):
        ck.req(ks.get(n) == v, 'notation/' + n,
               'Tag.%s is position %d of a namespace' % (n, v),
               'Tag.%s is %r' % (n, ks.get(n)))
    om = [ks.get('NO_OMIT'), ks.get('OMIT_BY_INHERITANCE'),
          ks.get('OMIT_BY_MODULE')]
    ck.req(len(set(om)) == 3, 'notation/omit', 'omission constants differ',
           'omission constants of Tag are not distinct')
    for n, (kind, omit, (rx, fmt)) in NOTATION.items():
        t = ts[n]
        ck.req(t[0] == kind, 'notation/%s/kind' % n,
               'Tag.%s writes %s' % (n, ('names', 'prefixes', 'URLs')[kind]),
               'Tag.%s writes %s' % (n, t[0]))
        ck.req((t[1] == om[0]) == (omit == 'no') and t[1] in om,
               'notation/%s/omit' % n, 'Tag.%s omits namespaces as it should'
               % n, 'Tag.%s: omission is %r' % (n, t[1]))
        ok = same_re(rx, t[2][0])
        ck.req(ok, 'notation/%s/split' % n, 'Tag.%s splits a name in '
               'namespace and name' % n, 'Tag.%s splits names with %r' % (
                   n, t[2][0]))
        ok = t[2][1].format('A', 'b') == fmt.format('A', 'b')
        ck.req(ok, 'notation/%s/format' % n, 'Tag.%s joins namespace and name'
               % n, 'Tag.%s writes %s' % (n, t[2][1].format('A', 'b')))


# ----------------------------------------------------------------------
# convert_tag

def gr(t, src):
    """normal form of the groups of the match of the tag: ('G', 1)"""
    if isinstance(t, frozenset):
        return frozenset(gr(x, src) for x in t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'call' and str(t[1]).split('.')[-1] == 'group' and \
            len(t) > 2 and len(t[2]) == 2 and is_match(t[2][0]) and \
            is_c(t[2][1]):
        return ('G', cv(t[2][1]), t[2][0])
    if t and t[0] == 'item' and is_c(t[2]) and is_match(t[1]):
        return ('G', cv(t[2]), t[1])
    if t and t[0] == 'item' and is_c(t[2]) and isinstance(t[1], tuple) and \
            t[1] and t[1][0] == 'call' and \
            str(t[1][1]).split('.')[-1] == 'groups' and \
            len(t[1]) > 2 and t[1][2] and is_match(t[1][2][0]):
        return ('G', cv(t[2]) + 1, t[1][2][0])
    return tuple(gr(x, src) for x in t)


def is_match(t):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == 'call' and \
        t[1] in ('re.search', 're.match', 're.fullmatch') and \
        len(t[2]) > 1 and is_c(t[2][0])


def parts(t):
    if t[0] == 'bin' and t[1] == '+':
        return parts(t[2]) + parts(t[3])
    if t[0] == 'str':
        out = []
        for x in t[1]:
            out += parts(x)
        return out
    return [t]


def chars(t):
    """a text as a list of characters and terms"""
    out = []
    for x in parts(t):
        if is_c(x) and isinstance(cv(x), str):
            out += list(cv(x))
        else:
            out.append(x)
    return out


def lookups(pth, src, ns):
    """collections of the namespaces that match, and what is known of them:
    (list, index, term, guard ok)"""
    out = {}
    for a, v in pth.newfacts:
        if a[0] not in ('truthy', 'len>=', 'eq'):
            continue
        for t in subterms(a):
            if isinstance(t, tuple) and t and t[0] == 'cont' and len(t) == 3 and len(t[2]) == 1 and \
                    contains(t[2][0][0], EACH) and t[2][0][2]:
                k = out.setdefault(t, {})
                if a == ('truthy', t):
                    k['some'] = v
                elif a[0] == 'len>=' and a[1] == t:
                    k[a[2]] = v
                elif a[0] == 'eq' and ('len', t) in a[1:]:
                    o = [x for x in a[1:] if x != ('len', t)][0]
                    if is_c(o) and cv(o) == 1 and v:
                        k['some'], k[2] = True, False
                    if is_c(o) and cv(o) == 0:
                        k['some'] = not v
    return out


def selects(guard, src0, ns):
    """does the guard choose the namespaces whose src0 is ns?"""
    g = list(flatguard(guard)) if not isinstance(guard, frozenset) else \
        list(guard)
    want = ('item', EACH, C(src0))
    if len(g) != 1:
        return None
    a, v = g[0]
    if a[0] != 'eq' or not v:
        if contains(a, want) and contains(a, ns) and (
                a[0] in ('prefix', 'suffix', 'in', 'startswith', 'endswith') or
                a[0] == 'truthy' and
                a[1][0] == 'call' and str(a[1][1]).split('.')[-1] in (
                    'startswith', 'endswith', 're.match', 're.search',
                    'match', 'search')):
            return False
        return False if a[0] == 'eq' else None
    if want in a[1:] and ns in a[1:]:
        return True
    if ns in a[1:]:
        o = [x for x in a[1:] if x != ns]
        if o and o[0][0] == 'item' and o[0][1] == EACH:
            return False
    if want in a[1:]:
        return False
    return None


class P:
    """a path with its terms in normal form"""

    def __init__(self, p, src):
        self.p = p
        self.kind = p.kind
        self.exc = p.exc
        self.value = gr(p.value, src) if p.value is not None else None
        self.newfacts = [(gr(a, src), v) for a, v in p.newfacts]
        self.st = p.st
        self.facts = p.facts

    def test(self, a):
        for b, v in self.newfacts:
            if b == a or b[0] == 'eq' and a[0] == 'eq' and \
                    set(b[1:]) == set(a[1:]):
                return v
        return None


@once
def _tags(ck, prog):
    try:
        ts, ks = tags(prog)
    except Unclear:
        ck.open('convert_tag: notations are not constant')
        return
    fn = prog.method('ModelDevice', 'convert_tag')
    ps = params(fn)
    if len(ps) < 4:
        raise AnalysisBroken('convert_tag takes %d arguments' % len(ps))
    D, TAG, S, T = ps[:4]
    for s in NOTATION:
        for d in NOTATION:
            eng = Engine(prog, opaque={'ModelDevice.namespaces'})
            paths = eng.run(fn, args={S[1]: term(ts[s]), T[1]: term(ts[d])})
            ck.used(eng)
            for p in paths:
                ck.part(_tag, ck, P(p, ts[s]), s, d, ts, ks, D, TAG)


def _tag(ck, p, s, d, ts, ks, D, TAG):
    src, dst = ts[s], ts[d]
    w = 'convert_tag %s->%s' % (s, d)
    k = 'tag/%s-%s/' % (s, d)
    noomit = ks['NO_OMIT']
    # is the tag matched?
    m = None
    G = None
    for a, v in p.newfacts:
        if a[0] == 'truthy' and is_match(a[1]) and a[1][2][1] == TAG:
            m, G = v, a[1]
        if a[0] == 'eq' and NONE in a[1:]:
            o = [x for x in a[1:] if x != NONE]
            if o and is_match(o[0]) and o[0][2][1] == TAG:
                m, G = not v, o[0]
    if G is None:
        ck.open(w + ': how the tag is taken apart')
        return
    ck.req(same_re(cv(G[2][0]), src[2][0]), 'tag/split/' + s, w + ': the tag '
           'is taken apart as the source notation says', w + ' takes the tag '
           'apart with %r' % cv(G[2][0]))
    if m:
        ns, name = ('G', 1, G), ('G', 2, G)
        if p.test(('truthy', ns)) is False:
            return                              # (.+) is never empty
    else:
        ns, name = D, TAG
        if src[1] == noomit:
            ck.req(p.kind == 'raise' and p.exc.cls == 'ValueError',
                   k + 'bare', w + ': a tag without namespace is an error',
                   w + ': a tag without namespace does not raise ValueError')
            return
    inlist = None
    for a, v in p.newfacts:
        if m and a[0] == 'in' and a[1] == ns and a[2][0] == 'cont':
            inlist = (v, a[2])
    look = lookups(p, src, ns)
    found = None                                # is a model found?
    many = None
    for t, x in look.items():
        ok = selects(t[2][0][2], src[0], ns)
        if ok is False:
            ck.fail(k + 'lookup', w + ' looks for models with %s' % ', '.join(
                show(a)[:80] for a, v in flatguard(t[2][0][2])))
            return
        if ok:
            found = x.get('some', found)
            if x.get(2) is True:
                found, many = True, True
            elif x.get(2) is False and many is None:
                many = False
    pairs = special(src[0], dst[0])
    spec = None
    for a, b in pairs:
        if p.test(('eq', ns, C(a))):
            spec = b
    inherits = not m or p.test(('eq', ns, D)) is True
    may = dst[1] != noomit
    if p.kind == 'raise':
        c = p.exc.cls
        if may and inherits and not (inlist and inlist[0] is False):
            # a tag in the default namespace needs no lookup
            ck.req(False if inlist or not m else None, k + 'omitted',
                   w, w + ': a tag in the default '
                   'namespace raises %s' % c)
            return
        if many:
            ck.req(c == 'ModelError', k + 'many', w + ': several models are a '
                   'ModelError', w + ': several models with one %s raise %s' %
                   (KINDS[src[0]], c))
            return
        if found:
            ck.req(False if many is False else None, k + 'found', w,
                   w + ': a namespace of one model '
                   'raises %s' % c)
            return
        if found is False and pairs and not (inlist and inlist[0] is False):
            ck.req(all(p.test(('eq', ns, C(x))) is False or p.test(
                ('eq', ns, C(x))) is not None for x, y in pairs) or (
                    None if any(contains(f, C(x)) for x, y in pairs
                                for f, g in p.newfacts if f[0] != 'in')
                    else False), k + 'special', w + ': well-known namespaces '
                'are looked up', w + ' does not look up the well-known '
                'namespaces')
        if spec is not None and found is False:
            ck.fail(k + 'special', w + ': the namespace %s raises %s' % (
                spec, c))
            return
        if inlist and inlist[0] is False:
            ck.part(_known, ck, w, k, inlist[1], src[0])
        elif not found is False:
            ck.open(w + ': when %s is raised' % c)
            return
        ck.req(c == 'ValueError', k + 'unknown', w + ': an unknown namespace '
               'is a ValueError', w + ': an unknown namespace raises %s' % c)
        return
    v = p.value
    if v is None or v[0] != 'tup' or len(v[1]) != 2:
        ck.open(w + ': result %s' % show(v)[:60])
        return
    if inlist and inlist[0] is False:
        ck.fail(k + 'unknown', w + ' accepts a namespace no model has')
        return
    a, b = v[1]
    ck.req(a == ns or (inherits and a in (ns, D)) or plain(a, m, G, TAG, D),
           k + 'ns', w + ': the namespace of the '
           'tag is returned', w + ' returns %s as the namespace of %s' % (
               show(a)[:50], 'a tag with a namespace' if m else
               'a tag without namespace'))
    ch = chars(b)
    if ch == [name] or ch == list(()):
        # the name alone
        empty = [x for x, y in p.newfacts if y is False and x[0] == 'truthy'
                 and x[1][0] == 'item' and contains(x[1], EACH)]
        if empty:
            return                              # namespaces are not empty
        if m and not inlist and not found:
            ck.fail(k + 'unknown', w + ' accepts a namespace no model has')
            return
        if not may:
            ck.fail(k + 'written', w + ' leaves out the namespace')
            return
        if inherits:
            ck.ok(w + ': the default namespace is left out')
        else:
            ck.fail(k + 'omit', w + ' leaves out a namespace that may differ '
                    'from the default one')
        return
    if ch and ch[-1] != name:
        ck.req(plain(ch[-1], m, G, TAG, D) if not isinstance(ch[-1], str)
               else None, k + 'name', w, w + ' writes %s as the '
               'name' % show(ch[-1])[:50])
        return
    # with a namespace
    fmt = NOTATION[d][2][1].format('\0', '').split('\0')
    pre, post = list(fmt[0]), list(fmt[1])
    body = ch[:-1]
    if body[:len(pre)] != pre or len(post) and body[-len(post):] != post:
        ck.req(False if all(isinstance(x, str) or x[0] in ('item', 'G', 'p')
                            for x in body) else None, k + 'format', w,
               w + ' writes %s' % show(b)[:80])
        return
    body = body[len(pre):len(body) - len(post)]
    if may:
        e = p.test(('eq', ns, D))
        if inherits or e is None:
            ck.fail(k + 'omit', w + ' writes the default namespace' if inherits
                    else w + ' does not ask whether the namespace is the '
                    'default one')
            return
    if body and all(isinstance(x, str) for x in body):
        x = ''.join(body)
        ck.req(spec == x if spec is not None else (False if x not in [
            q for o, q in pairs] else None), k + 'special', w +
            ': well-known namespaces', w + ' writes %s for %s' % (x, show(ns)))
        return
    if len(body) != 1:
        ck.open(w + ': namespace %s' % body)
        return
    x = body[0]
    if x == ns:
        ck.req(src[0] == dst[0], k + 'convert', w + ': the namespace needs no '
               'conversion', w + ' does not convert the namespace')
        return
    if altered(x):
        ck.fail(k + 'kind', w + ' writes only a part of the namespace (%s)' %
                show(x)[:60])
        return
    if x[0] != 'item' or not is_c(x[2]):
        ck.req(plain(x, m, G, TAG, D), k + 'convert', w, w + ' writes the '
               'namespace %s' % show(x)[:60])
        return
    ck.req(cv(x[2]) == dst[0], k + 'kind', w + ': the %s of the model is '
           'written' % KINDS[dst[0]], w + ' writes the %s of the model' %
           KINDS.get(cv(x[2]), '?'))
    sel = None
    if x[1][0] == 'pick' and x[1][2] == EACH:
        sel = selects(x[1][3], src[0], ns)
    elif x[1] == EACH:
        sel = selects([f for f in p.newfacts if contains(f[0], EACH)],
                      src[0], ns)
    ck.req(sel, k + 'model', w + ': the model with that %s' % KINDS[src[0]],
           w + ' takes the namespace of another model: %s' % show(x[1])[:80])
    if x[1][0] == 'pick' and sel:
        ck.req(many is False or (False if many is None and
                                 found is not None else None), k + 'many',
               w + ': one model', w + ' does not ask whether several models '
               'have that %s' % KINDS[src[0]])


def altered(x):
    """a part of (or a change to) a member of the namespaces table"""
    t, n = x, 0
    while isinstance(t, tuple) and t:
        if t[0] == 'item' and (t[1] == EACH or t[1][0] == 'pick'):
            return n > 0
        if t[0] == 'call' and t[1] in STROPS and t[2]:
            t, n = t[2][0], n + 1
        elif t[0] == 'slice':
            t, n = t[1], n + 1
        elif t[0] == 'item' and t[1][0] in ('call', 'slice'):
            t = t[1]
        else:
            return False
    return False


KINDS = {0: 'name', 1: 'prefix', 2: 'URL'}


def special(s, d):
    if 0 in (s, d):
        return []
    out = []
    for u, x in SPECIAL.items():
        t = ('', x, u)
        out.append((t[s], t[d]))
    return out


def plain(a, m, G, TAG, D):
    """False for a term that is recognisably something else"""
    if a in (TAG, D) or a[0] == 'G' or is_c(a) or a[0] == 'item':
        return False
    return None


def _known(ck, w, k, coll, src0):
    """the namespaces a tag may have"""
    consts, each = set(), []
    for e in coll[2]:
        if is_c(e[0]):
            consts.add(cv(e[0]))
        elif contains(e[0], EACH):
            each.append((e[0], e[2]))
        else:
            ck.open(w + ': known namespaces %s' % show(e[0])[:50])
            return
    ck.req(any(t == ('item', EACH, C(src0)) and not g for t, g in each) or
           (False if each and all(t[0] == 'item' for t, g in each) or not each
            else None), k + 'known', w + ': the namespaces of all models are '
           'known', w + ' does not know the %s of all models' % KINDS[src0])
    want = set(SPECIAL.values()) if src0 == 1 else \
        set(SPECIAL) if src0 == 2 else set()
    ck.req(want <= consts, k + 'wellknown', w + ': well-known namespaces are '
           'known', w + ' does not know %s' % ', '.join(want - consts))


# ----------------------------------------------------------------------
# convert_ns

@once
def _spaces(ck, prog):
    fn = prog.method('ModelDevice', 'convert_ns')
    ps = params(fn)
    if len(ps) < 3:
        raise AnalysisBroken('convert_ns takes %d arguments' % len(ps))
    N, S, T = ps[:3]
    for s in range(3):
        for d in range(3):
            eng = Engine(prog, opaque={'ModelDevice.namespaces'})
            for p in eng.run(fn, args={S[1]: C(s), T[1]: C(d)}):
                ck.part(_space, ck, P(p, None), s, d, N)
            ck.used(eng)


def _space(ck, p, s, d, N):
    w = 'convert_ns %s->%s' % (KINDS[s], KINDS[d])
    k = 'ns/%s-%s/' % (KINDS[s], KINDS[d])
    found = many = None
    for t, x in lookups(p, None, N).items():
        ok = selects(t[2][0][2], s, N)
        if ok is False:
            ck.fail(k + 'lookup', w + ' looks for models with %s' % ', '.join(
                show(a)[:80] for a, v in flatguard(t[2][0][2])))
            return
        if ok:
            found = x.get('some', found)
            if x.get(2) is True:
                found, many = True, True
            elif x.get(2) is False and many is None:
                many = False
    if p.kind == 'raise':
        if many or found is False:
            ck.req(p.exc.cls == 'ValueError', k + 'error', w + ': no model or '
                   'several models are a ValueError', w + ': %s models raise '
                   '%s' % ('several' if many else 'no', p.exc.cls))
        else:
            ck.req(False if found and many is False else None, k + 'found', w,
                   w + ' raises %s for the namespace of one model' % p.exc.cls)
        return
    x = p.value
    if many or found is False:
        ck.fail(k + 'error', w + ' returns %s when %s models match' % (
            show(x)[:50], 'several' if many else 'no'))
        return
    if x is None or is_c(x) or x == N and s != d:
        ck.fail(k + 'value', w + ' returns %s' % show(x)[:50])
        return
    if x[0] != 'item' or not is_c(x[2]):
        ck.open(w + ': %s' % show(x)[:50])
        return
    ck.req(cv(x[2]) == d, k + 'kind', w + ': what is returned', w +
           ' returns the %s' % KINDS.get(cv(x[2]), '?'))
    sel = selects(x[1][3], s, N) if x[1][0] == 'pick' and x[1][2] == EACH \
        else None
    ck.req(sel, k + 'model', w + ': of the model that has it', w + ' returns '
           'that of another model')
    if sel:
        ck.req(many is False or (False if many is None and found is not None
                                 else None), k + 'error',
               w + ': of one model only', w + ' does not reject several '
               'models')


# ----------------------------------------------------------------------
# defaults of the parameters

@once
def _defaults(ck, prog):
    try:
        ts, ks = tags(prog)
    except Unclear:
        ck.open('defaults: notations are not constant')
        return
    want = {'convert_tag': [(2, ts['LXML_ETREE']), (3, ts['YTOOL'])],
            'convert_ns': [(1, 2), (2, 0)],
            'get_xpath': [(1, ts['XPATH']), (2, True)]}
    for f, ws in want.items():
        fn = prog.method('ModelDevice', f)
        a = fn.node.args
        args = [x.arg for x in a.args][1:]
        ds = dict(zip(args[len(args) - len(a.defaults):], a.defaults))
        for i, v in ws:
            n = args[i] if i < len(args) else None
            if n not in ds:
                ck.fail('default/%s/%d' % (f, i), '%s: argument %d has no '
                        'default' % (f, i))
                continue
            try:
                got = lit(prog, ds[n])
            except Unclear:
                ck.open('default of %s of %s' % (n, f))
                continue
            ck.req(got == v, 'default/%s/%s' % (f, n), 'default of %s of %s'
                   % (n, f), 'the default of %s of %s is %s' % (
                       n, f, ast.unparse(ds[n])))


# ----------------------------------------------------------------------
# get_xpath

CT = 'manager.ModelDevice.convert_tag'
NODE = ('attr', SELF, 'node')
CUR = (('each', ('anc', NODE, NONE), 0), NODE)


def conv(t):
    """convert_tag(dev, default, tag, dst=T): (default, tag, dst)"""
    if not (isinstance(t, tuple) and t and t[0] == 'prim' and t[1] == CT):
        return None
    a = list(t[2])[1:]
    kw = dict(t[3]) if len(t) > 3 else {}
    names = ('default_ns', 'tag', 'src', 'dst')
    d = dict(zip(names, a))
    d.update(kw)
    return d


@once
def _path(ck, prog):
    try:
        ts, ks = tags(prog)
    except Unclear:
        ck.open('get_xpath: notations are not constant')
        return
    for n in ('XPATH', 'LXML_XPATH', 'YTOOL'):
        for inst in (True, False):
            ck.part(_steps, ck, prog, ts, n, inst)
    # the method of the device hands over its arguments
    fn = prog.method('ModelDevice', 'get_xpath')
    N, T, I = (params(fn) + [None] * 3)[:3]
    eng = Engine(prog, opaque={'Composer.get_xpath'})
    for p in eng.run(fn):
        cs = [e for e in events(p) if e.kind == 'call' and
              e.name == 'get_xpath']
        if p.kind != 'return' or not cs:
            ck.req(False if p.kind == 'raise' or is_c(p.value) else None,
                   'xpath/hand', 'get_xpath', 'get_xpath of a device gives %s'
                   % (p.exc.cls if p.kind == 'raise' else show(p.value)))
            continue
        e = cs[-1]
        a = list(e.args) + [v for k, v in (e.kw.items() if isinstance(
            getattr(e, 'kw', None), dict) else getattr(e, 'kw', ()) or ())]
        ck.req(T in a or (None if any(x[0] not in ('p', 'c', 'tup')
                                      for x in a) else False), 'xpath/type', 'the notation asked for is used',
               'get_xpath does not use the notation asked for')
        ck.req(I in a or (None if any(x[0] not in ('p', 'c', 'tup')
                                      for x in a) else False),
               'xpath/instance', 'instance is handed on',
               'get_xpath ignores instance')
    ck.used(eng)


def _steps(ck, prog, ts, n, inst):
    fn = prog.method('Composer', 'get_xpath')
    ps = params(fn)
    T = term(ts[n])
    w = 'get_xpath(%s, instance=%s)' % (n, inst)
    k = 'xpath/%s/%s/' % (n, inst)
    eng = Engine(prog, opaque={
        'ModelDevice.convert_tag', 'Composer.keys', 'Composer.schema_node',
        'Composer.is_config', 'Composer.model_name', 'Composer.model_ns'})
    tag = prog.classes['Tag']
    paths = eng.run(fn, args={ps[0][1]: lambda e: e.class_attr(tag, n),
                              ps[1][1]: C(inst)})
    ck.used(eng)
    mn = ('prim', 'composer.Composer.model_name', (SELF,))
    mu = ('prim', 'composer.Composer.model_ns', (SELF,))
    seen, defaults = 0, set()
    for p in paths:
        if p.kind == 'raise':
            ck.fail(k + 'raise', w + ' raises %s' % p.exc.cls)
            continue
        has = p.value is not None and contains(p.value, mn)
        if n == 'YTOOL':
            ck.req(has and parts(p.value)[0] == mn or (False if not has else
                                                       None),
                   k + 'model', w + ': starts with the model name',
                   w + ' does not start with the model name')
        else:
            ck.req(not has, k + 'model', w + ': no model name', w +
                   ' has the model name')
    for l in distinct_loops(paths):
        if any(x and x[0] == 'prim' and x[1] == 'composer.Composer.keys'
               for x in subterms(l.recv)):
            continue
        for b in l.bodies:
            for t in body_texts(b):
                r = step(b, t, T)
                if r is None:
                    continue
                N, d, sep, suffix = r
                seen += 1
                defaults.add(d['default_ns'])
                ck.req(value(b, d.get('dst')) == T, k + 'notation', w + ': each step is '
                       'in the notation asked for', w + ' writes a step in '
                       'another notation: %s' % show(d.get('dst'))[:40])
                ck.req(sep, k + 'slash', w + ': steps are separated by a '
                       'slash', w + ' does not separate steps by a slash')
                ck.part(_predicate, ck, b, N, suffix, n, inst, w, k)
            ck.part(_keyloops, ck, b, T, n, inst, w, k)
    if not seen:
        ck.open(w + ': steps not recognised')
        return
    first = {x for x in defaults if not contains_conv(x)}
    nxt = {x for x in defaults if contains_conv(x)}
    want = mu if n == 'YTOOL' else C('')
    ck.req(want in first if all(x == want for x in first) else (
        False if all(is_c(x) or x[0] == 'prim' for x in first) else None),
        k + 'top', w + ': default namespace at the top', w + ': the default '
        'namespace at the top is %s' % ', '.join(map(show, first))[:60])
    ck.req(bool(nxt) and all(ok0(x) for x in nxt) or (
        False if not nxt or any(bad0(x) for x in nxt) else None),
        k + 'chain', w + ': each step is relative to the namespace of its '
        'parent', w + ': a step is not relative to the namespace of its '
        'parent')


def value(b, t):
    """a constant tuple, its lists read as tuples"""
    if t is None:
        return None
    if t[0] == 'tup':
        return ('tup', tuple(value(b, x) for x in t[1]))
    if t[0] == 'list' and t[1] in b.st.cont:
        return ('tup', tuple(value(b, e.val) for e in b.st.cont[t[1]]))
    if t[0] == 'cont':
        return ('tup', tuple(value(b, e[0]) for e in t[2]))
    return t


def contains_conv(t):
    return any(x and x[0] == 'prim' and x[1] == CT for x in subterms(t))


def outer(t):
    """items of convert_tag at the top of a term (through phi)"""
    if t[0] == 'phi':
        for x in t[2]:
            yield from outer(x[0] if isinstance(x, tuple) and x and
                             isinstance(x[0], tuple) else x)
    else:
        yield t


def ok0(t):
    return all(x[0] == 'item' and conv(x[1]) is not None and
               x[2] == C(0) or not contains_conv(x) for x in outer(t))


def bad0(t):
    return any(x[0] == 'item' and conv(x[1]) is not None and x[2] != C(0)
               for x in outer(t))


def body_texts(b):
    out = []
    for fid, fr in b.st.frames.items():
        for k, v in fr['vars'].items():
            if isinstance(v, tuple) and v and v[0] == 'str' and v not in out:
                out.append(v)
    return out


def step(b, t, T):
    """(node, arguments of convert_tag, separated, suffix) of the last step of
    a text, if that is of the current node"""
    ch = chars(t)
    last = None
    for i, x in enumerate(ch):
        if isinstance(x, str) or x[0] != 'item' or x[2] != C(1):
            continue
        d = conv(x[1])
        if d and d.get('tag', ('',))[0] == 'tag' and d['tag'][1] in CUR:
            last = (i, d)
    if last is None:
        return None
    i, d = last
    return d['tag'][1], d, i > 0 and ch[i - 1] == '/', ch[i + 1:]


def situation(b, N):
    """(is it a config tree, type of the node, last one, Composer of N)"""
    conf = b.facts.test(('truthy', ('prim', 'composer.Composer.is_config',
                                    (SELF,))))
    typ, comp, last, no = None, None, None, set()
    for a, v in b.newfacts:
        for x in subterms(a):
            if x and x[0] == 'prim' and x[1] == \
                    'composer.Composer.schema_node':
                o = x[2][0]
                node = b.st.heap.get((o, 'node'))
                if node != N:
                    continue
                comp = o
                if a[0] == 'eq' and NONE in a[1:] and x in a[1:] and v:
                    typ = 'none'
                g = ('get', x, C('type'))
                if a[0] == 'eq' and any(
                        is_c(y) and isinstance(cv(y), str) for y in a[1:]) \
                        and any(y != x and contains(y, x) for y in a[1:]):
                    s = [cv(y) for y in a[1:] if is_c(y)][0]
                    if v:
                        typ = s
                    else:
                        no.add(s)
        if a[0] == 'eq' and any(y and y[0] == 'len' for y in subterms(a)) and \
                not any(y and y[0] == 'prev' for y in subterms(a)):
            last = v
        if a[0] in ('eq', 'is') and set(a[1:]) <= set(CUR):
            last = v
    if typ is None and {'list', 'leaf-list'} <= no:
        typ = 'other'
    if last is None:
        last = N == NODE
    return conf, typ, last, comp


def _predicate(ck, b, N, suffix, n, inst, w, k):
    conf, typ, last, comp = situation(b, N)
    if not suffix:
        if conf is False or n == 'YTOOL' or typ in ('none', 'other', 'list'):
            ck.ok(w + ': no predicate')
        elif typ == 'leaf-list':
            if inst:
                ck.fail(k + 'leaf-list', w + ' leaves out the value of a '
                        'leaf-list entry')
            else:
                ck.req(last is True or (False if last is False else None),
                       k + 'leaf-list', w + ': only the last step is without '
                       'value', w + ' leaves out the value of a leaf-list '
                       'entry that is not the last step')
        elif conf is None and typ is None:
            ck.open(w + ': nothing is known of the step')
        else:
            ck.open(w + ': type of the node')
        return
    if n == 'YTOOL' or conf is False:
        ck.fail(k + 'predicate', w + ' writes a predicate' + (
            '' if n == 'YTOOL' else ' for a schema node'))
        return
    if conf is None:
        ck.fail(k + 'predicate', w + ' writes a predicate whether or not the '
                'node is in a config')
        return
    want = list('[text()="') + [('text', N)] + list('"]')
    if suffix == want:
        ck.req(typ == 'leaf-list' or (False if typ in ('other', 'list', 'none')
                                      else None), k + 'value',
               w + ': values of leaf-list entries', w + ' writes the value of '
               'a %s' % typ)
        if not inst:
            ck.req(last is False or (False if last is True or last is None
                                     else None), k + 'last',
                   w + ': the last step has no value', w + ' writes a value '
                   'for the last step')
        return
    rest = ''.join(x if isinstance(x, str) else '#' for x in suffix)
    if rest.startswith('[text()'):
        ck.fail(k + 'value', w + ' writes %s' % rest)
    elif typ == 'list':
        return                                  # see _keyloops
    else:
        ck.req(False if typ in ('leaf-list', 'other', 'none') else None,
               k + 'value', w + ' ' + rest, w + ' writes %s for a %s' % (
                   rest, typ))


def _keyloops(ck, b, T, n, inst, w, k):
    """predicates of list entries"""
    kl = []
    for l in loops(b):
        for x in subterms(l.recv):
            if x and x[0] == 'prim' and x[1] == 'composer.Composer.keys':
                kl.append((l, x[2][0], x))
    N = None
    for t in body_texts(b):
        r = step(b, t, T)
        if r:
            N = r[0]
    if kl:
        l, comp, src = kl[-1]
        N = b.st.heap.get((comp, 'node'), N)
        if N not in CUR:
            return
    elif N is None:
        return
    conf, typ, last, c2 = situation(b, N)
    if not kl:
        if typ == 'list' and n != 'YTOOL' and conf:
            if inst:
                ck.fail(k + 'keys', w + ' leaves out the keys of a list entry')
            else:
                ck.req(last is True or (False if last is False else None),
                       k + 'keys', w + ': only the last step is without keys',
                       w + ' leaves out the keys of a list entry that is not '
                       'the last step')
        return
    l, comp, src = kl[-1]
    if n == 'YTOOL' or conf is False or conf is None:
        ck.fail(k + 'predicate', w + ' writes the keys of a list' + (
            '' if n == 'YTOOL' else ' for a schema node'))
        return
    ck.req(typ == 'list' or (False if typ in ('leaf-list', 'other', 'none')
                             else None), k + 'keyed', w + ': keys of lists',
           w + ' writes the keys of a %s' % typ)
    if not inst:
        ck.req(last is False, k + 'last', w + ': the last step has no keys',
               w + ' writes the keys for the last step')
    ck.req(l.recv in (src, ('list', src)) or (
        False if l.recv[0] == 'slice' else None), k + 'all', w + ': all keys '
        'are written', w + ' does not write all keys')
    ck.req(not l.exits, k + 'all', w + ': all keys are written', w +
           ' stops at a key')
    KEY = ('each', src, 0)
    wrote = False
    skipped = []
    for ib in l.bodies:
        ok = None
        val = None
        for t in body_texts(ib):
            ch = chars(t)
            ids = [(i, conv(x[1])) for i, x in enumerate(ch)
                   if not isinstance(x, str) and x[0] == 'item' and
                   x[2] == C(1) and conv(x[1]) is not None]
            ids = [(i, d) for i, d in ids if d.get('tag') == KEY]
            if not ids:
                continue
            i, d = ids[-1]
            wrote = True
            sfx = ch[i - 1:i] + ch[i + 1:]
            txt = [x for x in sfx if not isinstance(x, str)]
            shape = ''.join(x if isinstance(x, str) else '#' for x in sfx)
            ck.req(shape == '[="#"]', k + 'keyshape', w + ': [key="value"]',
                   w + ' writes %s for a key' % shape)
            ck.req(bool(txt) and txt[0] == ('text', ('find', N, KEY, 0)) or (
                False if txt and txt[0][0] in ('text', 'tag', 'find', 'item',
                                               'each')
                else None), k + 'keyvalue', w + ': the value of that key',
                w + ' writes %s as the value of a key' % (
                    show(txt[0])[:60] if txt else 'nothing'))
            ck.req(value(ib, d.get('dst')) == T, k + 'keynotation', w + ': keys are in '
                   'the notation asked for', w + ' writes keys in another '
                   'notation')
            dn = d.get('default_ns')
            own = {('item', x, C(0)) for x in subterms(t) if conv(x) and
                   conv(x).get('tag') == ('tag', N)}
            ck.req(dn in own or (False if is_c(dn) or dn[0] == 'item' else
                                 None), k + 'keyns', w + ': keys are relative '
                   'to the namespace of their list', w + ': keys are relative '
                   'to %s' % show(dn)[:60])
            break
        else:
            # a key that is not written: only if the entry has none
            miss = ib.test(isnone(('find', N, KEY, 0)))
            if miss is None:
                miss = next((v for a, v in ib.facts.log if a[0] == 'eq' and
                             NONE in a[1:] and any(
                                 y and y[0] == 'find' and y[1:3] == (N, KEY)
                                 for y in a[1:] if isinstance(y, tuple))),
                            None)
            skipped.append((miss, ib))
    if not wrote:
        ck.open(w + ': how keys are written')
        return
    for miss, ib in skipped:
        ck.req(True if miss else False if miss is False else None,
               k + 'everykey', w + ': every key is written', w + ' leaves '
               'out a key when %s' % facts_text(ib, 6)[:300])


@once
def _isconfig(ck, prog):
    fn = prog.method('Composer', 'is_config')
    eng = Engine(prog)
    tag = C('{urn:ietf:params:xml:ns:netconf:base:1.0}config')
    for p in eng.run(fn):
        if p.kind != 'return' or p.value is None:
            ck.fail('is_config/raise', 'is_config gives no answer')
            continue
        v = p.value
        if is_c(v):
            root = [(a, b) for a, b in p.newfacts if a[0] == 'eq' and
                    tag in a[1:]]
            if root:
                ck.req(bool(cv(v)) == root[-1][1], 'is_config/value',
                       'config trees have the root config', 'is_config is %s '
                       'for a node %s' % (cv(v), 'in a config' if root[-1][1]
                                          else 'in a schema tree'))
                x = [y for y in root[-1][0][1:] if y != tag][0]
                ck.req(is_root(x), 'is_config/root', 'it is the root that '
                       'counts', 'is_config looks at %s' % show(x)[:60])
            else:
                eqs = [a for a, b in p.newfacts if a[0] == 'eq' and
                       any(is_c(y) and isinstance(cv(y), str)
                           for y in a[1:])]
                ck.req(False if eqs or not p.newfacts else None,
                       'is_config/tag', 'is_config', 'is_config looks at '
                       'another tag')
        elif v[0] == 'eq':
            ck.req(tag in v[1:] or (False if any(is_c(y) for y in v[1:]) else
                                    None), 'is_config/tag', 'config trees '
                   'have the root config', 'is_config is %s' % show(v)[:60])
        else:
            ck.open('is_config: %s' % show(v)[:60])
    ck.used(eng)


def is_root(x):
    if x[0] == 'tag' and x[1][0] == 'item' and x[1][1][0] == 'anc':
        return x[1][2] == C(-1)
    if x[0] == 'tag' and x[1][0] == 'item' and x[1][1][0] in (
            'reversed', 'list'):
        return None
    if x == ('tag', NODE):
        return False
    return None


# ----------------------------------------------------------------------
# default_in_use

@once
def _in_use(ck, prog):
    fn = prog.method('ModelDevice', 'default_in_use')
    eng = Engine(prog, opaque={DEVT, 'ModelDevice.convert_ns',
                               'ModelDevice.default_in_use'})
    paths = eng.run(fn)
    ck.used(eng)
    P0 = params(fn)[0]
    X = ('each', P0, 0)
    kids = (P0, ('children', P0))
    w = 'default_in_use'
    for p in paths:
        if p.kind != 'return':
            ck.fail('inuse/raise', w + ' raises %s' % p.exc.cls)
    saw = set()
    for l in distinct_loops(paths):
        if l.recv not in kids and not (
                l.recv[0] in ('elemiter', 'list', 'iter') and
                l.recv[1] in kids):
            continue
        X = ('each', l.recv, 0)
        ck.req(not l.exits, 'inuse/stop', w + ': all children are looked at',
               w + ' stops at a child')
        for b in l.bodies:
            typ, no, dflt, pres = None, set(), None, None
            for a, v in b.newfacts:
                if a[0] != 'eq':
                    continue
                g = [y for y in a[1:] if y[0] == 'get' and y[1] == X]
                o = [y for y in a[1:] if is_c(y)]
                if not g or not o:
                    continue
                n, c = cv(g[0][2]), cv(o[0])
                if n == 'type':
                    if v:
                        typ = c
                    else:
                        no.add(c)
                elif n == 'default' and c is None:
                    dflt = not v
                elif n == 'presence' and c == 'true':
                    pres = v
                elif n == 'presence' and c is None and v:
                    pres = False
            if typ is None and {'leaf', 'leaf-list', 'choice',
                                'container'} <= no:
                typ = 'other'
            added, deeper = effects(b, p, X)
            if b.kind in ('raise', 'break', 'return'):
                ck.req(False if b.kind != 'return' else None, 'inuse/stop',
                       w, w + ' stops at a child')
                continue
            saw.add(typ)
            if typ in ('leaf', 'leaf-list'):
                if dflt:
                    ck.req(added == [X] and not deeper, 'inuse/' + typ, w +
                           ': a %s with a default' % typ, w + ' does not list '
                           'a %s that has a default' % typ)
                elif dflt is False:
                    ck.req(not added and not deeper, 'inuse/' + typ, w +
                           ': a %s without default' % typ, w + ' lists a %s '
                           'that has no default' % typ)
                elif dflt is None:
                    ck.req(False if added else None, 'inuse/' + typ, w,
                           w + ' lists a %s whether or not it has a default'
                           % typ)
            elif typ == 'choice':
                F = [t for t in subterms_all(b) if t[0] == 'find' and
                     t[1] == X]
                if not dflt:
                    ck.req(False if added or deeper else (dflt is False or
                                                          None),
                           'inuse/choice', w + ': a choice without default',
                           w + ' lists nodes of a choice that has no default')
                    continue
                if not F:
                    ck.req(False if not added and not deeper else None,
                           'inuse/choice', w, w + ' does not look for the '
                           'default case of a choice')
                    continue
                f = F[0]
                ck.part(_case, ck, b, f, X, w)
                none = b.facts.test(isnone(f))
                if none:
                    ck.req(not added and not deeper, 'inuse/nocase', w +
                           ': no such case', w + ' lists nodes of a case that '
                           'is not there')
                else:
                    ck.req(f in added and deeper == [f] or (
                        False if set(added) <= {f, X} and
                        set(deeper) <= {f, X} else None), 'inuse/case', w +
                        ': the default case and what is in use in it', w +
                        ' does not list the default case of a choice and what '
                        'is in use in it')
            elif typ == 'container':
                if pres is None:
                    ck.req(False, 'inuse/presence', w, w + ' does not ask '
                           'whether a container is a presence container')
                elif pres:
                    ck.req(not added and not deeper, 'inuse/presence', w +
                           ': nothing is in use in a presence container', w +
                           ' lists nodes of a presence container')
                else:
                    ck.req(deeper == [X] and not added or (
                        False if set(deeper) <= {X} else None),
                        'inuse/container', w + ': what is in use in a '
                        'container', w + ' does not list what is in use in a '
                        'container')
            elif typ is not None:
                ck.req(not added and not deeper, 'inuse/other', w + ': nothing '
                       'else', w + ' lists a %s' % (
                           typ if typ != 'other' else 'list or another node'))
            else:
                left = [t for t in ('leaf', 'leaf-list', 'choice') if
                        t not in no and dflt is not False]
                left += ['container'] if 'container' not in no and \
                    not pres else []
                clear = all(a[0] == 'eq' and any(
                    y[0] == 'get' and y[1] == X for y in a[1:])
                    for a, v in b.newfacts)
                ck.req(False if added or deeper or left and clear else None,
                       'inuse/type', w, w + (' lists a node whatever its type'
                       if added or deeper else ' does not look at each ' +
                       ', '.join(left)))
    if not saw:
        ck.open(w + ': loop over the children not found')


DEVT = 'ModelDevice.convert_tag'


def subterms_all(b):
    out = []
    for a, v in b.newfacts:
        for t in subterms(a):
            if t and t not in out:
                out.append(t)
    for e in events(b):
        for a in e.args:
            for t in subterms(a):
                if t and t not in out:
                    out.append(t)
    return out


def effects(b, p, X):
    """(nodes added, nodes whose defaults in use are added) by a body"""
    v = p.value
    if v is None or v[0] != 'list' or v[1] not in b.st.cont:
        raise Unclear('result of default_in_use')
    added, deeper = [], []
    for e in b.st.cont[v[1]]:
        v = e.val
        if any(y and y[0] == 'prev' for y in subterms(v)):
            continue
        if v[0] == 'each' and v[1][0] == 'prim' and \
                v[1][1].endswith('.default_in_use'):
            deeper.append(v[1][2][-1])
        elif v not in added:
            added.append(v)
    return added, deeper


def _case(ck, b, f, X, w):
    """the case a choice names, in the namespace of the choice"""
    t = f[2]
    if t[0] != 'item' or conv(t[1]) is None:
        ck.req(False if t[0] == 'get' else None, 'inuse/casename', w,
               w + ' looks for the default case by %s' % show(t)[:60])
        return
    d = conv(t[1])
    ck.req(t[2] == C(1), 'inuse/casename', w + ': the name of the case',
           w + ' looks for the namespace of the case')
    ck.req(d.get('tag') == ('get', X, C('default')) or None, 'inuse/casename',
           w + ': the case the choice names')
    cns = d.get('default_ns')
    ck.req(False if is_c(cns) else None if not contains(cns, ('tag', X)) else
           True, 'inuse/casens', w + ': a case is in the namespace of its '
           'choice', w + ' takes %s as the namespace of the case' %
           show(cns)[:40])
    if cns[0] == 'prim' and cns[1].endswith('convert_ns'):
        a = list(cns[2])[1:] + [y for x, y in (cns[3] if len(cns) > 3 else ())]
        ck.req(a[1:] == [C(2), C(1)] or (False if all(is_c(y) for y in a[1:])
                                         else None), 'inuse/casens',
               w + ': prefix of the choice', w + ' takes %s as the namespace '
               'of a case' % show(cns)[:60])
