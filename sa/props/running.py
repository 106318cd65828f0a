"""Running-configs: diff (C24), generated CLI (C25), reading of the text
(C30), orderless commands (C31)."""
import ast

from .. import steps
from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show
from .delta import prims, subterms
from .device import SELF, heads

RC = 'RunningConfigDiff.'
PLUS, MINUS, SAME = C('+'), C('-'), C('')


def lin(t):
    """linear normal form of an integer term"""
    if is_c(t) and isinstance(cv(t), int):
        return {1: cv(t)} if cv(t) else {}
    if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] in '+-':
        a, b = lin(t[2]), lin(t[3])
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in out.items() if v}
    return {t: 1}


def plus(t, n):
    d = lin(t)
    d[1] = d.get(1, 0) + n
    return {k: v for k, v in d.items() if v}


def fz(p, t, d=0):
    """containers of the path replaced by a description of their contents"""
    if isinstance(t, tuple) and len(t) == 2 and t[0] in ('list', 'set',
                                                         'dict') and \
            isinstance(t[1], int) and d < 4:
        es = p.st.cont.get(t[1], ())
        return ('cont', t[0], tuple((fz(p, e.val, d + 1), e.key, e.guard,
                                     e.many, e.src) for e in es))
    if isinstance(t, tuple):
        return tuple(fz(p, x, d) if isinstance(x, tuple) else x for x in t)
    return t


def muts(p, name=None):
    return [e for e in p.events if e.kind == 'mut' and
            (name is None or e.name == name)]


def tupof(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 'tup' else None


def each_of(t):
    """item(each(X), 0), item(each(X), 1) -> X"""
    if t[0] == 'item' and t[1][0] == 'each':
        return t[1][1]
    return None


def emits(p, box):
    """what a path adds to the list box, in order:
    ('one', tuple) | ('each', source, tuple) | ('odd', text)"""
    out = []
    for e in p.events:
        if e.kind == 'mut' and e.recv == box:
            if e.name == 'append':
                out.append(('one', fz(p, e.args[0])))
            elif e.name == 'extend':
                v = fz(p, e.args[0])
                if v[0] == 'cont' and len(v[2]) == 1 and v[2][0][3]:
                    x = v[2][0]
                    out.append(('each', x[4], x[0]) if not x[2]
                               else ('odd', 'conditional extend'))
                elif v[0] == 'cont' and all(not x[3] for x in v[2]):
                    out += [('one', x[0]) for x in v[2]]
                else:
                    out.append(('odd', show(v)[:80]))
            else:
                out.append(('odd', e.name))
        elif e.kind in ('delitem', 'setitem') and e.recv == box:
            out.append(('odd', e.kind))
        elif e.kind == 'loop':
            inner = [emits(b, box) for b in e.bodies]
            if not any(inner):
                continue
            if len(inner) == 1 and len(inner[0]) == 1 and \
                    inner[0][0][0] == 'one' and not e.exits and e.exh is not \
                    False:
                out.append(('each', e.recv, inner[0][0][1]))
            elif e.exits or any(i != inner[0] for i in inner):
                out.append(('some', e.recv, [x for i in inner for x in i]))
            else:
                out.append(('odd', 'loop over %s' % show(e.recv)[:60]))
    return out


# ----------------------------------------------------------------------
# C24
def c24(ck, prog, tier):
    ck.part(_compare, ck, prog)
    ck.part(_get_diff, ck, prog)
    ck.part(_wrappers, ck, prog)
    ck.part(_print, ck, prog)


def _compare(ck, prog):
    fn = prog.method('ListDiff', 'compare')
    names = [a.arg for a in fn.node.args.args]
    A, B = ('p', names[-2]), ('p', names[-1])
    loops_ = [l for l in steps.toploops(fn) if isinstance(l, ast.For)]
    found = None
    for l in loops_:
        s = steps.step(fn, l)
        eng = Engine(prog, opaque={'ListDiff.compare'})
        ps = eng.run(s.fn)
        ck.used(eng)
        boxes = {e.recv for p in ps for e in events(p) if e.kind == 'mut' and
                 e.name in ('append', 'extend') and e.recv[0] == 'p' and
                 e.args and signed(fz(p, e.args[0]))}
        if len(boxes) == 1 and any(
                x[0] == 'each' for p in ps for x in emits(p, next(iter(
                    boxes)))):
            if found is None:
                found = (l, s, ps, next(iter(boxes)))
    if not found:
        ck.open('ListDiff.compare: no loop over common lines that emits the '
                'lines between them')
        return
    loop, s, ps, box = found
    key = ('p', s.target[0]) if len(s.target) == 1 else None
    if key is None:
        ck.open('loop over %s' % s.target)
        return
    idx = _segments(ck, prog, fn, loop, s, ps, box, key, A, B)
    if idx:
        _edges(ck, prog, fn, loop, box, idx, A, B)
        _common(ck, prog, fn, loop, A, B)
    _cleanup(ck, prog, fn, loop, box)


def signed(t):
    if t[0] == 'cont':
        return any(signed(x[0]) for x in t[2])
    u = tupof(t)
    return bool(u) and len(u) == 3 and is_c(u[2]) and \
        isinstance(cv(u[2]), str)


def _keys_of(p, t, src):
    """t is the list of the first items of src"""
    t = fz(p, t)
    return t[0] == 'cont' and len(t[2]) == 1 and t[2][0][3] and \
        not t[2][0][2] and t[2][0][0] == ('item', ('each', src, 0), C(0))


def _segments(ck, prog, fn, loop, s, ps, box, key, A, B):
    """one iteration: lines before the common line, then the common line"""
    idx = {}
    ok = True
    for p in ps:
        if p.kind == 'raise':
            continue
        st = dict(zip(s.state, p.value[1]))
        if st['#'] != C('next'):
            ck.fail('compare/break', 'ListDiff.compare stops at a common '
                    'line (when %s)' % facts_text(p))
            continue
        em = emits(p, box)
        seg = {}
        one = []
        odd = [x for x in em if x[0] in ('odd', 'some')]
        pos = {}
        for n, x in enumerate(em):
            if x[0] == 'each':
                src = x[1]
                base = src[1] if src and src[0] == 'slice' else src
                t = tupof(x[2])
                side = 'first' if base == A else 'second' if base == B \
                    else None
                if side is None or t is None or len(t) != 3:
                    odd.append(x)
                    continue
                seg.setdefault(side, []).append((src, t))
                pos[side] = n
            elif x[0] == 'one':
                one.append(x[1])
                pos['one'] = n
        if odd:
            ck.open('ListDiff.compare: %s' % show_odd(odd[0]))
            ok = False
            continue
        for side, src, sign in (('first', A, MINUS), ('second', B, PLUS)):
            g = seg.get(side, [])
            if len(g) != 1:
                ck.req(len(g) == 1, 'compare/%s/before' % side, 'lines of '
                       'the %s list before a common line are reported' %
                       side, 'ListDiff.compare: lines of the %s list before '
                       'a common line are reported %d times (when %s)' % (
                           side, len(g), facts_text(p, 3)))
                ok = False
                continue
            rng, t = g[0]
            ea = ('each', src, 0)
            ck.req(t[0] == ('item', ea, C(0)) and t[1] == (
                'item', ea, C(1)), 'compare/%s/entry' % side, 'the entry of '
                'a line is its text and children', 'ListDiff.compare reports '
                '%s for a line of the %s list' % (show(('tup', t)), side))
            ck.req(t[2] == sign, 'compare/%s/sign' % side, 'lines only in '
                   'the %s list have sign %s' % (side, cv(sign)),
                   'ListDiff.compare: lines only in the %s list have sign '
                   '%s' % (side, show(t[2])))
            if rng[0] != 'slice':
                ck.fail('compare/%s/range' % side, 'ListDiff.compare: all '
                        'lines of the %s list are reported at every common '
                        'line' % side)
                ok = False
                continue
            lo, hi = rng[2], rng[3]
            if lo[0] != 'p' or lo[1] not in s.state:
                ck.open('start of the lines between common lines: %s' %
                        show(lo))
                ok = False
                continue
            nxt = st[lo[1]]
            ck.req(lin(nxt) == plus(hi, 1), 'compare/%s/advance' % side,
                   'the next search starts behind the common line',
                   'ListDiff.compare continues the %s list at %s after a '
                   'common line at %s' % (side, show(nxt), show(hi)))
            # hi = lo + keys[lo:].index(key)
            want = dict(lin(hi))
            base = lin(lo)
            for k, v in base.items():
                want[k] = want.get(k, 0) - v
            want = {k: v for k, v in want.items() if v}
            good = None
            if len(want) == 1:
                t_, c_ = next(iter(want.items()))
                if c_ == 1 and isinstance(t_, tuple) and t_[0] == 'call' and \
                        t_[1] == 'index':
                    hay, needle = t_[2][0], t_[2][-1]
                    good = hay[0] == 'slice' and hay[2] == lo and \
                        hay[3] == NONE and needle == key
                    if hay[0] == 'slice':
                        idx.setdefault('keys', {})[side] = hay[1]
                    if good and len(t_[2]) != 2:
                        good = None
            else:
                # keys.index(key, lo)
                t_ = hi
                if t_[0] == 'call' and t_[1] == 'index' and \
                        len(t_[2]) == 3:
                    good = t_[2][1] == key and t_[2][2] == lo or None
                    idx.setdefault('keys', {})[side] = t_[2][0]
            ck.req(good, 'compare/%s/locate' % side, 'the common line is '
                   'the next occurrence in the %s list' % side,
                   'ListDiff.compare takes %s for the place of the common '
                   'line in the %s list' % (show(hi), side))
            if idx.setdefault(side, lo[1]) != lo[1]:
                ck.open('two positions in the %s list' % side)
            idx.setdefault('at', {})[side] = hi
        if len(seg.get('first', [])) == 1 and len(
                seg.get('second', [])) == 1 and seg['first'][0][0][0] == \
                'slice' and seg['second'][0][0][0] == 'slice':
            _pair(ck, p, one, key, ('item', A, seg['first'][0][0][3]),
                  ('item', B, seg['second'][0][0][3]), A, B)
            if one:
                ck.req(pos['one'] > max(pos['first'], pos['second']),
                       'compare/order', 'the common line follows the lines '
                       'before it', 'ListDiff.compare: the common line is '
                       'reported before the lines that precede it')
    return idx if ok and 'first' in idx and 'second' in idx else None


def show_odd(x):
    return x[0] + ': ' + (x[1] if isinstance(x[1], str) else show(x[1]))[:100]


def _pair(ck, p, one, key, a, b, A, B):
    """the entry of a common line"""
    va, vb = ('item', a, C(1)), ('item', b, C(1))
    same_ = p.test(('eq', va, vb))
    if same_ is None:
        same_ = p.test(('eq', vb, va))
    na, nb = p.test(isnone(va)), p.test(isnone(vb))
    raw = dict(p.newfacts)
    if na and nb and False in (raw.get(('eq', va, vb)),
                               raw.get(('eq', vb, va))):
        return                       # cannot happen
    if same_ is None and (na is None or nb is None) and not one:
        ck.fail('compare/common/missing', 'ListDiff.compare reports nothing '
                'for a common line (when %s)' % facts_text(p, 4))
        return
    txt = facts_text(p, 3)
    if len(one) != 1:
        ck.fail('compare/common/%s' % ('missing' if not one else 'twice'),
                'ListDiff.compare reports a common line %d times (when %s)' %
                (len(one), txt))
        return
    t = tupof(one[0])
    if t is None or len(t) != 3:
        ck.open('entry of a common line: %s' % show(one[0])[:100])
        return
    ck.req(t[0] in (key, ('item', a, C(0)), ('item', b, C(0))),
           'compare/common/text', 'the entry has the text of the common line',
           'ListDiff.compare reports %s for a common line' % show(t[0]))
    kids, sign = t[1], t[2]
    ck.req(is_c(sign) and cv(sign) not in ('+', '-'), 'compare/common/sign',
           'a common line is neither added nor removed', 'ListDiff.compare '
           'reports a common line with sign %s (when %s)' % (
               show(sign), txt))
    cmp_ = [x for x in subterms(kids) if x[0] == 'prim' and
            x[1].endswith('ListDiff.compare')]
    if same_:
        # equal children: unchanged
        if kids == NONE:
            ck.req(na is not False or None, 'compare/same/kids', 'no '
                   'children when there are none')
        elif kids[0] == 'cont':
            ck.req(all(tupof(x[0]) and tupof(x[0])[2] == SAME
                       for x in kids[2]), 'compare/same/kids', 'unchanged '
                   'children have no sign', 'ListDiff.compare: children of '
                   'an unchanged line get a sign')
            ck.req(all(each_of(tupof(x[0])[0]) in (va, vb)
                       for x in kids[2] if tupof(x[0])) or None,
                   'compare/same/source', 'unchanged children are kept')
        elif kids in (va, vb):
            ck.ok('unchanged children are kept')
        elif cmp_:
            ck.open('children of an unchanged line: %s' % show(kids)[:80])
        else:
            ck.open('children of an unchanged line: %s' % show(kids)[:80])
        return
    # different children
    if same_ is False or same_ is None:
        ck.req(sign == SAME or (None if same_ is None else False),
               'compare/changed/kept', 'a common line with different '
               'children stays in the diff', 'ListDiff.compare marks a '
               'common line with different children as %s' % show(sign))
        if na is False and nb is False:
            ok = bool(cmp_) and kids == cmp_[0] and tuple(
                cmp_[0][2][-2:]) == (va, vb)
            rev = bool(cmp_) and tuple(cmp_[0][2][-2:]) == (vb, va)
            ck.req(True if ok else (False if rev or not cmp_ else None),
                   'compare/changed/recurse', 'children are compared in the '
                   'same direction', 'ListDiff.compare: children of a '
                   'changed line are %s' % (
                       'compared in the other direction' if rev else
                       show(kids)[:80]))
        elif na is False and nb:
            _side(ck, kids, va, MINUS, 'removed')
        elif nb is False and na:
            _side(ck, kids, vb, PLUS, 'added')
        elif na is False and nb is None or nb is False and na is None:
            # decided by one of the two only
            v, sg, w = (va, MINUS, 'removed') if na is False else \
                (vb, PLUS, 'added')
            _side(ck, kids, v, sg, w)
        else:
            ck.open('children of a common line (when %s)' % txt)


def _side(ck, kids, v, sign, what):
    if kids[0] != 'cont' or len(kids[2]) != 1 or not kids[2][0][3]:
        cm = [x for x in subterms(kids) if x[0] == 'prim' and
              x[1].endswith('ListDiff.compare')]
        ck.req(None if cm or kids != NONE and kids != v else False,
               'compare/%s/kids' % what, 'children that are all %s have that '
               'sign' % what, 'ListDiff.compare: children that are all %s '
               'become %s' % (what, show(kids)[:80]))
        return
    x = kids[2][0]
    t = tupof(x[0])
    e = ('each', v, 0)
    ck.req(bool(t) and not x[2] and t[0] == ('item', e, C(0)) and
           t[1] == ('item', e, C(1)), 'compare/%s/entry' % what, 'all '
           'children of a line are %s' % what, 'ListDiff.compare: children '
           'that are all %s become %s' % (what, show(x[0])[:100]))
    ck.req(bool(t) and t[2] == sign, 'compare/%s/sign' % what, 'children '
           'that are all %s have sign %s' % (what, cv(sign)),
           'ListDiff.compare: children that are all %s have sign %s' % (
               what, show(t[2]) if t else '?'))


def _edges(ck, prog, fn, loop, box, idx, A, B):
    """before the first and after the last common line"""
    b = steps.before(fn, loop)
    a = steps.after(fn, loop)
    if b is None or a is None:
        ck.open('ListDiff.compare: loop inside another statement')
        return
    eng = Engine(prog, opaque={'ListDiff.compare'})
    for p in eng.run(b.fn):
        if p.kind == 'raise':
            continue
        if tupof(p.value) is None or len(tupof(p.value)) != len(b.state):
            ck.open('ListDiff.compare returns early')
            continue
        st = dict(zip(b.state, p.value[1]))
        for side, src in (('first', A), ('second', B)):
            v = st.get(idx[side])
            ck.req(v == C(0) if v is not None and (is_c(v)) else None,
                   'compare/%s/start' % side, 'the %s list is read from its '
                   'beginning' % side, 'ListDiff.compare starts the %s list '
                   'at %s' % (side, show(v) if v else '?'))
            k = idx.get('keys', {}).get(side)
            if k is not None and k[0] == 'p' and k[1] in st:
                ck.req(_keys_of(p, st[k[1]], src) or (
                    False if _keys_of(p, st[k[1]], B if src == A else A)
                    else None), 'compare/%s/keys' % side, 'lines are located '
                    'by their text in the %s list' % side,
                    'ListDiff.compare locates lines of the %s list in the '
                    'other one' % side)
    eng = Engine(prog, opaque={'ListDiff.compare'})
    ps = eng.run(a.fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            continue
        em = emits(p, box)
        for side, src, sign in (('first', A, MINUS), ('second', B, PLUS)):
            g = [x for x in em if x[0] == 'each' and x[1] and
                 (x[1] == src or x[1][0] == 'slice' and x[1][1] == src)]
            part = [x for x in em if x[0] == 'some' and contains(x[1], src)]
            if part:
                ck.fail('compare/%s/rest' % side, 'ListDiff.compare: lines '
                        'of the %s list after the last common line are '
                        'reported only in part' % side)
                continue
            if len(g) != 1:
                odd = [x for x in em if x[0] == 'odd']
                ck.req(None if odd else False, 'compare/%s/rest' % side,
                       'lines of the %s list after the last common line are '
                       'reported' % side, 'ListDiff.compare: lines of the '
                       '%s list after the last common line are reported %d '
                       'times (when %s)' % (side, len(g), facts_text(p, 3)))
                continue
            src_, t = g[0][1], tupof(g[0][2])
            ck.req(src_ == ('slice', src, ('p', idx[side]), NONE),
                   'compare/%s/rest' % side, 'all lines of the %s list '
                   'after the last common line are reported' % side,
                   'ListDiff.compare reports %s after the last common line' %
                   show(src_))
            e = ('each', src, 0)
            ck.req(bool(t) and t[:2] == (('item', e, C(0)), ('item', e, C(
                1))), 'compare/%s/restentry' % side, 'the entry of a line is '
                'its text and children', 'ListDiff.compare reports %s after '
                'the last common line' % show(g[0][2]))
            ck.req(bool(t) and t[2] == sign, 'compare/%s/restsign' % side,
                   'lines only in the %s list have sign %s' % (
                       side, cv(sign)), 'ListDiff.compare: lines of the %s '
                   'list after the last common line have sign %s' % (
                       side, show(t[2]) if t else '?'))


def _common(ck, prog, fn, loop, A, B):
    """the common lines are a common subsequence"""
    b = steps.before(fn, loop)
    eng = Engine(prog, opaque={'ListDiff.compare'})
    it = loop.iter
    if not isinstance(it, ast.Name):
        ck.open('common lines: %s' % ast.unparse(it)[:60])
        return
    src = None
    for l in steps.toploops(fn):
        if l is loop:
            break
        s = steps.step(fn, l)
        eng = Engine(prog, opaque={'ListDiff.compare'})
        ps = eng.run(s.fn)
        if any(e.kind == 'mut' and e.recv == ('p', it.id) for p in ps
               for e in events(p)):
            src = (l, s, ps)
    if src is None:
        ck.open('common lines are not collected by a loop')
        return
    l, s, ps = src
    if len(s.target) != 1:
        ck.open('common lines: loop over %s' % s.target)
        return
    k = ('p', s.target[0])
    bb = steps.before(fn, l)
    keyvars = {}
    for p in Engine(prog, opaque={'ListDiff.compare'}).run(bb.fn):
        if p.kind == 'return' and tupof(p.value):
            st = dict(zip(bb.state, p.value[1]))
            for n, v in st.items():
                if _keys_of(p, v, A) or _keys_of(p, v, B):
                    keyvars[n] = 'A' if _keys_of(p, v, A) else 'B'
            ck.req(_keys_of(p, st['iter'], B) or st['iter'][0] == 'cont' and
                   None or None if not _keys_of(p, st['iter'], B) else True,
                   'compare/common/iter', 'common lines are looked for in '
                   'the order of the second list')
    for p in ps:
        if p.kind == 'raise':
            continue
        st = dict(zip(s.state, p.value[1]))
        add = [e for e in muts(p) if e.recv == ('p', it.id)]
        ins = [(a, v) for a, v in p.newfacts if a[0] == 'in' and a[1] == k]
        if st['#'] != C('next'):
            ck.open('common lines: early end')
            continue
        if not ins:
            ck.open('common lines: condition %s' % facts_text(p)[:80])
            continue
        a, v = ins[-1]
        hay = a[2]
        rest = hay[0] == 'slice' and hay[2][0] == 'p' and hay[3] == NONE
        if not rest:
            ck.req(False if hay[0] == 'p' and keyvars.get(hay[1]) == 'A'
                   else None, 'compare/common/rest', 'a line is common if '
                   'it is in the rest of the first list', 'ListDiff.compare '
                   'takes a line as common wherever it is in the first list')
            continue
        i = hay[2][1]
        if hay[1][0] == 'p' and hay[1][1] in keyvars:
            ck.req(keyvars[hay[1][1]] == 'A', 'compare/common/first', 'a line '
                   'is common if it is in the rest of the first list',
                   'ListDiff.compare looks for common lines in %s' %
                   show(hay))
        if v:
            ck.req(len(add) == 1 and add[0].name == 'append' and
                   add[0].args[0] == k, 'compare/common/add', 'a common line '
                   'is taken once', 'ListDiff.compare does not take a common '
                   'line once')
            adv = lin(st.get(i, ('p', i)))
            want = {('p', i): 1, ('call', 'index', (hay, k)): 1, 1: 1}
            want2 = {('call', 'index', (hay[1], k, ('p', i))): 1, 1: 1}
            again = [x for x in heads(st.get(i, ('p', i)), 'call')
                     if x[1] == 'index' and ('p', i) not in subterms(x)
                     and x[2][0] == hay[1]]
            ck.req(True if adv in (want, want2) else (
                False if lin(st.get(i, ('p', i))) == {('p', i): 1} or again or
                set(adv) <= set(want) else None), 'compare/common/advance',
                'the search in the first list continues behind the common '
                'line', 'ListDiff.compare: the search for common lines '
                'continues at %s' % show(st.get(i, ('p', i))))
        else:
            ck.req(not add, 'compare/common/only', 'only common lines are '
                   'taken', 'ListDiff.compare takes a line that is not in '
                   'the rest of the first list as common')
            ck.req(st.get(i, ('p', i)) == ('p', i), 'compare/common/stay',
                   'other lines do not move the search', 'ListDiff.compare: '
                   'a line that is not common moves the search')


def _cleanup(ck, prog, fn, loop, box):
    """the last pass drops unchanged lines only"""
    after = False
    last = None
    for l in steps.toploops(fn):
        if l is loop:
            after = True
            continue
        if after and isinstance(l, ast.For) and box[1] in steps.names(
                [l.iter]):
            last = l
    if last is None:
        ck.open('ListDiff.compare: no pass over the collected lines')
        return
    s = steps.step(fn, last)
    eng = Engine(prog, opaque={'ListDiff.compare'})
    ps = eng.run(s.fn)
    ck.used(eng)
    b = steps.before(fn, last)
    whole = None
    init = {}
    for p in Engine(prog, opaque={'ListDiff.compare'}).run(
            steps.step_entry(fn, last, loop)):
        if p.kind == 'return' and tupof(p.value):
            it = p.value[1][0]
            whole = it == box or it == ('enum', box, C(0)) or \
                it[0] == 'enum' and it[1] == box
            init = dict(zip(steps.entry_names(fn, last, loop),
                            [fz(p, x) for x in p.value[1]]))
    ck.req(whole or None, 'cleanup/all', 'every collected line is looked at')
    # the item: a target that is a 3-tuple
    item, pos = _item(last)
    if item is None:
        ck.open('cleanup: loop over %s' % ast.unparse(last.target))
        return
    outs = {e.recv for p in ps for e in events(p) if e.kind == 'mut' and
            e.name in ('append', 'extend', 'insert') and e.recv[0] == 'p'
            and e.args and tupof(e.args[-1])}
    if len(outs) != 1:
        ck.open('cleanup: result %s' % [show(x) for x in outs])
        return
    out = next(iter(outs))
    key, val, sign = item
    grown = {}
    for p in ps:
        t = p.test(('eq', sign, C('?')))
        for e in muts(p):
            if e.name == 'add' and e.args[0] == key:
                grown.setdefault(e.recv, set()).add(t)
    allsets = {r for r, ts in grown.items() if ts >= {True, False}}
    changed = {r for r, ts in grown.items() if ts == {False}}
    for p in ps:
        if p.kind == 'raise':
            ck.fail('cleanup/raise', 'ListDiff.compare raises %s' %
                    p.exc.cls)
            continue
        st = dict(zip(s.state, p.value[1]))
        add = [e for e in muts(p) if e.recv == out]
        t = p.test(('eq', sign, C('?')))
        if t is None:
            ck.open('cleanup without looking at the sign')
            continue
        if st['#'] != C('next'):
            ck.fail('cleanup/break', 'ListDiff.compare drops the lines after '
                    'some line (when %s)' % facts_text(p, 3))
            continue
        if not t:
            good = len(add) == 1 and add[0].name == 'append' and (
                tupof(add[0].args[0]) == (key, val, sign) or
                add[0].args[0] == pos)
            ck.req(good, 'cleanup/changed', 'changed lines stay as they are',
                   'ListDiff.compare: a changed line becomes %s in the diff '
                   '(when %s)' % ([show(e.args[0]) for e in add],
                                  facts_text(p, 3)))
            continue
        for e in add:
            u = tupof(e.args[0])
            ck.req(bool(u) and e.name == 'append' and u[:2] == (key, val) and
                   u[2] == SAME, 'cleanup/reference', 'an unchanged line '
                   'has no sign', 'ListDiff.compare: an unchanged line '
                   'becomes %s in the diff' % show(e.args[0]))
        ands = [(a[1], v) for a, v in p.newfacts if a[0] == 'truthy' and
                a[1][0] == 'bin' and a[1][1] == '&']
        if add:
            conf = [a for a, v in ands if v]
            if not conf:
                ck.req(None if any(True for a, v in p.newfacts if a != (
                    'eq', sign, C('?'))) else False, 'cleanup/equal',
                    'unchanged lines are dropped', 'ListDiff.compare: every '
                    'unchanged line stays in the diff')
                continue
            ok = [_changed_only(x, box, changed) for a in conf
                  for x in a[2:4]]
            known = [_about(x, box, changed | allsets) for a in conf
                     for x in a[2:4]]
            ck.req(True if any(ok) else (False if all(known) else None),
                   'cleanup/equal', 'an unchanged line is kept only next to '
                   'changed lines', 'ListDiff.compare: an unchanged line is '
                   'kept although no line is changed (when %s): equal '
                   'configs with repeated lines have a diff' %
                   facts_text(p, 3))
        else:
            # dropped: no line moves across it
            neg = [a for a, v in ands if not v]
            cov = [(_covers(a[2], box, changed | allsets, 'before') and
                    _covers(a[3], box, changed | allsets, 'after')) or
                   (_covers(a[3], box, changed | allsets, 'before') and
                    _covers(a[2], box, changed | allsets, 'after'))
                   for a in neg]
            if not neg:
                rest = [a for a, v in p.newfacts if a != ('eq', sign,
                                                          C('?'))]
                ck.req(None if rest else False, 'cleanup/moved', 'a line '
                       'that another line moves across is kept as reference',
                       'ListDiff.compare drops unchanged lines without '
                       'looking whether another line moves across them')
            else:
                ck.req(True if any(cov) else None, 'cleanup/moved', 'a line '
                       'that another line moves across is kept as reference')
    a = steps.after(fn, last)
    for p in Engine(prog, opaque={'ListDiff.compare'}).run(a.fn):
        if p.kind == 'return':
            ck.req(True if p.value == out else (
                False if p.value[0] in ('p', 'slice', 'c') else None),
                'cleanup/result', 'the cleaned list is the diff',
                'ListDiff.compare returns %s' % show(p.value))


def _item(loop):
    """terms of the three fields of the visited entry"""
    t = loop.target
    it = loop.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and \
            it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and \
            len(t.elts) == 2:
        t = t.elts[1]
    if isinstance(t, ast.Name):
        x = ('p', t.id)
        return tuple(('item', x, C(i)) for i in range(3)), x
    if isinstance(t, ast.Tuple) and len(t.elts) == 3 and all(
            isinstance(e, ast.Name) for e in t.elts):
        return tuple(('p', e.id) for e in t.elts), None
    return None, None


def _set_of(t, box):
    """(filter facts) when t is the set of keys of entries of box"""
    if t[0] == 'cont' and len(t[2]) == 1:
        e = t[2][0]
        if e[0] == ('item', ('each', box, 0), C(0)):
            return e[2]
    return None


def _changed_only(t, box, changed):
    g = _set_of(t, box)
    if g is not None:
        sg = ('item', ('each', box, 0), C(2))
        return any(a == ('eq', sg, C('?')) and not v or
                   a[0] == 'eq' and a[1] == sg and is_c(a[2]) and
                   cv(a[2]) in ('+', '-', '') and v or
                   a[0] == 'in' and a[1] == sg and v and '?' not in repr(
                       a[2]) for a, v in g)
    return t in changed


def _about(t, box, sets):
    return _set_of(t, box) is not None or t in sets


def _covers(t, box, sets, where):
    """t holds at least the keys of the changed lines before/after"""
    if where == 'before':
        return t in sets
    g = _set_of(t, box)
    sg = ('item', ('each', box, 0), C(2))
    return g is not None and all(a == ('eq', sg, C('?')) and not v
                                 for a, v in g)


# -- get_diff -----------------------------------------------------------
def _get_diff(ck, prog):
    fn = prog.method('RunningConfigDiff', 'get_diff')
    eng = Engine(prog, opaque={RC + 'running2list', 'ListDiff.compare',
                               RC + 'handle_sibling_cammands'})
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    rv = ('p', a[1]) if len(a) > 1 else None
    r1, r2 = ('attr', SELF, 'running1'), ('attr', SELF, 'running2')
    lists = [x for x in heads(tuple(e.args for p in ps for e in p.events
                                    if e.args), 'prim')
             if x[1].endswith('.running2list')]
    if not lists:
        ck.open('get_diff does not use running2list')
        return
    both = lists[0]
    ck.req(both[2][-2:] == (r1, r2), 'get_diff/order', 'the first config is '
           'running1', 'get_diff reads %s' % show(both))
    l1, l2 = ('item', both, C(0)), ('item', both, C(1))
    for p in ps:
        if p.kind != 'return':
            ck.open('get_diff raises')
            continue
        rev = p.test(('truthy', rv)) if rv else False
        cmps = [x for x in heads(p.value, 'prim')
                if x[1].endswith('ListDiff.compare')]
        for e in p.events:
            if e.kind == 'setattr' and e.recv == SELF:
                pass
        want = (l2, l1) if rev else (l1, l2)
        if cmps:
            got = tuple(cmps[0][2][-2:])
            ck.req(got == want or (None if rev is None else False),
                   'get_diff/%s' % ('reverse' if rev else 'forward'),
                   'the %s diff leads from %s' % (
                       'reverse' if rev else 'normal',
                       'running2 to running1' if rev else
                       'running1 to running2'), 'get_diff compares %s with '
                   '%s when reverse is %s' % (show(got[0]), show(got[1]),
                                              rev))
            sib = [e.args[-1] for e in p.events if e.kind == 'call' and
                   e.name == 'handle_sibling_cammands']
            ck.req(set(sib) == {l1, l2}, 'get_diff/siblings', 'sibling '
                   'commands of both configs are handled', 'get_diff: '
                   'sibling commands are handled for %s' % [
                       show(x) for x in sib])
            calls = [e.name for e in p.events if e.kind == 'call']
            ck.req('compare' not in calls or calls.index('compare') > max(
                i for i, n in enumerate(calls)
                if n == 'handle_sibling_cammands') if
                'handle_sibling_cammands' in calls else None,
                'get_diff/first', 'sibling commands are handled before '
                'configs are compared', 'get_diff compares before sibling '
                'commands are handled')
        elif p.value == NONE or is_c(p.value):
            t = [(x, v) for x, v in p.newfacts if x[0] == 'truthy' and not v
                 and x != ('truthy', rv)]
            ck.req(bool(t) or (None if p.newfacts else False), 'get_diff/none',
                   'without differences there is no diff', 'get_diff '
                   'returns %s (when %s)' % (show(p.value), facts_text(p)))
        elif p.value[0] == 'attr' and p.value[1] == SELF:
            # memo: which attribute holds which direction
            slot = p.value[2]
            dirs = set()
            for q in ps:
                for e in q.events:
                    if e.kind == 'setattr' and e.recv == SELF and \
                            e.name == slot:
                        for x in heads(e.args[0], 'prim'):
                            if x[1].endswith('ListDiff.compare'):
                                dirs.add(tuple(x[2][-2:]))
            ck.req(dirs == {want} if dirs and rev is not None else None,
                   'get_diff/memo/%s' % ('reverse' if rev else 'forward'),
                   'the diff kept for the %s direction is that of this '
                   'direction' % ('reverse' if rev else 'normal'),
                   'get_diff returns the diff kept in %s when reverse is %s'
                   % (slot, rev))
        else:
            v = fz(p, p.value)
            dirs = {tuple(x[2][-2:]) for x in heads(v, 'prim')
                    if x[1].endswith('ListDiff.compare')}
            # the diff of the other direction, its children as they are
            same = v[0] == 'cont' and rev is not None and \
                dirs == {want[::-1]} and any(
                    tupof(e[0]) and len(tupof(e[0])) > 1 and
                    tupof(e[0])[1][0] == 'item' and
                    tupof(e[0])[1][1][0] == 'each' for e in v[2])
            ck.req(False if same else None, 'get_diff/turned', 'the %s diff '
                   'is that of its direction' % (
                       'reverse' if rev else 'normal'), 'get_diff returns '
                   'the diff of the other direction with the children of '
                   'its lines as they are when reverse is %s' % rev)


def _wrappers(ck, prog):
    def one(cls, name, opq):
        eng = Engine(prog, opaque=opq)
        ps = eng.run(prog.method(cls, name))
        ck.used(eng)
        return ps
    G = {RC + 'get_diff', RC + 'get_cli', RC + 'list2config',
         'ListDiff.compare'}
    for name, tgt, val in (('diff', 'get_diff', FALSE),
                           ('diff_reverse', 'get_diff', TRUE)):
        _fwd(ck, one('RunningConfigDiff', name, G), name, tgt, val)
    for p in one('RunningConfigDiff', '__bool__', G):
        if p.kind != 'return':
            continue
        d = _calls(p, 'get_diff')
        t = [(a, v) for a, v in p.newfacts if a[0] == 'truthy' and
             prims(a[1], 'get_diff')]
        if t and is_c(p.value):
            ck.req(bool(cv(p.value)) == t[-1][1], 'bool', 'a diff is true '
                   'if there are differences', 'bool() of a diff is %s when '
                   '%s' % (show(p.value), facts_text(p)))
        else:
            ck.open('__bool__: %s' % show(p.value)[:60])
        for e in d:
            ck.req(e.args[-1] == FALSE, 'bool/direction', 'bool() looks at '
                   'the diff')
    for p in one('RunningConfigDiff', '__str__', G):
        x = [y for y in heads(p.value, 'prim') if y[1].endswith(
            'list2config')] if p.kind == 'return' else []
        if not x:
            ck.open('__str__')
            continue
        d = [y for y in heads(x[0], 'prim') if y[1].endswith('get_diff')]
        ck.req(bool(d) and d[0][2][-1] == FALSE and x[0][2][-1] == SAME,
               'str', 'str() prints the diff with its signs', '__str__ '
               'prints %s' % show(p.value))
    for p in one('ListDiff', 'diff', G):
        x = [y for y in heads(p.value, 'prim') if y[1].endswith('compare')] \
            if p.kind == 'return' else []
        ck.req(bool(x) and x[0] == p.value and x[0][2][-2:] == (
            ('attr', SELF, 'list1'), ('attr', SELF, 'list2')) or
            (None if not x else False), 'listdiff', 'ListDiff compares its '
            'first with its second list', 'ListDiff.diff is %s' %
            (show(p.value) if p.value else '?'))
    for p in one('ListDiff', '__init__', G):
        a = [x.arg for x in prog.method('ListDiff', '__init__').node.args
             .args]
        for e in p.events:
            if e.kind == 'setattr' and e.name in ('list1', 'list2'):
                i = int(e.name[-1])
                ck.req(e.args[0] == ('p', a[i]) or None, 'listdiff/init',
                       'ListDiff keeps its arguments')
                if e.args[0] == ('p', a[3 - i]):
                    ck.fail('listdiff/init', 'ListDiff swaps its arguments')
    for p in one('RunningConfigDiff', '__init__', G):
        a = [x.arg for x in prog.method('RunningConfigDiff', '__init__')
             .node.args.args]
        for e in p.events:
            if e.kind == 'setattr' and e.name in ('running1', 'running2'):
                i = int(e.name[-1])
                ck.req(e.args[0] != ('p', a[3 - i]), 'init',
                       'running1 and running2 are kept',
                       'RunningConfigDiff swaps its arguments')
    for p in one('RunningConfigDiff', '__eq__', G):
        if p.kind == 'return' and is_c(p.value):
            t = [(a, v) for a, v in p.newfacts if a[0] == 'eq']
            ck.req(bool(cv(p.value)) == t[-1][1] if t else None, 'eq',
                   'diffs are equal if they print the same', '__eq__ is %s '
                   'when %s' % (show(p.value), facts_text(p)))


def _calls(p, name):
    return [e for e in p.events if e.kind == 'call' and e.name == name]


def _fwd(ck, ps, name, tgt, val):
    for p in ps:
        if p.kind != 'return':
            ck.open(name)
            continue
        x = [y for y in heads(p.value, 'prim') if y[1].endswith('.' + tgt)]
        if not x:
            ck.open('%s: %s' % (name, show(p.value)[:60]))
            continue
        arg = x[0][2][-1] if len(x[0][2]) > 1 else FALSE
        ck.req(p.value == x[0] and arg == val or (
            False if arg in (TRUE, FALSE) and arg != val
            else None), name, '%s is %s(%s)' % (name, tgt, cv(val)),
            '%s is %s' % (name, show(p.value)))


# -- printing -----------------------------------------------------------
def flat(t):
    """pieces of a string term"""
    if t[0] == 'str':
        out = []
        for x in t[1]:
            out += flat(x)
        return out
    if t[0] == 'bin' and t[1] == '+':
        return flat(t[2]) + flat(t[3])
    return [t]


def _print(ck, prog):
    """list2config: one line per entry, children below, sign in front"""
    fn = prog.method('RunningConfigDiff', 'list2config')
    a = [x.arg for x in fn.node.args.args]
    ls = [l for l in steps.toploops(fn) if isinstance(l, ast.For)]
    dt = ('p', a[2]) if len(a) > 2 else None
    main = [l for l in ls if a[1] in steps.names([l.iter])]
    if len(main) != 1 or dt is None:
        ck.open('list2config')
        return
    l = main[0]
    item, _ = _item(l)
    if item is None:
        ck.open('list2config: %s' % ast.unparse(l.target))
        return
    k, v, i = item
    s = steps.step(fn, l)
    eng = Engine(prog, opaque={RC + 'list2config', RC + 'indent'})
    ps = eng.run(s.fn)
    ck.used(eng)
    accs = [n for n in s.state[1:]]
    for p in ps:
        if p.kind == 'raise':
            continue
        st = dict(zip(s.state, p.value[1]))
        if st['#'] != C('next'):
            ck.fail('print/break', 'list2config drops lines after some line '
                    '(when %s)' % facts_text(p))
            continue
        ch = [n for n in accs if st[n] != ('p', n)]
        if p.test(eq(k, '')):
            ck.req(not ch or None, 'print/empty', 'entries without text are '
                   'not printed')
            continue
        app = [e for e in muts(p)]
        if not ch:
            ck.req(None if app else False, 'print/line', 'every entry is '
                   'printed', 'list2config prints nothing for a line (when '
                   '%s)' % facts_text(p))
            continue
        if len(ch) != 1:
            ck.open('list2config: %s' % ch)
            continue
        fl = flat(st[ch[0]])
        if fl[0] != ('p', ch[0]):
            ck.req(None if ('p', ch[0]) in fl else False, 'print/keep',
                   'lines are printed one after the other', 'list2config '
                   'forgets what it printed before')
            continue
        fl = fl[1:]
        n = fl.count(k)
        ck.req(n == 1, 'print/text', 'every line is printed once',
               'list2config prints %s for a line (when %s)' % (
                   [show(x) for x in fl], facts_text(p)))
        if n != 1:
            continue
        at = fl.index(k)
        pre = fl[:at]
        d0, dn = p.test(eq(dt, '')), p.test(isnone(dt))
        want = None
        if d0:
            i0 = p.test(eq(i, ''))
            own = i
            want = [C('  ')] if i0 else [i, C(' ')] if i0 is False else None
        elif dn:
            want = [C('  ')]
            own = dt
        elif d0 is False and dn is False:
            want = [dt, C(' ')]
            own = dt
        if want is None:
            ck.open('list2config: prefix when %s' % facts_text(p))
        else:
            ck.req(pre == want or (None if d0 is None else False),
                   'print/sign', 'a line is printed with its sign',
                   'list2config prints %s in front of a line (when %s)' % (
                       [show(x) for x in pre], facts_text(p)))
        vn = p.test(isnone(v))
        rest = fl[at + 1:]
        sub = [x for y in rest for x in heads(y, 'prim')
               if x[1].endswith('.list2config')]
        if vn:
            ck.req(rest == [C('\n')] or None, 'print/leaf', 'a line without '
                   'children is one line')
        elif vn is False:
            ck.req(len(sub) == 1 and sub[0][2][-2] == v, 'print/children',
                   'children are printed below their parent', 'list2config '
                   'does not print the children of a line once (when %s)' %
                   facts_text(p))
            if sub and want is not None:
                ck.req(sub[0][2][-1] == own or (
                    None if d0 is None else False), 'print/inherit',
                    'children of a line with a sign have the same sign',
                    'list2config prints children with type %s (when %s)' % (
                        show(sub[0][2][-1]), facts_text(p)))
            ind = [x for y in rest for x in heads(y, 'prim')
                   if x[1].endswith('.indent')]
            ck.req(bool(ind) or None, 'print/indent', 'children are '
                   'indented')


# ----------------------------------------------------------------------
# C25
CLI_OPQ = {RC + n for n in ('append_command', 'list2cli', 'list2config',
                            'indent')}
CLEAN = ('remove_duplicate_cammands', 'remove_unnecessary_negative_commands',
         'remove_unnecessary_positive_commands')


def c25(ck, prog, tier):
    ck.part(_cli, ck, prog)
    ck.part(_command, ck, prog)
    ck.part(_get_cli, ck, prog)
    ck.part(_indent, ck, prog)
    ck.part(_no_dup, ck, prog)
    ck.part(_longer, ck, prog, 'remove_unnecessary_negative_commands', True)
    ck.part(_longer, ck, prog, 'remove_unnecessary_positive_commands', False)


def _joined(t):
    """name, reversed? of a list joined by newlines"""
    if t[0] == 'join' and t[1] == C('\n'):
        x = t[2]
        rev = False
        while x[0] == 'reversed' or x[0] == 'slice' and x[2:4] == (
                NONE, NONE):
            rev = not rev
            x = x[1]
        if x[0] == 'p':
            return x[1], rev
    return None


def _cli(ck, prog):
    fn = prog.method('RunningConfigDiff', 'list2cli')
    a = [x.arg for x in fn.node.args.args]
    main = [l for l in steps.toploops(fn) if isinstance(l, ast.For) and
            a[1] in steps.names([l.iter])]
    if len(main) != 1:
        ck.open('list2cli: %d loops over the diff' % len(main))
        return
    loop = main[0]
    item, whole = _item(loop)
    if item is None:
        ck.open('list2cli: %s' % ast.unparse(loop.target))
        return
    # what is returned
    eng = Engine(prog, opaque={RC + n for n in CLEAN})
    s = steps.after(fn, loop)
    ps = eng.run(s.fn) if s else []
    ck.used(eng)
    pos = neg = None
    for p in ps:
        if p.kind != 'return':
            continue
        u = tupof(p.value)
        if not u or len(u) != 2 or not _joined(u[0]) or not _joined(u[1]):
            ck.open('list2cli returns %s' % show(p.value)[:80])
            return
        (n0, r0), (n1, r1) = _joined(u[0]), _joined(u[1])
        ck.req(not r0 and r1, 'cli/order', 'added lines are sent in the '
               'order of the config, removed ones in reverse order',
               'list2cli: %s' % show(p.value))
        pos, neg = n0, n1
    if pos is None:
        ck.open('list2cli: nothing returned')
        return
    _cli_step(ck, prog, fn, loop, item, pos, neg, a)
    _cli_post(ck, ps, pos, neg)
    # a missing diff
    eng = Engine(prog, opaque=CLI_OPQ)
    b = steps.before(fn, loop)
    if not b:
        ck.open('list2cli: state before the loop')
        return
    L = ('p', a[1])
    for p in eng.run(b.fn):
        if p.kind != 'return':
            continue
        if p.test(isnone(L)) or p.test(('truthy', L)) is False:
            continue
        u = tupof(p.value)
        if not u:
            ck.open('list2cli: %s' % show(p.value)[:60])
            continue
        it = u[0]
        while it[0] in ('copy', 'list') and len(it) > 1 and isinstance(
                it[1], tuple):
            it = it[1]
        if it[0] == 'enum':
            it = it[1]
        it = fz(p, it)
        ck.req(it == L or (False if it[0] in ('slice', 'reversed', 'sorted')
                           else None), 'cli/all', 'every line of the diff is '
               'looked at, in order', 'list2cli looks at %s only' %
               show(it)[:100])
        for n, t in zip(b.state, u):
            if n in (pos, neg):
                f = fz(p, t)
                ck.req(f[0] == 'cont' and not f[2] or None, 'cli/start',
                       'commands start empty')


def _plus_keys(ck, prog, fn, loop, name, L):
    """name holds the texts of added lines without children"""
    b = steps.before(fn, loop)
    if not b:
        return None
    for p in Engine(prog, opaque=CLI_OPQ).run(b.fn):
        if p.kind != 'return' or not tupof(p.value) or name not in b.state:
            continue
        if p.test(isnone(L)):
            continue
        f = fz(p, tupof(p.value)[b.state.index(name)])
        if f[0] != 'cont' or len(f[2]) != 1:
            return None
        val, key, guard, many, src = f[2][0]
        e = ('each', L, 0)
        if val != ('item', e, C(0)):
            return None
        g = dict(guard)
        return g.get(eq(('item', e, C(2)), '+')), \
            g.get(isnone(('item', e, C(1)))), set(g) - {
                eq(('item', e, C(2)), '+'), isnone(('item', e, C(1)))}
    return None


def _cli_step(ck, prog, fn, loop, item, pos, neg, a):
    k, v, i = item
    s = steps.step(fn, loop)
    eng = Engine(prog, opaque=CLI_OPQ)
    ps = eng.run(s.fn)
    ck.used(eng)
    P, N = ('p', pos), ('p', neg)
    L = ('p', a[1])
    keysets = set()
    for p in ps:
        if p.kind == 'raise':
            ck.fail('cli/raise', 'list2cli raises (when %s)' % facts_text(p))
            continue
        st = dict(zip(s.state, p.value[1]))
        txt = facts_text(p)
        if st['#'] != C('next'):
            ck.fail('cli/break', 'list2cli forgets the lines after some line '
                    '(when %s)' % txt)
            continue
        out = []
        odd = None
        for e in p.events:
            if e.kind == 'call' and e.name == 'append_command':
                if e.args[-2:] != (N, P):
                    ck.fail('cli/lists', 'list2cli: commands are kept in the '
                            'wrong lists: %s' % e)
                out.append(('cmd', e.args[-3]))
            elif e.kind == 'mut' and e.recv in (P, N):
                if e.name == 'append':
                    out.append(('pos' if e.recv == P else 'neg', e.args[0]))
                else:
                    odd = e
            elif e.kind in ('delitem', 'setitem') and e.recv in (P, N):
                odd = e
            elif e.kind == 'loop':
                if any(x.kind in ('mut', 'delitem', 'setitem') and
                       x.recv in (P, N) or x.kind == 'call' and
                       x.name == 'append_command'
                       for b in e.bodies for x in events(b)):
                    odd = e
        if odd is not None:
            ck.open('list2cli: %s' % repr(odd)[:100])
            continue
        if p.test(eq(k, '')):
            ck.req(not out or None, 'cli/empty', 'nothing for an empty line')
            continue
        ip, im, i0 = (p.test(eq(i, x)) for x in ('+', '-', ''))
        if ip or im:
            i0 = False
        if i0 or im:
            ip = False
        if i0 or ip:
            im = False
        vn = p.test(isnone(v))
        if vn is None:
            t = p.test(('truthy', v))
            vn = False if t else None
        if vn is None and not (ip is False and im is False and i0 is False):
            ck.req(None if out else False, 'cli/any', 'commands depend on '
                   'children', 'list2cli: no command for a line (when %s)' %
                   txt)
            continue
        if ip is False and im is False and (i0 is False or vn):
            # unchanged lines without children, or unknown signs
            ck.req(not out, 'cli/unchanged', 'no command for an unchanged '
                   'line', 'list2cli: command for an unchanged line: %s' %
                   [show(x[1])[:60] for x in out])
            continue
        no_k = [('cmd', ('str', (C('no '), k)))]
        if vn and ip:
            ck.req(out == [('cmd', k)], 'cli/added', 'an added line is sent',
                   'list2cli: %s for an added line (when %s)' % (
                       said(out), txt))
        elif vn and im:
            if out:
                ck.req(out == no_k, 'cli/removed', 'a removed line is sent '
                       'with "no"', 'list2cli: %s for a removed line '
                       '(when %s)' % (said(out), txt))
                continue
            why = _why_not(p, k)
            if why is None:
                ck.fail('cli/removed/none', 'list2cli: no command for a '
                        'removed line (when %s)' % txt)
            elif isinstance(why, tuple):
                ck.open('list2cli: no command for a removed line: %s' %
                        show(why)[:100])
            else:
                ck.ok('a removed line needs no command when a line that '
                      'contains it is added')
                keysets |= why
        elif vn is False and i0:
            want = []
            sub = [x for x in heads(tuple(y for y, _ in p.newfacts) + tuple(
                x[1] for x in out), 'prim') if x[1].endswith('.list2cli')]
            rec = ('prim', sub[0][1], sub[0][2][:1] + (v,)) if sub else None
            if not sub or any(x[2][-1] != v for x in sub):
                ck.fail('cli/changed/rec', 'list2cli does not look at the '
                        'children of a line (when %s)' % txt)
                continue
            ok = True
            for j, (box, nm) in enumerate((('pos', 'added'),
                                           ('neg', 'removed'))):
                part = ('item', rec, C(j))
                t = p.test(('truthy', part))
                if t is None:
                    t2 = p.test(eq(part, ''))
                    t = None if t2 is None else not t2
                got = [x for x in out if x[0] == box]
                if t is False:
                    ck.req(not got, 'cli/changed/%s/none' % nm, 'no command '
                           'without %s children' % nm, 'list2cli: %s '
                           'without %s children' % (said(got), nm))
                    continue
                if len(got) != 1:
                    ck.req(False if t or not got else None,
                           'cli/changed/%s' % nm,
                           'commands of %s children are kept' % nm,
                           'list2cli: commands of %s children are kept %d '
                           'times (when %s)' % (nm, len(got), txt))
                    continue
                fl = flat(got[0][1])
                ck.req(_below(fl, k, part), 'cli/changed/%s/text' % nm,
                       'commands of %s children follow their parent' % nm,
                       'list2cli: %s for %s children' % (said(got), nm))
            ck.req(not [x for x in out if x[0] == 'cmd'] or None,
                   'cli/changed/more', 'no other command')
        elif vn is False and ip:
            got = [x for x in out if x[0] in ('pos', 'cmd')]
            if len(out) != 1 or len(got) != 1:
                ck.fail('cli/section/added', 'list2cli: %s for an added '
                        'section (when %s)' % (said(out), txt))
                continue
            cfg = [x for x in heads(tuple(y for y, _ in p.newfacts) + tuple(
                x[1] for x in out), 'prim') if x[1].endswith('.list2config')]
            if not cfg:
                ck.req(None if heads(got[0][1], 'prim') else False,
                       'cli/section/all', 'an added section is sent with all '
                       'its lines', 'list2cli: %s for an added section '
                       '(when %s)' % (said(out), txt))
                continue
            cfg = cfg[0]
            ck.req(cfg[2][-2:] == (v, NONE), 'cli/section/lines', 'all lines '
                   'of an added section are printed without sign',
                   'list2cli: %s for the lines of an added section' %
                   show(cfg))
            empty = any(x[0] == 'truthy' and heads(x, 'prim') and not y
                        for x, y in p.newfacts)
            fl = flat(got[0][1])
            if empty:
                ck.req(fl == [k], 'cli/section/empty', 'a section without '
                       'lines is sent', 'list2cli: %s for an empty section' %
                       said(out))
            else:
                ck.req(fl[0] == k and C('\n') in fl[1:] and any(
                    x == cfg or cfg in heads(x, 'prim') for x in fl[2:]),
                    'cli/section/text', 'lines of an added section follow '
                    'it', 'list2cli: %s for an added section' % said(out))
        elif vn is False and im:
            ck.req(out == no_k, 'cli/section/removed', 'a removed section is '
                   'removed with one command', 'list2cli: %s for a removed '
                   'section (when %s)' % (said(out), txt))
        else:
            ck.open('list2cli: case %s' % txt[:120])
    for n in keysets:
        g = _plus_keys(ck, prog, fn, loop, n, L)
        if g is None:
            ck.open('list2cli: contents of %s' % n)
            continue
        ck.req(g[0] is True and not g[2], 'cli/instead', 'lines that make a '
               'removal unnecessary are added ones', 'list2cli: a removal is '
               'left out for lines that are not added (%s)' % n)
        ck.req(g[1] is True or None, 'cli/instead/leaf', 'lines that make a '
               'removal unnecessary have no children')


def said(out):
    return [show(x[1])[:90] for x in out] or 'no command'


def _below(fl, k, part):
    """k, newline, indented part"""
    if not fl or fl[0] != k:
        return False
    rest = fl[1:]
    if C('\n') not in rest:
        return False
    has = [x for x in rest if contains(x, part)]
    if not has:
        return False
    if not any(x[1].endswith('.indent') for y in has
               for x in heads(y, 'prim')):
        return None
    return True


def _why_not(p, k):
    """names of the sets of lines that make the removal unnecessary; a term
    for an unknown reason; None without a reason"""
    out = set()
    odd = None
    ds = []
    for t, val in p.newfacts:
        if t[0] == 'truthy' and t[1][0] == 'cont' and val:
            for e in t[1][2]:
                ors = [x for x, _ in e[2] if x[0] == 'or']
                if ors:
                    for o in ors:
                        ds += [list(d) + [f for f in e[2] if f[0] != o]
                               for d in o[1]] or [[(o, True)]]
                else:
                    ds.append(list(e[2]))
        elif val and any(x[0] == 'each' for x in subterms(t)):
            ds.append([(t, val)])
        elif val and t[0] == 'in' and t[1] == k and t[2][0] == 'p':
            out.add(t[2][1])
    for d in ds:
        hit = None
        for t, val in d:
            if not val:
                continue
            if t[0] == 'eq' and k in t[1:]:
                o = t[2] if t[1] == k else t[1]
                hit = o
            elif t[0] in ('startswith', 'prefix') and len(t) == 3 and \
                    t[2] == ('str', (k, C(' '))):
                hit = t[1]
            elif t[0] == 'startswith' and t[2] == k or t[0] == 'eq' and \
                    any(x[0] == 'slice' for x in t[1:]):
                return None           # not by whole words
        if hit is not None and hit[0] == 'each' and hit[1][0] == 'p':
            out.add(hit[1][1])
        elif hit is None:
            odd = d[0][0] if d else NONE
    if odd is not None:
        return odd
    return out or None


def _cli_post(ck, ps, pos, neg):
    """what may be dropped from the commands afterwards"""
    P, N = ('p', pos), ('p', neg)

    def go(p, path, facts, loops):
        # p: path or body
        for e in p.events:
            if e.kind == 'loop':
                for b in e.bodies:
                    go(b, path, facts + list(b.newfacts), loops + [e])
                continue
            if e.kind == 'call' and e.name in CLEAN:
                continue
            if e.kind not in ('mut', 'delitem', 'setitem') or \
                    e.recv not in (P, N):
                continue
            if e.kind == 'mut' and e.name not in ('remove', 'pop', 'clear',
                                                  'append', 'extend',
                                                  'insert'):
                ck.open('list2cli: %s' % repr(e)[:80])
                continue
            if e.kind == 'setitem' or e.name in ('append', 'extend',
                                                 'insert'):
                ck.open('list2cli: %s' % repr(e)[:80])
                continue
            if e.recv == N:
                over = [t for t, val in facts if val and
                        contains(t, ('each', P, 0)) and
                        any(x[0] == 'call' and 're.' in x[1]
                            for x in subterms(t))]
                rel = [t for t, val in facts if val and t[0] in (
                    'eq', 'startswith', 'prefix') and contains(
                        t, ('each', N, 0)) and contains(t, C('no ')) and
                    contains(t, ('each', P, 0))]
                ck.req(bool(over and rel), 'cli/overwrite/removed', 'a "no" '
                       'command is dropped only for an overwriting command '
                       'that is sent', 'list2cli drops a "no" command '
                       'without an added command that overwrites it (%s)' %
                       e.loc)
            else:
                t = e.args[0] if e.args else NONE
                src = [x[1] for x in subterms(t) if x[0] == 'each']
                down = any(l.recv[0] in ('sorted', 'reversed')
                           for l in loops) or e.name == 'remove'
                if not any(contains(t, x) for x in ()) and t == (
                        'idx', ('each', P, 0)):
                    ck.fail('cli/overwrite/last', 'list2cli drops an added '
                            'command (%s)' % e.loc)
                elif not any(x[0] == 'call' and 're.' in x[1]
                             for x in subterms(t)):
                    ck.fail('cli/overwrite/added', 'list2cli drops an added '
                            'command that is not overwritten (%s)' % e.loc)
                else:
                    old = [x for x in subterms(t) if x[0] == 'prev']
                    ck.req(bool(old) or None, 'cli/overwrite/earlier',
                           'only an earlier command is dropped for a later '
                           'one')
                    ck.req(down or None, 'cli/overwrite/positions', 'later '
                           'commands are dropped first')
                    down_ = [l for l in loops if l.recv[0] == 'sorted']
                    if down_ and ('reverse', TRUE) not in down_[0].recv[2:] \
                            and not any(('reverse', C(True)) == x
                                        for y in down_[0].recv[1:]
                                        if isinstance(y, tuple)
                                        for x in y):
                        ck.fail('cli/overwrite/positions', 'list2cli drops '
                                'commands by position in ascending order')
    for p in ps:
        if p.kind != 'return':
            ck.fail('cli/post/raise', 'list2cli raises: %s' % facts_text(p))
            continue
        go(p, p, list(p.newfacts), [])
    ck.ok('what is dropped from commands: %d paths' % len(ps))


def _command(ck, prog):
    """append_command: which list, which text"""
    fn = prog.method('RunningConfigDiff', 'append_command')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args][-3:]
    K, N, P = (('p', x) for x in a)
    for p in ps:
        if p.kind != 'return':
            ck.fail('cmd/raise', 'append_command raises when %s' %
                    facts_text(p))
            continue
        out = [e for e in p.events if e.kind == 'mut' and e.recv in (N, P)]
        txt = facts_text(p)
        if len(out) != 1 or out[0].name != 'append':
            ck.fail('cmd/once', 'append_command keeps %d commands (when %s)'
                    % (len(out), txt))
            continue
        box, val = out[0].recv, out[0].args[0]
        pre = {t[2]: v for t, v in p.newfacts if t[0] == 'prefix' and
               t[1] == K and isinstance(t[2], str)}
        yes = [x for x, v in pre.items() if v]
        nn = any(x.startswith('no no ') for x in yes) or (
            None if pre.get('no no ') is None else False)
        n = any(x.startswith('no ') for x in yes) or (
            None if pre.get('no ') is None else False)
        if nn is None and any(not 'no no '.startswith(x[:6]) for x in yes):
            nn = False
        if nn:
            ck.req(box == P, 'cmd/nono/list', 'removing a "no" command adds '
                   'the command', 'append_command keeps "no no x" with '
                   'removed lines')
            ck.req(val in (strip(('slice', K, C(6), NONE)),
                           ('slice', K, C(6), NONE)), 'cmd/nono',
                   '"no no x" is x', 'append_command: %s for "no no x"' %
                   show(val))
            continue
        if is_c(val) and isinstance(cv(val), str):
            s = cv(val)
            ck.req(box == N and s.startswith('no ') and any(
                x == s + ' ' or x.startswith(s + ' ')
                for x in yes), 'cmd/short', 'a short "no" command is the '
                'beginning of the command it stands for', 'append_command: '
                '%r for commands with %s' % (s, yes))
            ck.req(nn is False, 'cmd/short/nono', 'short commands are for '
                   'removal only', 'append_command: short command for a '
                   '"no no" command')
            continue
        ck.req(val in (strip(K), K), 'cmd/text', 'the command is kept as it '
               'is', 'append_command keeps %s (when %s)' % (show(val), txt))
        if n is None:
            ck.open('append_command: %s' % txt)
        elif nn is None:
            ck.fail('cmd/nono', 'append_command does not tell "no no x" from '
                    '"no x"')
        else:
            ck.req(box == (N if n else P), 'cmd/list', '"no" commands are '
                   'kept with removed lines, others with added ones',
                   'append_command keeps a %s command with %s lines' % (
                       '"no"' if n else 'positive',
                       'added' if box == P else 'removed'))


def strip(t):
    return ('call', 'strip', (t,))


def _get_cli(ck, prog):
    opq = {RC + 'get_diff', RC + 'list2cli', RC + 'get_cli'}
    fn = prog.method('RunningConfigDiff', 'get_cli')
    eng = Engine(prog, opaque=opq - {RC + 'get_cli'})
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    rv = ('p', a[1])
    for p in ps:
        if p.kind != 'return':
            ck.open('get_cli raises')
            continue
        d = [x for x in heads((p.value,) + tuple(y for y, _ in p.newfacts),
                              'prim') if x[1].endswith('.get_diff')]
        ck.req(all(x[2][-1] == rv for x in d), 'get_cli/direction',
               'the CLI is for the requested direction', 'get_cli uses %s' %
               (d and show(d[0])))
        if not d:
            ck.open('get_cli')
            continue
        some = p.test(('truthy', d[0]))
        if some is None:
            some = p.test(isnone(d[0]))
            some = None if some is None else not some
        if some is False:
            ck.req(p.value == C(''), 'get_cli/none', 'no commands without '
                   'differences', 'get_cli returns %s without differences' %
                   show(p.value))
            continue
        c = [x for x in heads((p.value,) + tuple(y for y, _ in p.newfacts),
                              'prim') if x[1].endswith('.list2cli')]
        if not c:
            ck.fail('get_cli/none', 'get_cli returns %s for a diff' %
                    show(p.value))
            continue
        po, ne = ('item', c[0], C(0)), ('item', c[0], C(1))
        tp, tn = p.test(('truthy', po)), p.test(('truthy', ne))
        fl = flat(p.value)
        ip = [j for j, x in enumerate(fl) if x == po]
        in_ = [j for j, x in enumerate(fl) if x == ne]
        ck.req(len(ip) == 1 or tp is False and (len(ip) <= 1),
               'get_cli/added', 'commands of added lines are returned',
               'get_cli returns %s (when %s)' % (show(p.value),
                                                 facts_text(p, 2)))
        ck.req(len(in_) == 1 or tn is False and len(in_) <= 1,
               'get_cli/removed', 'commands of removed lines are returned',
               'get_cli returns %s (when %s)' % (show(p.value),
                                                 facts_text(p, 2)))
        if ip and in_:
            ck.req(in_[0] < ip[0], 'get_cli/order', 'lines are removed '
                   'before others are added', 'get_cli returns %s' %
                   show(p.value))
            mid = fl[in_[0] + 1:ip[0]]
            ck.req(bool(mid) and all(is_c(x) for x in mid) and
                   ''.join(cv(x) for x in mid).startswith('\n') and
                   ''.join(cv(x) for x in mid).endswith('\n') or None,
                   'get_cli/separate', 'removed and added lines are '
                   'separate')
    for name, val in (('cli', FALSE), ('cli_reverse', TRUE)):
        eng = Engine(prog, opaque=opq)
        _fwd(ck, eng.run(prog.method('RunningConfigDiff', name)), name,
             'get_cli', val)
        ck.used(eng)


def _indent(ck, prog):
    """indent: two more blanks in front of every line, sign kept in front"""
    fn = prog.method('RunningConfigDiff', 'indent')
    a = [x.arg for x in fn.node.args.args]
    main = [l for l in steps.toploops(fn) if isinstance(l, ast.For)]
    if len(main) != 1:
        ck.open('indent: %d loops' % len(main))
        return
    loop = main[0]
    s = steps.step(fn, loop)
    eng = Engine(prog)
    ps = eng.run(s.fn)
    ck.used(eng)
    b = steps.before(fn, loop)
    for p in Engine(prog).run(b.fn) if b else []:
        u = tupof(p.value)
        ck.req(u and u[0] in (('call', 'splitlines', (('p', a[1]),)),
                              ('split', ('p', a[1]), C('\n')),
                              ('call', 'split', (('p', a[1]), C('\n'))))
               or None, 'indent/lines', 'every line is indented')
    if len(s.target) != 1:
        ck.open('indent: loop target')
        return
    ln = ('p', s.target[0])
    for p in ps:
        if p.kind != 'return':
            ck.open('indent raises')
            continue
        st = dict(zip(s.state, p.value[1]))
        acc = [n for n in s.state[1:] if n not in s.target]
        if st['#'] != C('next'):
            ck.fail('indent/break', 'indent drops lines (when %s)' %
                    facts_text(p))
            continue
        if p.test(('truthy', ln)) is False or p.test(eq(ln, '')):
            continue
        ch = [n for n in acc if st[n] != ('p', n) and
              ('p', n) in flat(st[n])]
        if not ch:
            if not [e for e in p.events if e.kind == 'mut']:
                ck.fail('indent/drop', 'indent drops a line (when %s)' %
                        facts_text(p))
            else:
                ck.open('indent')
            continue
        fl = flat(st[ch[0]])[1:]
        t1 = ('slice', ln, C(1), NONE)
        i0 = ('item', ln, C(0))
        if ln in fl:
            j = fl.index(ln)
            ck.req(all(is_c(x) and not cv(x).strip() for x in fl[:j]) and j,
                   'indent/more', 'lines below another are indented',
                   'indent: %s' % [show(x) for x in fl])
        elif t1 in fl:
            j = fl.index(t1)
            ck.req(fl[0] == i0 and all(
                is_c(x) and not cv(x).strip() for x in fl[1:j]) and j > 1,
                'indent/sign', 'the sign stays in front', 'indent: %s' %
                [show(x) for x in fl])
        else:
            ck.open('indent: %s' % [show(x)[:40] for x in fl])
            continue
        ck.req(fl[-1] == C('\n') or None, 'indent/end', 'lines stay lines')


def _dels(ck, p, L, what):
    """positions are deleted in descending order; returns the boxes"""
    out = []
    for e in events(p):
        if e.kind == 'loop':
            for b in e.bodies:
                for x in b.events:
                    if x.kind == 'delitem' and x.recv == L:
                        r = e.recv
                        if r[0] == 'reversed':
                            out.append((r[1], 'rev'))
                        elif r[0] == 'sorted':
                            rev = any(y == ('reverse', TRUE)
                                      for y in subterms(r))
                            out.append((r[1], 'sorted' if rev else 'asc'))
                        else:
                            out.append((r, 'asc'))
    return out


def _no_dup(ck, prog):
    fn = prog.method('RunningConfigDiff', 'remove_duplicate_cammands')
    L = ('p', fn.node.args.args[-1].arg)
    loops_ = steps.toploops(fn)
    main = [l for l in loops_ if isinstance(l, ast.For)]
    if not main or not steps.before(fn, main[0]):
        ck.open('remove_duplicate_cammands')
        return
    loop = main[0]
    s = steps.step(fn, loop)
    eng = Engine(prog)
    ps = eng.run(s.fn)
    ck.used(eng)
    t = loop.target
    if not isinstance(t, ast.Tuple) or len(t.elts) != 2:
        ck.open('remove_duplicate_cammands: loop')
        return
    ix, ln = (('p', x.id) for x in t.elts)
    marks = set()
    for p in ps:
        for e in p.events:
            if e.kind == 'mut' and e.args and e.args[0] == ix:
                marks.add(e.recv)
                seen = [x for x, v in p.newfacts if v and x[0] == 'in' and
                        x[1] == ln]
                ck.req(bool(seen), 'dup/seen', 'a command is dropped only if '
                       'it was there before', 'remove_duplicate_cammands '
                       'drops a command when %s' % facts_text(p))
            elif e.kind == 'mut' and e.args and e.args[0] == ln:
                pass
            elif e.kind == 'mut' and e.recv[0] == 'p':
                ck.req(not contains(e.args, ('p', ix[1])) or None,
                       'dup/other', 'nothing else is kept')
                bad = [x for x in e.args if x[0] in ('call', 'slice',
                                                     'item')]
                if bad:
                    ck.fail('dup/part', 'remove_duplicate_cammands compares '
                            '%s instead of commands' % show(bad[0]))
    _delete_marked(ck, prog, fn, loop, marks, L, 'dup', True)


def _delete_marked(ck, prog, fn, loop, marks, L, key, asc):
    s = steps.after(fn, loop)
    eng = Engine(prog)
    n = 0
    for p in eng.run(s.fn):
        for src, order in _dels(ck, p, L, key):
            n += 1
            ck.req(src in marks if marks else None, key + '/what', 'marked '
                   'commands are dropped', '%s drops %s' % (
                       fn.name, show(src)))
            ck.req(order == 'sorted' or order == 'rev' and (asc or None),
                   key + '/order', 'positions are dropped from the last to '
                   'the first', '%s drops positions in ascending order' %
                   fn.name)
    if not n:
        ck.open('%s: how commands are dropped' % fn.name)


def _longer(ck, prog, name, negative):
    fn = prog.method('RunningConfigDiff', name)
    L = ('p', fn.node.args.args[-1].arg)
    main = [l for l in steps.toploops(fn) if isinstance(l, ast.For)]
    nested = [l for l in main if any(isinstance(x, (ast.For, ast.While))
                                     for b in l.body for x in ast.walk(b))]
    main = nested or main
    if not main or not steps.before(fn, main[0]):
        ck.open(name)
        return
    loop = main[0]
    key = 'longer' if negative else 'shorter'
    b = steps.before(fn, loop)
    s = steps.step(fn, loop)
    eng = Engine(prog)
    ps = eng.run(s.fn)
    ck.used(eng)
    # candidates: single-line commands
    cand = {}
    for p in Engine(prog).run(b.fn):
        u = tupof(p.value)
        if not u:
            continue
        for n, t in zip(b.state[1:], u[1:]):
            f = fz(p, t)
            if f[0] == 'cont' and len(f[2]) == 1:
                val, _, guard, many, src = f[2][0]
                if val == ('idx', ('each', L, 0)):
                    cand[n] = guard
    marks = set()
    any_ = False
    for p in ps:
        def go(q, facts):
            nonlocal any_
            for e in q.events:
                if e.kind == 'loop':
                    for bd in e.bodies:
                        go(bd, facts + list(bd.newfacts))
                elif e.kind == 'mut' and e.name in ('add', 'append') and \
                        e.recv[0] == 'p':
                    any_ = True
                    marks.add(e.recv)
                    gone = ('item', L, e.args[0])
                    why = [t for t, v in facts if v and t[0] == 'startswith']
                    good = None
                    for t in why:
                        w, of = t[1], t[2]
                        if of[0] == 'str' and len(of[1]) == 2 and \
                                of[1][1] == C(' '):
                            short, long_ = of[1][0], w
                            good = gone == (long_ if negative else short)
                            if not (short[0] == long_[0] == 'item' and
                                    short[1] == long_[1] == L):
                                good = None
                        else:
                            good = False
                    if not why:
                        part = [t for t, v in facts if v and t[0] == 'eq' and
                                any(x[0] == 'slice' for x in t[1:])]
                        good = False if part or not any(
                            v for t, v in facts) else None
                    ck.req(good, key + '/why', 'a command is dropped only if '
                           'another one %s, by whole words' % (
                               'contained in it removes it as well'
                               if negative else 'contains it'),
                           '%s drops a command (%s) when %s' % (
                               name, e.loc, ' and '.join(
                                   ('' if v else 'not ') + show(t)[:90]
                                   for t, v in facts[-2:])))
        go(p, list(p.newfacts))
    if not any_:
        ck.open('%s: nothing marked' % name)
    for n, guard in cand.items():
        used = any(contains(t, ('p', n)) for p in ps for e in events(p)
                   for t in (e.args or ())) or any(
            contains(e.recv, ('p', n)) for p in ps for e in events(p)
            if e.recv)
        if not used:
            continue
        nl = [t for t, v in guard if not v and t[0] == 'in' and
              t[1] == C('\n') and t[2] == ('each', L, 0)]
        ck.req(bool(nl), key + '/lines', 'only commands without lines below '
               'are dropped', '%s also drops sections' % name)
        if not negative:
            co = [t for t, v in guard if not v and (
                t[0] == 'in' and t[1] == ('each', L, 0) or
                t[0] == 'eq' and ('each', L, 0) in t[1:])]
            ck.req(bool(co), key + '/coexist', 'commands that coexist with '
                   'longer ones are kept', '%s drops commands that coexist '
                   'with longer ones' % name)
    _delete_marked(ck, prog, fn, loop, marks, L, key, False)


# ----------------------------------------------------------------------
# C30
def c30(ck, prog, tier):
    ck.part(_read_lines, ck, prog)
    ck.part(_read_both, ck, prog)
    ck.part(_siblings, ck, prog)


def _is_search(t, ln):
    """pattern when t says that a pattern occurs in the line"""
    if t[0] == 'truthy':
        t = t[1]
    if t[0] == 'call' and t[1] in ('re.search', 're.match') and \
            len(t[2]) == 2 and t[2][1] == ln:
        r = t[2][0]
        if r[0] == 'call' and r[1] == 're.compile':
            r = r[2][0]
        if is_c(r) and isinstance(cv(r), str):
            return ('^' if t[1] == 're.match' else '') + cv(r)
    if t[0] == 'rematch' and len(t) == 3 and t[2] == ln:
        return t[1] if isinstance(t[1], str) else None
    return None


def _comment(pat):
    """True: pattern of lines that start with ! or %; False: of others as
    well; None: unknown"""
    import re._parser as sp
    import re._constants as sc
    try:
        items = list(sp.parse(pat))
    except Exception:
        return None
    anch = False
    while items and items[0][0] is sc.AT:
        anch = anch or items[0][1] in (sc.AT_BEGINNING,
                                       sc.AT_BEGINNING_STRING)
        items = items[1:]
    if not anch:
        return False
    while items and items[0][0] in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        body = list(items[0][1][2])
        if len(body) == 1 and (
                body[0] == (sc.LITERAL, 32) or body[0] == (
                    sc.IN, [(sc.CATEGORY, sc.CATEGORY_SPACE)])):
            items = items[1:]
        else:
            return False if items[0][1][0] == 0 else None
    if not items:
        return False
    op, arg = items[0]
    if op is sc.SUBPATTERN:
        sub = list(arg[-1])
        if len(sub) == 1:
            op, arg = sub[0]
    if op is sc.LITERAL:
        return chr(arg) in '!%'
    if op is sc.IN:
        if all(k is sc.LITERAL for k, _ in arg):
            return all(chr(v) in '!%' for _, v in arg)
        return None
    if op is sc.BRANCH:
        firsts = [list(x)[:1] for x in arg[1]]
        if all(len(x) == 1 and x[0][0] is sc.LITERAL for x in firsts):
            return all(chr(x[0][1]) in '!%' for x in firsts)
        return None
    if op is sc.ANY:
        return False
    return None


BANNERS = ('Building configuration', 'Current configuration')


def _skip_reason(p, ln):
    """True: the line has no config; False: it may have; None: unknown"""
    unknown = False
    sp = ('call', 'strip', (ln,))
    for t, v in p.newfacts:
        pat = _is_search(t, ln)
        if pat is not None and v:
            c = _comment(pat)
            if c:
                return True
            unknown = unknown or c is None
        if t[0] == 'prefix' and t[1] == ln and v:
            if any(b.startswith(t[2]) and len(t[2]) > 10 or
                   t[2].startswith(b) for b in BANNERS):
                return True
        if t[0] == 'prefix' and v and t[1] in (
                sp, ('call', 'lstrip', (ln,))) and t[2][:1] in ('!', '%'):
            return True
        if t[0] in ('len>=',) and t[1] == sp and not v and t[2] == 1:
            return True
        if t[0] == 'truthy' and t[1] == sp and not v:
            return True
        if t[0] == 'eq' and v and {t[1], t[2]} in (
                {sp, C('')}, {sp, C('!')}, {('len', sp), C(0)}):
            return True
        if t[0] == 'eq' and v and t[1] == ('item', sp, C(0)) and \
                t[2] in (C('!'), C('%')):
            return True
        if v and contains(t, ln) and t[0] in ('in', 'eq') and \
                not contains(t, ('item', ln, C(0))):
            unknown = True
    return None if unknown else False


def _read_lines(ck, prog):
    fn = prog.method('RunningConfigDiff', 'config2list')
    txt = fn.node.args.args[-1].arg
    main = [l for l in steps.toploops(fn) if isinstance(l, ast.For)]
    if len(main) != 1:
        ck.open('config2list: %d loops' % len(main))
        return
    loop = main[0]
    s = steps.step(fn, loop)
    if len(s.target) != 1:
        ck.open('config2list: loop target')
        return
    ln = ('p', s.target[0])
    opq = {RC + 'config2list'}
    eng = Engine(prog, opaque=opq)
    ps = eng.run(s.fn)
    ck.used(eng)
    b = steps.before(fn, loop)
    init = {}
    for p in Engine(prog, opaque=opq).run(b.fn) if b else []:
        u = tupof(p.value)
        if p.kind != 'return' or not u:
            continue
        init = dict(zip(b.state, u))
        it = init['iter']
        src = ('p', txt)
        ck.req(it in (('call', 'splitlines', (src,)),
                      ('call', 'split', (src, C('\n'))),
                      ('split', src, C('\n')))
               or (False if it[0] in ('slice', 'reversed', 'setof', 'sorted')
                   else None), 'read/lines', 'every line of the text is read',
               'config2list reads %s' % show(it))
    # roles
    box = None
    last = sect = None
    for p in ps:
        for e in muts(p):
            if e.recv[0] == 'p' and e.args and signed(e.args[0]):
                box = e.recv
                u = tupof(e.args[0])
                t = u[0]
                if t[0] == 'call' and t[1] in ('rstrip', 'strip'):
                    t = t[2][0]
                if t[0] == 'p':
                    last = t
                for x in heads(u[1], 'prim'):
                    if x[1].endswith('.config2list') and \
                            x[2][-1][0] == 'p':
                        sect = x[2][-1]
    if box is None or last is None or sect is None:
        ck.open('config2list: how lines are kept (%s, %s, %s)' % (
            box, last, sect))
        return
    kidterm = None
    rest = [n for n in s.state[1:] if ('p', n) not in (last, sect, ln)]
    # the variable that says whether there are children
    ind = None
    for p in ps:
        for e in muts(p):
            if e.recv == box and e.args and tupof(e.args[0]):
                for t, v in p.newfacts:
                    for n in rest:
                        if t in (('lt', C(0), ('p', n)), ('truthy', (
                                'p', n)), ('eq', ('p', n), C(0))):
                            if v != (t[0] == 'eq') and heads(
                                    tupof(e.args[0])[1], 'prim'):
                                ind = n
    for p in ps:
        if p.kind != 'return':
            ck.fail('read/raise', 'config2list raises (when %s)' %
                    facts_text(p))
            continue
        st = dict(zip(s.state, p.value[1]))
        t_ = facts_text(p)
        if st['#'] != C('next'):
            ck.fail('read/break', 'config2list stops at a line (when %s)' %
                    t_)
            continue
        out = [e for e in muts(p) if e.recv == box]
        odd = [e for e in out if e.name != 'append'] + [
            e for e in p.events if e.kind in ('delitem', 'setitem') and
            e.recv == box]
        if odd:
            ck.open('config2list: %s' % repr(odd[0])[:80])
            continue
        nl, ns = st.get(last[1], last), st.get(sect[1], sect)
        ch = {n for n in s.state[1:] if st[n] != ('p', n) and
              n not in s.target}
        if out:
            _flush(ck, p, out, last, sect, ind, t_)
        had = p.test(('truthy', last))
        if had is None:
            e_ = p.test(eq(last, ''))
            had = None if e_ is None else not e_
        if nl == last and ns == sect:
            # nothing read from this line
            if out:
                ck.fail('read/again', 'config2list keeps a line again (when '
                        '%s)' % t_)
                continue
            r = _skip_reason(p, ln)
            ck.req(r, 'read/skip', 'only comments, empty lines and '
                   'banners are skipped', 'config2list skips a line when %s'
                   % t_[-400:])
            continue
        if nl != last:
            ck.req(len(out) == 1 or had is False and not out,
                   'read/keep', 'the line before is kept', 'config2list '
                   'keeps the line before %d times (when %s)' % (
                       len(out), t_[-300:]))
            ck.req(ns == C('') or (None if is_c(ns) else False),
                   'read/fresh', 'a new line starts without '
                   'children', 'config2list: children of a new line are %s' %
                   show(ns))
            if ind:
                ck.req(st.get(ind) in (C(0), FALSE, NONE) or None,
                       'read/fresh/ind', 'a new line starts without '
                       'indentation')
            if nl == ln:
                sp = _blank_first(p, ln)
                ck.req(sp is False or (None if sp is None else False),
                       'read/top', 'a line that is not indented starts a '
                       'new entry', 'config2list takes an indented line for '
                       'a new entry (when %s)' % t_[-200:])
            elif nl == C(''):
                ck.req(_skip_reason(p, ln) or _bang(p, ln) or None,
                       'read/end', 'only an end mark ends a section')
            elif nl[0] == 'call' and nl[2][0] == ln:
                ck.req(None if nl[1] not in ('strip', 'rstrip') else
                       nl[1] in ('strip', 'rstrip'), 'read/text', 'the line '
                       'is kept')
            else:
                ck.open('config2list: new line %s' % show(nl)[:80])
            continue
        # a line of the current section
        ck.req(not out, 'read/child/keep', 'nothing is kept yet',
               'config2list keeps an entry before its section ends')
        fl = flat(ns)
        if fl[0] != sect or fl[-1] != C('\n'):
            ck.req(None if sect in fl else False, 'read/child/append',
                   'lines of a section are collected in order',
                   'config2list: lines of a section become %s' %
                   show(ns)[:200])
            continue
        body = fl[1:-1]
        cut = [x for x in body if x == ln or x[0] == 'slice' and x[1] == ln]
        pad = [x for x in body if x not in cut]
        if len(cut) != 1:
            ck.fail('read/child/text', 'config2list: %s for a line of a '
                    'section' % show(ns)[:200])
            continue
        cut = cut[0]
        width = _width(ln)
        new = st.get(ind, ('p', ind)) if ind else None
        if ind:
            z = p.test(eq(('p', ind), 0))
            if z is None:
                z = p.test(('truthy', ('p', ind)))
                z = None if z is None else not z
            if z:
                ck.req(new in width + (C(1),) or (
                    False if new == ('p', ind) or new == C(0) else None),
                    'read/child/has', 'a section with lines has children',
                    'config2list forgets that there are lines in a section '
                    '(when %s)' % t_[-200:])
            else:
                ck.req(new == ('p', ind) or None, 'read/child/keeps',
                       'indentation of a section is that of its first line')
        if cut != ln:
            n = cut[2]
            if n in width:
                ck.ok('only blanks are cut off')
            elif n == ('p', ind) and cut[3] == NONE:
                sm = any(t[0] == 'lt' and t[1] in width and t[2] == n and
                         v is False or t[0] == 'lt' and t[1] == n and
                         t[2] in width and v for t, v in p.newfacts)
                ck.req(sm, 'read/child/cut', 'only blanks are cut off',
                       'config2list cuts off %s characters of a line that '
                       'may have fewer blanks' % show(n))
            else:
                ck.req(False if n[0] == 'bin' or is_c(n) else None,
                       'read/child/cut', 'only blanks are cut off',
                       'config2list cuts off %s characters of a line' %
                       show(n))
            ck.req(cut[3] == NONE, 'read/child/end', 'lines are read to '
                   'their end', 'config2list: %s' % show(cut))
        for x in pad:
            ck.req(is_c(x) and not cv(x).strip() or x[0] == 'bin' and
                   x[1] == '*' and C(' ') in x[2:] or None,
                   'read/child/pad', 'only blanks are added')
        if cut != ln and not pad:
            deeper = cut[2] == ('p', ind) or cut[2] in width and (
                ind is None or z is not False)
            ck.req(deeper or None, 'read/child/level', 'deeper lines stay '
                   'deeper')
            if cut[2] in width and ind and z is False:
                ck.fail('read/child/level', 'config2list loses the '
                        'indentation of lines in a section (when %s)' %
                        t_[-200:])
    # after the last line
    a = steps.after(fn, loop)
    eng = Engine(prog, opaque=opq)
    for p in eng.run(a.fn):
        if p.kind != 'return':
            ck.fail('read/raise', 'config2list raises: %s' % facts_text(p))
            continue
        out = [e for e in muts(p) if e.recv == box]
        had = p.test(('truthy', last))
        if had is None:
            e_ = p.test(eq(last, ''))
            had = None if e_ is None else not e_
        ck.req(len(out) == 1 or had is False and not out, 'read/last',
               'the last line is kept', 'config2list keeps the last line %d '
               'times (when %s)' % (len(out), facts_text(p)))
        if out:
            _flush(ck, p, out, last, sect, ind, facts_text(p))
        ck.req(p.value == box or None, 'read/result', 'all entries are '
               'returned')


def _width(ln):
    g = ('call', 'group', (('call', 're.search', (C('^ *'), ln)), C(0)))
    g2 = ('call', 'group', (('call', 're.match', (C(' *'), ln)), C(0)))
    return (('len', g), ('len', g2)) + tuple(
        ('bin', '-', ('len', ln), ('len', ('call', 'lstrip', x)))
        for x in ((ln,), (ln, C(' '))))


def _bang(p, ln):
    for t, v in p.newfacts:
        if t[0] == 'eq' and v and C('!') in t[1:] and contains(t, ln):
            return True
    return None


def _blank_first(p, ln):
    for t, v in p.newfacts:
        if t[0] == 'eq' and {t[1], t[2]} == {('item', ln, C(0)), C(' ')}:
            return v
        if t[0] == 'prefix' and t[1] == ln and t[2] == ' ':
            return v
        if t[0] == 'truthy' and t[1] in _width(ln) or t[0] == 'lt' and \
                t[1] == C(0) and t[2] in _width(ln):
            return v
        if t[0] == 'eq' and t[1] in _width(ln) and t[2] == C(0):
            return not v
    return None


def _flush(ck, p, out, last, sect, ind, txt):
    for e in out:
        u = tupof(e.args[0])
        if not u or len(u) != 3:
            ck.open('config2list keeps %s' % show(e.args[0])[:80])
            continue
        ck.req(u[0] in (('call', 'rstrip', (last,)), last, (
            'call', 'strip', (last,))), 'read/entry/text', 'the '
            'entry has the text of the line', 'config2list keeps %s' %
            show(u[0]))
        ck.req(u[2] == SAME, 'read/entry/sign', 'entries read have no sign',
               'config2list: sign %s' % show(u[2]))
        has = None
        for t, v in p.newfacts:
            if ind and t in (('lt', C(0), ('p', ind)), ('truthy', (
                    'p', ind))):
                has = v
            if ind and t == ('eq', ('p', ind), C(0)):
                has = not v
            if t == ('truthy', sect):
                has = v
        if u[1] == NONE:
            ck.req(has is False or (None if has is None else False),
                   'read/entry/leaf', 'a line without lines below has no '
                   'children', 'config2list: no children for a line '
                   'with lines below (when %s)' % txt[-200:])
        else:
            sub = [x for x in heads(u[1], 'prim')
                   if x[1].endswith('.config2list')]
            ck.req(bool(sub) and sub[0] == u[1] and sub[0][2][-1] == sect or
                   (None if sub else False), 'read/entry/children',
                   'children are read from the lines of the section',
                   'config2list: children are %s' % show(u[1])[:120])
            ck.req(has is not False, 'read/entry/some', 'children only for '
                   'lines below', 'config2list: children for a line without '
                   'lines below')


def _read_both(ck, prog):
    fn = prog.method('RunningConfigDiff', 'running2list')
    a = [x.arg for x in fn.node.args.args]
    eng = Engine(prog, opaque={RC + 'config2list', RC + 'handle_orderless'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            ck.open('running2list raises')
            continue
        x = [y for y in heads(p.value, 'prim')
             if y[1].endswith('.handle_orderless')]
        if not x:
            ck.open('running2list returns %s' % show(p.value)[:80])
            continue
        args = x[0][2][-3:]
        ck.req(args[2] == C(0), 'both/depth', 'lines at the top are at depth '
               '0', 'running2list: depth %s' % show(args[2]))
        reps = []
        for t, n in zip(args[:2], a[-2:]):
            if t[0] != 'prim' or not t[1].endswith('.config2list'):
                ck.open('running2list: %s' % show(t)[:80])
                continue
            y = t[2][-1]
            rep = []
            while y[0] == 'call' and y[1] == 'replace' or y[0] == 'replace':
                z = y[2] if y[0] == 'call' else y[1:]
                rep.append(tuple(z[1:]))
                y = z[0]
            ck.req(y == ('p', n) or (False if y[0] == 'p' else None),
                   'both/which', 'both configs are read', 'running2list '
                   'reads %s instead of %s' % (show(y), n))
            reps.append(tuple(reversed(rep)))
        if len(reps) == 2:
            ck.req(reps[0] == reps[1], 'both/same', 'texts of both configs '
                   'are treated alike', 'running2list replaces different '
                   'texts in both configs: %s' % sorted(
                       show(('tup', z)) for z in set(reps[0]) ^ set(
                           reps[1])))
        if p.value != x[0]:
            u = tupof(p.value)
            ck.req(u == (('item', x[0], C(0)), ('item', x[0], C(1))) or
                   (False if u == (('item', x[0], C(1)), (
                       'item', x[0], C(0))) else None), 'both/order',
                   'first and second config are returned in order',
                   'running2list swaps the configs')


def _siblings(ck, prog):
    """children that are siblings are moved, not lost"""
    fn = prog.method('RunningConfigDiff', 'handle_sibling_cammands')
    L = ('p', fn.node.args.args[-1].arg)
    eng = Engine(prog, opaque={RC + 'handle_sibling_cammands'})
    ps = eng.run(fn)
    ck.used(eng)
    seen = set()

    def go(q):
        dels = [e for e in events(q) if e.kind == 'delitem' and
                e.recv != L]
        for d in dels:
            gone = ('each', d.recv, 0)
            put = [e for e in events(q) if e.kind == 'mut' and
                   e.name in ('append', 'insert') and e.recv == L and
                   e.args and e.args[-1] == gone]
            some = [e for e in events(q) if e.kind == 'mut' and e.recv == L]
            key = (d.loc, bool(put), bool(some))
            if key in seen:
                continue
            seen.add(key)
            ck.req(bool(put) or (None if some else False), 'sibling/moved',
                   'a command taken from its place is put at another',
                   'handle_sibling_cammands drops a command (%s)' % d.loc)
        for e in q.events:
            if e.kind == 'setitem' and e.recv == L:
                u = tupof(e.args[-1])
                old = ('item', L, e.args[0])
                ck.req(u and u[0] == ('item', old, C(0)) or None,
                       'sibling/same', 'a command keeps its text')
                if u and len(u) == 3 and u[1] == NONE:
                    n = [t for t, v in q.newfacts if t[0] == 'truthy' and
                         not v and t[1] == ('item', old, C(1))]
                    ck.req(bool(n) or None, 'sibling/empty', 'children are '
                           'given up only when there are none')
    for p in ps:
        for e in p.events:
            if e.kind == 'loop':
                for b in e.bodies:
                    go(b)
        go(p)


# ----------------------------------------------------------------------
# C31
def c31(ck, prog, tier):
    ck.part(_orderless, ck, prog)
    ck.part(_match, ck, prog)


def _orderless(ck, prog):
    fn = prog.method('RunningConfigDiff', 'handle_orderless')
    a = [x.arg for x in fn.node.args.args][-3:]
    L1, L2, D = (('p', x) for x in a)
    opq = {RC + 'handle_orderless', RC + 'match_orderless'}
    tops = steps.toploops(fn)
    runs = []
    for l in tops:
        s = steps.step(fn, l)
        eng = Engine(prog, opaque=opq)
        ps = eng.run(s.fn)
        ck.used(eng)
        runs.append((l, s, ps))

    def walk(q, facts, out):
        """(event, facts, events of the same block)"""
        for e in q.events:
            if e.kind == 'loop':
                src = []
                for b in e.bodies:
                    walk(b, facts + list(b.newfacts), out)
            else:
                out.append((e, facts, q.events))
    allev = []
    for l, s, ps in runs:
        for p in ps:
            o = []
            walk(p, list(p.newfacts), o)
            allev += [(l,) + x for x in o]
    # the second list is never changed
    bad = [e for l, e, f, bl in allev if e.kind in (
        'mut', 'delitem', 'setitem') and e.recv is not None and
        (e.recv == L2 or contains(e.recv, L2))]
    ck.req(not bad, 'orderless/second', 'the second config is not changed',
           'handle_orderless changes the second config (%s)' %
           (bad[0].loc if bad else ''))
    # removal
    removed = None
    dels = [(l, e, f, bl) for l, e, f, bl in allev
            if e.kind == 'delitem' and e.recv == L1 or
            e.kind == 'mut' and e.recv == L1 and e.name in ('pop', 'remove')]
    for l, e, f, bl in dels:
        if e.kind == 'mut':
            ck.open('handle_orderless: %s' % repr(e)[:80])
            continue
        i = e.args[0]
        save = [x for x in bl if x.kind == 'setitem' and
                x.args == (('item', ('item', L1, i), C(0)),
                           ('item', L1, i))]
        loc = bl.index(e)
        if not save:
            other = [x for x in bl if x.kind in ('setitem', 'mut') and
                     x.args and contains(x.args, ('item', L1, i))]
            ck.req(None if other else False, 'orderless/save', 'a line taken '
                   'out is remembered', 'handle_orderless drops a line '
                   '(%s)' % e.loc)
            continue
        ck.ok('a line taken out is remembered')
        removed = save[0].recv
        ck.req(bl.index(save[0]) < loc, 'orderless/save/first', 'the line is '
               'remembered before it is taken out', 'handle_orderless '
               'remembers the line that follows the one taken out')
        # descending positions
        r = None
        for q in Engine(prog, opaque=opq).run(steps.step_entry(
                fn, l, tops[tops.index(l) - 1])) if l in tops and \
                tops.index(l) > 0 else []:
            r = tupof(q.value)[0]
        if r is not None:
            ck.req(r[0] == 'reversed' or (False if r[0] == 'p' else None),
                   'orderless/positions', 'positions are taken out from the '
                   'last to the first', 'handle_orderless takes out '
                   'positions in ascending order')
            tbr = r[1] if r[0] == 'reversed' else r
            for l2, e2, f2, b2 in allev:
                if e2.kind == 'mut' and e2.recv == tbr and \
                        e2.name == 'append':
                    g = [t for t, v in f2 if v and t[0] == 'in' and
                         t[2][0] == 'p']
                    ck.req(bool(g), 'orderless/only', 'only orderless lines '
                           'are taken out', 'handle_orderless takes out a '
                           'line (when %s)' % ' and '.join(
                               show(t)[:80] for t, v in f2))
                    for t in g:
                        _matches(ck, allev, t[2], L1, L2, D, fn, prog, tops,
                                 opq)
    if removed is None:
        ck.open('handle_orderless: lines taken out')
        return
    # insertion
    ins = [(l, e, f, bl) for l, e, f, bl in allev if e.kind == 'mut' and
           e.recv == L1 and e.name in ('insert', 'append')]
    final = []
    marked = set()
    for l, e, f, bl in ins:
        x = e.args[-1]
        if x[0] != 'item' or x[1] != removed:
            ck.fail('orderless/insert/what', 'handle_orderless inserts %s'
                    % show(x)[:100])
            continue
        ck.ok('only lines taken out are put back')
        which = x[2]
        mk = [y for y in bl if y.kind == 'mut' and y.name in (
            'append', 'add') and y.args == (which,) and y.recv != L1]
        guard = [t for t, v in f if not v and t[0] == 'in' and
                 t[1] == which]
        if mk:
            marked.add(mk[0].recv)
            ck.req(any(t[2] == mk[0].recv for t in guard) or None,
                   'orderless/once', 'a line is put back once')
            if not any(t[2] == mk[0].recv for t in guard):
                ck.fail('orderless/once', 'handle_orderless puts a line back '
                        'although it may be there already (%s)' % e.loc)
        else:
            final.append((l, e, f))
    for l, e, f in final:
        which = e.args[-1][2]
        later = [x for x in tops[tops.index(l):] if x is not l and any(
            y[0] is x and y[1].kind == 'mut' and y[1].recv == L1
            for y in allev)]
        ck.req(not later, 'orderless/mark', 'lines put back are remembered',
               'handle_orderless puts a line back without remembering it '
               '(%s)' % e.loc)
    # the rest is put back
    rest = False
    for l in tops:
        it = None
        mine = [x for x in final if x[0] is l]
        if not mine:
            continue
        prev = tops.index(l)
        if prev == 0:
            continue
        for q in Engine(prog, opaque=opq).run(steps.step_entry(
                fn, l, tops[prev - 1])):
            it = fz(q, tupof(q.value)[0])
            if it[0] == 'cont' and len(it[2]) == 1:
                g = flatguard(it[2][0][2])
                neg = [t for t, v in g if not v and t[0] == 'in' and
                       t[2] in marked]
                pos = [t for t, v in g if v]
                other = [t for t, v in g if not v and t not in neg]
                ck.req(bool(neg), 'orderless/rest/once', 'lines put back '
                       'already are not put back again', 'handle_orderless '
                       'puts lines back twice')
                ck.req(len(pos) <= 1 and not other or None,
                       'orderless/rest/all', 'all other lines are put back')
                if len(pos) > 1 or other:
                    ck.fail('orderless/rest/all', 'handle_orderless puts '
                            'other lines back only when %s' % ' and '.join(
                                show(t)[:80] for t in pos + other))
                src = it[2][0][4]
                whole = it[2][0][0]
                if src is not None and src[0] == 'slice':
                    ck.fail('orderless/rest/slice', 'handle_orderless puts '
                            'back lines of %s only' % show(src))
                rest = True
    ck.req(rest or (None if final else False), 'orderless/rest', 'lines that '
           'found no place are put back', 'handle_orderless loses lines that '
           'found no place')
    # nothing else happens to the list
    for l, e, f, bl in allev:
        if e.kind == 'mut' and e.recv == L1 and e.name not in (
                'insert', 'append', 'pop', 'remove'):
            ck.req(False if e.name in ('sort', 'reverse', 'clear') else None,
                   'orderless/other', 'other lines keep their order',
                   'handle_orderless: %s (%s)' % (e.name, e.loc))
        if e.kind == 'setitem' and e.recv == L1:
            ck.fail('orderless/other', 'handle_orderless replaces a line '
                    '(%s)' % e.loc)
    # recursion
    rec = [(l, e, f) for l, e, f, bl in allev if e.kind == 'call' and
           e.name == 'handle_orderless']
    if not rec:
        ck.fail('orderless/deep', 'handle_orderless does not look at '
                'children')
    for l, e, f in rec:
        x, y, d = e.args[-3:]
        ck.req(lin(d) == plus(D, 1), 'orderless/deep/depth', 'children are '
               'one level deeper', 'handle_orderless: depth of children is '
               '%s' % show(d))
        ck.req(contains(x, L1) and not contains(x, L2) and contains(y, L2)
               and not contains(y, L1) or (
                   False if contains(x, L2) and contains(y, L1) else None),
               'orderless/deep/which', 'children of the first config are '
               'compared with those of the second', 'handle_orderless '
               'swaps children')
    # result
    last = steps.after(fn, tops[-1])
    for p in Engine(prog, opaque=opq).run(last.fn):
        ck.req(p.value == ('tup', (L1, L2)) or (
            False if p.value == ('tup', (L2, L1)) else None),
            'orderless/result', 'both configs are returned in order',
            'handle_orderless returns %s' % show(p.value)[:100])
        for e in p.events:
            if e.kind in ('mut', 'delitem', 'setitem') and \
                    e.recv in (L1, L2):
                ck.open('handle_orderless: %s' % repr(e)[:80])


def _matches(ck, allev, m, L1, L2, D, fn, prog, tops, opq):
    """m: lines that are orderless and in both configs"""
    sets = [(l, e, f) for l, e, f, bl in allev if e.kind in (
        'setitem', 'mut') and e.recv == m]
    if not sets:
        ck.open('handle_orderless: contents of %s' % show(m))
        return
    for l, e, f in sets:
        k = e.args[0]
        ask = [t for t, v in f if v and prims(t, 'match_orderless')]
        ck.req(bool(ask), 'orderless/listed', 'only commands listed as '
               'orderless are treated so', 'handle_orderless treats a line '
               'as orderless (when %s)' % ' and '.join(
                   show(t)[:80] for t, v in f))
        for t in ask:
            for x in heads(t, 'prim'):
                ck.req(x[2][-2:] == (k, D), 'orderless/listed/depth',
                       'commands are listed for the depth of the line',
                       'handle_orderless asks for %s' % show(x))
            if t[0] == 'truthy' and t[1][0] == 'item':
                ck.req(t[1][2] == C(0) or None, 'orderless/listed/answer',
                       'the answer is used')
        both = [t for t, v in f if v and t[0] == 'in' and t[1] == k]
        ck.req(bool(both), 'orderless/both', 'orderless lines are in both '
               'configs', 'handle_orderless treats a line as orderless that '
               'is in one config only')


def _match(ck, prog):
    fn = prog.method('RunningConfigDiff', 'match_orderless')
    a = [x.arg for x in fn.node.args.args][-2:]
    ln, dp = ('p', a[0]), ('p', a[1])
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    n = 0
    for p in ps:
        if p.kind != 'return':
            ck.open('match_orderless raises')
            continue
        u = tupof(p.value)
        r = u[0] if u else p.value
        hit = [t for t, v in p.newfacts if v and any(
            x[0] in ('call', 'rematch') and ln in (
                x[2] if x[0] == 'call' else x) for x in subterms(t))]
        deep = [t for t, v in p.newfacts if v and t[0] == 'eq' and
                dp in t[1:]]
        yes = r == TRUE or is_c(r) and bool(cv(r))
        if yes:
            n += 1
            ck.req(bool(hit), 'match/line', 'the line matches the pattern',
                   'match_orderless: a line is orderless when %s' %
                   facts_text(p, 3))
            ck.req(bool(deep), 'match/depth', 'the pattern is for this depth',
                   'match_orderless: a line is orderless at any depth')
        elif is_c(r):
            ck.req(not (hit and deep and len(ps) < 3) or None, 'match/no',
                   'other lines are not orderless')
        else:
            ck.open('match_orderless returns %s' % show(p.value)[:80])
    if not n:
        ck.open('match_orderless: %d paths' % len(ps))
