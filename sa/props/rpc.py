"""C32: requests hold what they are given; replies can be searched."""
import ast

from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show
from ..terms import subterms as subterms_
from .device import SELF, heads

ELEMENT = (('ext', 'lxml.etree.Element'), C('*'), C('{*}*'))
NCU = 'urn:ietf:params:xml:ns:netconf:base:1.0'


def subterms(t):
    return [s for s in subterms_(t) if s and isinstance(s[0], str)]


def c32(ck, prog, tier):
    ck.prog = prog
    m = prog.mods.get('__init__')
    if m is None:
        raise AnalysisBroken('module __init__ vanished')
    ck.part(_wrap, ck, prog, m)
    ck.part(_request, ck, prog, m)
    ck.part(_xpath, ck, prog, m)
    ck.part(_str, ck, prog, m)
    ck.part(_ns, ck, prog)


def patched(ck, prog, m, cls, attr):
    """the function of ncdiff that is assigned to a method of ncclient"""
    hits = []
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Assign):
            continue
        for t in n.targets:
            if isinstance(t, ast.Attribute) and t.attr == attr and \
                    ast.unparse(t.value).split('.')[-1] == cls:
                hits.append(n)
    names = {ast.unparse(n.value) for n in hits}
    if len(names) != 1 or not isinstance(hits[0].value, ast.Name):
        ck.open('%s.%s is not assigned by ncdiff' % (cls, attr))
        return None
    f = m.funcs.get(hits[0].value.id)
    if f is None:
        ck.open('%s.%s: %s is not a function' % (
            cls, attr, hits[0].value.id))
        return None
    for n in hits:
        if n not in m.tree.body and not any(
                isinstance(x, ast.If) and n in x.body for x in m.tree.body):
            ck.open('%s.%s is assigned conditionally' % (cls, attr))
    return f


# -- complete copies ----------------------------------------------------
def whole(ck, b, x, parent, what, move=True, depth=0):
    """the path puts x, complete, below parent"""
    cps = [e for e in b.events if e.kind == 'mut' and e.recv == parent and
           e.name in ('append', 'insert', 'extend') and e.args and (
               contains(e.args[-1], x) or any(
                   k == 'newelem' for k in (e.args[-1][0],)) or
               e.args[-1][0] == 'elem')]
    deep = [e for e in cps if e.args[-1][0] in ('copy', 'elemcopy',
                                                'deepcopy')]
    if deep:
        ck.req(len(cps) == 1, 'copy/once', what + ' is sent once',
               '%s is sent %d times' % (what, len(cps)))
        return
    moved = [e for e in cps if e.args[-1] == x]
    if moved:
        if depth:
            ck.fail('copy/moved', '%s: nodes are taken out of the tree they '
                    'belong to' % what)
        else:
            ck.req(move and len(cps) == 1, 'copy/moved', what + ' is sent',
                   'sending takes %s out of the tree it belongs to' % what)
        return
    if not cps:
        other = [e for e in b.events if e.kind == 'call' and
                 contains(e.args, x) and contains(e.args, parent)]
        if len(other) == 1 and other[0].fn is not None and \
                x in other[0].args and parent in other[0].args:
            by_function(ck, other[0], x, parent, what)
            return
        kids = [l for l in loops(b) if contains(l.recv, x) and any(
            y.kind == 'mut' and y.recv == parent for bb in l.bodies
            for y in bb.events)]
        if kids:
            ck.fail('copy/root', 'the children of %s are sent without the '
                    'element itself' % what)
            return
        ck.req(None if other or murky(b) else False, 'copy/missing',
               what + ' is sent', '%s is left out (when %s)' % (
                   what, facts_text(b)))
        return
    if len(cps) > 1:
        ck.fail('copy/once', '%s is sent %d times' % (what, len(cps)))
        return
    e = cps[0]
    n = e.args[-1]
    if n[0] != 'elem':
        ck.open('%s: appended is %s' % (what, show(n)[:80]))
        return
    ck.req(e.name == 'append' or (False if e.name == 'insert' and
                                  e.args[0] == C(0) else None),
           'copy/order', 'elements are sent in order',
           'elements of %s are sent in reverse order' % what)
    ck.req(n[2] == ('tag', x) or (None if not is_c(n[2]) and not contains(
        n[2], ('tag', x)) else False), 'copy/tag', 'elements are sent with '
        'their tags', '%s is sent with tag %s' % (what, show(n[2])))
    new = [y for y in b.events if y.kind == 'newelem' and
           y.kw and contains(y.kw.get('attrib', NONE), x)]
    ats = [y for y in b.events if y.kind == 'attrupdate' and y.recv == n]
    al = [l for l in loops(b) if l.recv[0] in ('attrs', 'attritems')]
    full = [y for y in ats if y.args and y.args[0] in (
        ('attrib', x), ('attr', x, 'attrib'))]
    alien = [y for y in ats if y.args and y.args[0][0] == 'attrib' and
             not contains(y.args[0], x)]
    if alien:
        ck.fail('copy/attributes', 'elements of %s are sent with attributes '
                '%s' % (what, show(alien[0].args[0])))
    ck.req(bool(full) or (None if ats or al or new or murky(b) else False),
           'copy/attributes', 'elements are sent with their attributes',
           'elements of %s are sent without their attributes' % what)
    mk = [y for y in b.events if y.kind == 'newelem' and
          (y.recv == n or parent in y.args and ('tag', x) in y.args)]
    if mk:
        nm = (mk[0].kw or {}).get('nsmap')
        ck.req(True if nm in (('nsmap', x), ('attr', x, 'nsmap')) else (
            False if nm is None or nm == NONE or nm[0] == 'nsmap' and
            not contains(nm, x) else None), 'copy/nsmap',
            'elements are sent with the prefixes they declare',
            'elements of %s are sent without the prefixes they declare: '
            'prefixes in values lose their meaning' % what)
    t = ('text', x)
    tx = [y for y in b.events if y.kind == 'mut' and y.name == 'set_text'
          and y.recv == n]
    if b.test(isnone(t)) is not True:
        good = bool(tx) and tx[-1].args[0] == t
        ck.req(good or (False if not tx and not murky(b) or tx and (
            is_c(tx[-1].args[0]) or contains(tx[-1].args[0], t)) else None),
            'copy/text', 'elements are sent with their text',
            'the text of an element of %s becomes %s (when %s)' % (
                what, show(tx[-1].args[0]) if tx else 'empty',
                facts_text(b)))
    children(ck, b, x, n, what, depth)


def by_function(ck, e, x, parent, what):
    """a function that copies one of its arguments below another"""
    i, j = e.args.index(x), e.args.index(parent)
    names = [a.arg for a in e.fn.node.args.args]
    seen = ck.__dict__.setdefault('seen_copies', set())
    if (e.fn.qual, i, j) in seen or max(i, j) >= len(names):
        return
    seen.add((e.fn.qual, i, j))
    eng = Engine(ck.prog, opaque=set())
    for p in eng.run(e.fn):
        if p.kind == 'return':
            whole(ck, p, ('p', names[i]), ('p', names[j]), what)
    ck.used(eng)


def children(ck, b, x, n, what, depth):
    kids = [l for l in loops(b) if l.recv[0] in (
        'children', 'childtag', 'rev', 'slice', 'reversed') and contains(
            l.recv, x) or l.recv == x]
    again = [e for e in b.events if e.kind == 'call' and x in e.args and
             n in e.args]
    empty = any(a in (('truthy', x), ('len>=', x, 1), (
        'truthy', ('children', x, 0))) and not v for a, v in b.facts.log)
    # len(x) counts comments as well
    some = any(a[0] == 'len>=' and a[1] == x and a[2] > 1 and not v
               for a, v in b.facts.log)
    if some and not kids and not again:
        ck.fail('copy/children', 'a single child is left out of %s' % what)
        return
    if again and not kids:
        r = recursion(b, again[0], x, n)
        ck.req(r, 'copy/children', 'the children of elements are sent',
               'the recursive copy of %s is called with the wrong elements'
               % what)
        return
    if not kids:
        far = depth > 1
        ck.req(True if empty else (None if murky(b) or far else False),
               'copy/children', 'the children of elements are sent',
               'children of elements of %s are left out (when %s)' % (
                   what, facts_text(b)))
        return
    if len(kids) > 1:
        ck.open('%s: several loops over children' % what)
        return
    l = kids[0]
    tag = l.recv[2] if l.recv[0] == 'childtag' else None
    if l.recv[0] in ('rev', 'slice', 'reversed'):
        ck.fail('copy/children', 'children of elements of %s are sent as '
                '%s' % (what, show(l.recv)))
        return
    if tag is not None and tag not in ELEMENT:
        ck.req(None if not is_c(tag) else False, 'copy/children', 'all '
               'children are sent', 'only children %s of elements of %s are '
               'sent' % (show(tag), what))
        return
    k = ('each', l.recv, 0)
    for bb in l.bodies:
        if tag is None and skips(bb, k):
            continue
        if tag is None:
            guarded = any(contains(a, ('tag', k)) or contains(a, k) and
                          a[0] in ('isinst', 'eq', 'call')
                          for a, v in bb.newfacts)
            made = any(y.kind == 'newelem' and ('tag', k) in y.args
                       for y in bb.events)
            ck.req(True if guarded else (False if made else None),
                   'copy/comment', 'comments are left out',
                   'a comment within %s raises TypeError' % what)
        whole(ck, bb, k, n, what, depth=depth + 1)
    if l.exh is False or any(y.kind != 'raise' for y in l.exits):
        ck.fail('copy/children', 'not all children of elements of %s are '
                'sent' % what)


def skips(b, k):
    """the body passes over a comment or processing instruction"""
    return any((contains(a, ('tag', k)) or a[0] == 'isinst' and
                a[1] == k and str(a[2]) in ('_Comment',
                                            '_ProcessingInstruction'))
               for a, v in b.newfacts) and not any(
                   e.kind in ('mut', 'newelem') for e in b.events)


def recursion(b, e, x, n):
    """the recursive call copies from x to n, as the caller does"""
    if e.fn is None:
        return None
    names = [a.arg for a in e.fn.node.args.args]
    pos = {names[i]: a for i, a in enumerate(e.args) if i < len(names)}
    src = [k for k, a in pos.items() if a == x]
    dst = [k for k, a in pos.items() if a == n]
    if len(src) != 1 or len(dst) != 1:
        return None
    # which parameter of the function is the source?
    f = e.fn.node
    it = set()
    for y in ast.walk(f):
        if isinstance(y, ast.For):
            for z in ast.walk(y.iter):
                if isinstance(z, ast.Name):
                    it.add(z.id)
    if src[0] in it:
        return True
    if dst[0] in it:
        return False
    return None


# -- RPC._wrap ----------------------------------------------------------
def _wrap(ck, prog, m):
    f = patched(ck, prog, m, 'RPC', '_wrap')
    if f is None:
        return
    a = [x.arg for x in f.node.args.args]
    sub = ('p', a[1])
    eng = Engine(prog, opaque=set())
    ps = eng.run(f)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return':
            ck.open('RPC._wrap raises')
            continue
        x = [s for s in subterms(p.value) if s[0] == 'call' and
             str(s[1]).split('.')[-1] in ('to_xml', 'tostring')]
        if not x:
            ck.open('RPC._wrap returns %s' % show(p.value)[:80])
            continue
        ele = x[0][2][0] if isinstance(x[0][2], tuple) and x[0][2] else None
        if ele == sub:
            ck.fail('wrap/rpc', 'the operation is sent without element rpc')
            continue
        names = [s for s in subterms(ele) if s == C('rpc') or s == C(
            '{%s}rpc' % NCU)] if ele else []
        ck.req(bool(names) or None, 'wrap/rpc', 'the operation is sent in an '
               'element rpc')
        ids = [s for s in subterms(ele) if s == C('message-id')]
        val = [s for s in subterms(ele) if s == ('attr', SELF, '_id')]
        at = [e for e in p.events if e.kind == 'setitem' or
              e.kind == 'attrset']
        put = [e for e in at if C('message-id') in e.args and
               ('attr', SELF, '_id') in e.args]
        ck.req(bool(ids and val or put) or (
            None if ids or at or murky(p) else False), 'wrap/id',
            'the request carries its message id', 'the request is sent '
            'without its message-id')
        whole(ck, p, sub, ele, 'the operation')


# -- EditConfig.request -------------------------------------------------
OPTS = (('error_option', 'error-option'), ('test_option', 'test-option'),
        ('default_operation', 'default-operation'))
FORMAT = ('p', 'format')


def named(p, n, name):
    """elements with this name made below n on the path"""
    out = []
    for e in p.events:
        if e.kind == 'call' and e.name.split('.')[-1] in (
                'sub_ele', 'SubElement', 'sub_ele_ns') and e.args and \
                e.args[0] == n and len(e.args) > 1 and is_c(e.args[1]) and \
                str(cv(e.args[1])).split('}')[-1] == name:
            out.append(e.res)
        if e.kind == 'newelem' and n in e.args and any(
                is_c(a) and str(cv(a)).split('}')[-1] == name
                for a in e.args):
            out.append(e.recv)
    return out


def textof(p, el):
    tx = [e.args[0] for e in p.events if e.kind == 'mut' and
          e.name == 'set_text' and e.recv == el]
    return tx[-1] if tx else None


def _request(ck, prog, m):
    f = patched(ck, prog, m, 'EditConfig', 'request')
    if f is None:
        return
    a = [x.arg for x in f.node.args.args]
    if 'config' not in a:
        ck.open('EditConfig.request: arguments')
        return
    eng = Engine(prog, opaque=set())
    ps = eng.run(f)
    ck.used(eng)
    cfg = ('p', 'config')
    defaults(ck, f)
    for p in ps:
        if p.kind != 'return':
            ck.open('EditConfig.request raises')
            continue
        sent = [e for e in p.events if e.kind == 'call' and
                e.name.split('.')[-1] == '_request' and e.recv == SELF]
        if not sent:
            ck.req(None if murky(p) else False, 'edit/sent', 'the request is '
                   'sent', 'edit-config is not sent (when %s)' %
                   facts_text(p))
            continue
        ck.req(len(sent) == 1, 'edit/sent', 'the request is sent once',
               'edit-config is sent %d times' % len(sent))
        ck.req(p.value == sent[0].res or (
            False if is_c(p.value) else None), 'edit/reply',
            'the reply is returned', 'edit-config does not return the reply')
        node = sent[0].args[0]
        if not any(s == C('edit-config') for s in subterms(node)):
            ck.open('edit-config: %s' % show(node)[:60])
            continue
        at = p.events.index(sent[0])
        # target
        tg = [e for e in p.events if e.kind == 'mut' and e.recv == node and
              e.name in ('append', 'insert') and any(
                  s == C('target') for s in subterms(e.args[-1]))]
        sub = named(p, node, 'target')
        ck.req(bool(tg) or (None if sub or murky(p) else False),
               'edit/target', 'the target is named', 'edit-config is sent '
               'without target')
        for e in tg:
            ck.req(contains(e.args[-1], ('p', 'target')) or (
                False if all(is_c(z) or z == ('attr', SELF, '_assert')
                             for z in args_of(e.args[-1])) else None),
                   'edit/target', 'the target is the given one',
                   'edit-config is sent to %s' % show(e.args[-1]))
        for arg, name in OPTS:
            if arg in a:
                option(ck, p, node, arg, name)
        asserts(ck, p, a, at)
        # content
        fmt = [v for v in ('xml', 'text')
               if p.test(eq(FORMAT, v)) is True]
        if not fmt:
            if p.test(eq(FORMAT, 'xml')) is None and \
                    p.test(eq(FORMAT, 'text')) is None:
                ck.open('edit-config: format')
            continue
        if fmt == ['text']:
            hit = [c for t in named(p, node, 'config-text')
                   for c in named(p, t, 'configuration-text')]
            tx = textof(p, hit[0]) if hit else None
            ck.req(tx == cfg or (None if tx is None and murky(p) or
                                 tx is not None and not is_c(tx) and
                                 not contains(tx, cfg) else False),
                   'edit/text', 'the text of the config is sent',
                   'format text: the config is sent as %s' % (
                       show(tx) if tx else 'nothing'))
            continue
        ve = [e for e in p.events if e.kind == 'call' and
              e.name.split('.')[-1] == 'validated_element' and
              cfg in e.args]
        x = ve[0].res if ve else cfg
        whole(ck, p, x, node, 'the config', move=False)


def args_of(t):
    return [z for z in t[2]] if t[0] == 'call' and isinstance(
        t[2], tuple) else [t]


def defaults(ck, f):
    """an option that is not given is not sent"""
    ar = f.node.args
    names = [x.arg for x in ar.args]
    d = dict(zip(names[len(names) - len(ar.defaults):], ar.defaults))
    for arg, name in OPTS:
        if arg not in d:
            ck.open('edit-config: default of ' + arg)
            continue
        ck.req(isinstance(d[arg], ast.Constant) and d[arg].value is None or
               None, 'edit/default', '%s has no default' % arg)
        if isinstance(d[arg], ast.Constant) and d[arg].value is not None:
            ck.fail('edit/default/' + name, 'edit-config is sent with %s %s '
                    'when none is given' % (name, d[arg].value))


def option(ck, p, node, arg, name):
    isn = p.test(isnone(('p', arg)))
    tr = p.test(('truthy', ('p', arg)))
    hit = named(p, node, name)
    wrong = [n for n in ('default-operation', 'test-option', 'error-option')
             if n != name and any(textof(p, z) == ('p', arg)
                                  for z in named(p, node, n))]
    if wrong:
        ck.fail('edit/option/' + name, '%s is sent as %s' % (
            arg, wrong[0]))
        return
    if isn is True or tr is False and isn is None:
        ck.req(not hit, 'edit/none/' + name, '%s is sent only if given' %
               name, '%s is sent although it is not given' % name)
        return
    if isn is None and tr is None:
        ck.req(None if not hit else None, 'edit/option/' + name, name)
        return
    if not hit:
        val = [v for v in ('rollback-on-error', 'stop-on-error',
                           'continue-on-error', 'merge', 'replace', 'none',
                           'set', 'test-then-set')
               if p.test(eq(('p', arg), v))]
        ck.req(None if murky(p) else False, 'edit/option/' + name,
               '%s is sent' % name, '%s %sis not sent (when %s)' % (
                   name, val[0] + ' ' if val else '', facts_text(p)))
        return
    ck.req(len(hit) == 1, 'edit/once/' + name, '%s is sent once' % name,
           '%s is sent %d times' % (name, len(hit)))
    tx = textof(p, hit[0])
    known = is_c(tx) and p.test(eq(('p', arg), cv(tx))) is True \
        if tx is not None else False
    ck.req(tx == ('p', arg) or known or (
        None if tx is None and murky(p) or tx is not None and
        not is_c(tx) and tx[0] != 'p' and not contains(tx, ('p', arg))
        else False), 'edit/option/' + name, '%s has the given value' % name,
        '%s is sent as %s' % (name, show(tx) if tx else 'empty'))


def asserts(ck, p, a, at):
    """capabilities that options need are required before sending"""
    def asked(cap):
        return any(e.kind == 'call' and e.name.split('.')[-1] == '_assert'
                   and any(is_c(z) and cv(z) == cap for z in e.args)
                   for e in p.events[:at])
    if 'error_option' in a:
        r = p.test(eq(('p', 'error_option'), 'rollback-on-error'))
        if r is True:
            ck.req(asked(':rollback-on-error') or (
                None if murky(p) else False), 'edit/capability/rollback',
                'rollback-on-error needs the capability', 'rollback-on-error '
                'is sent to devices without the capability')
        elif r is False:
            ck.req(not asked(':rollback-on-error'),
                   'edit/capability/other', 'other error options need no '
                   'capability', 'error-option %s needs capability '
                   ':rollback-on-error' % 'stop-on-error')
        elif p.test(isnone(('p', 'error_option'))) is False:
            ck.req(None if murky(p) else False,
                   'edit/capability/rollback', 'rollback-on-error needs the '
                   'capability', 'rollback-on-error is sent to devices '
                   'without the capability')
    if 'test_option' in a and p.test(isnone(('p', 'test_option'))) is False:
        ck.req(asked(':validate') or (None if murky(p) else False),
               'edit/capability/validate', 'test-option needs :validate',
               'test-option is sent to devices without capability :validate')


# -- searching replies --------------------------------------------------
ROOTS = {'RPCReply': '_root', 'Notification': '_root_ele'}


def _xpath(ck, prog, m):
    for cls, root in ROOTS.items():
        f = patched(ck, prog, m, cls, 'xpath')
        if f is None:
            continue
        eng = Engine(prog, opaque=set())
        ps = eng.run(f)
        ck.used(eng)
        kw = f.node.args.kwarg
        va = f.node.args.vararg
        if kw is None or va is None:
            ck.open('%s.xpath: arguments' % cls)
            continue
        K, A = ('p', kw.arg), ('p', va.arg)
        given = ('in', C('namespaces'), K)
        for p in ps:
            if p.kind != 'return':
                ck.open('%s.xpath raises' % cls)
                continue
            q = [e for e in p.events if e.kind == 'query']
            if len(q) != 1:
                ck.req(None if p.value[0] != 'xpath' else False,
                       'xpath/options', 'options are passed on',
                       '%s.xpath loses its options' % cls)
                continue
            q = q[0]
            ck.req(q.kw.get('**') == K or (
                None if '**' in q.kw else False), 'xpath/options',
                'options are passed on', '%s.xpath loses its options (when '
                '%s)' % (cls, facts_text(p)))
            ck.req(q.recv == ('attr', SELF, root) or (
                None if not contains(q.recv, SELF) else False),
                'xpath/root', 'the whole message is searched',
                '%s.xpath searches %s' % (cls, show(q.recv)))
            ck.req(q.args == (('star', A),) or None, 'xpath/expression',
                   'the expression is passed on')
            ck.req(p.value[0] == 'xpath' or None, 'xpath/result',
                   'the result is returned')
            g = p.test(given)
            if g is None:
                none = p.test(isnone(('get', K, C('namespaces'))))
                g = None if none is None else not none
            at = p.events.index(q)
            sets = [e for e in p.events[:at] if e.kind == 'setitem' and
                    e.recv == K and e.args[0] == C('namespaces')]
            own = [e for e in p.events[:at] if e.kind in ('call', 'mut') and
                   e.recv == K and e.name in ('setdefault', 'update')]
            ns = q.kw.get('namespaces')
            ns = ns if ns is not None else (
                sets[-1].args[1] if sets else None)
            mine = ('attr', SELF, 'ns')
            if own:
                ck.req(contains(own[0].args, mine) or None, 'xpath/default',
                       'the namespaces of the message are the default')
            elif g is True:
                ck.req(ns is None or None if ns != mine else False,
                       'xpath/given', 'given namespaces are used',
                       '%s.xpath replaces the given namespaces' % cls)
            elif g is False:
                ck.req(ns == mine or (
                    None if ns is not None and not is_c(ns) else False),
                    'xpath/default', 'the namespaces of the message are the '
                    'default', '%s.xpath without namespaces uses %s' % (
                        cls, show(ns) if ns else 'none'))
            else:
                ck.req(None if ns is not None and ns != mine else False,
                       'xpath/given', 'given namespaces are used',
                       '%s.xpath %s' % (cls, 'replaces the given namespaces'
                                        if ns == mine else
                                        'has no default namespaces'))


def _str(ck, prog, m):
    for cls, root in ROOTS.items():
        f = patched(ck, prog, m, cls, '__str__')
        if f is None:
            continue
        eng = Engine(prog, opaque=set())
        ps = eng.run(f)
        ck.used(eng)
        r = ('attr', SELF, root)
        for p in ps:
            if p.kind != 'return':
                ck.open('%s.__str__ raises' % cls)
                continue
            v = p.value
            top = [s for s in subterms(v) if s[0] == 'call' and
                   str(s[1]).split('.')[-1] in ('tostring', 'to_xml')]
            if not top:
                raw = contains(v, SELF)
                ck.req(None if raw else False, 'str/text', 'the text of the '
                       'message', '%s.__str__ returns %s' % (cls, show(v)))
                continue
            ck.req(contains(v, r) or (
                None if not contains(v, SELF) else False), 'str/all',
                'the message is shown', '%s.__str__ shows %s' % (
                    cls, show(v)))
            cut = [s for s in subterms(v) if s[0] in (
                'item', 'slice', 'find', 'children', 'childtag', 'pick',
                'xpath') and contains(s, r)]
            ck.req(not cut, 'str/all', 'the whole message is shown',
                   '%s.__str__ shows only %s' % (
                       cls, show(cut[0]) if cut else ''))
            last = [e for e in p.events if e.kind == 'call' and
                    e.res == top[0]]
            if last and str(top[0][1]).split('.')[-1] == 'tostring':
                enc = (last[-1].kw or {}).get('encoding')
                ck.req(True if enc in (C('unicode'), (
                    'ext', 'builtins.str')) else (
                        None if any(s[0] == 'call' and str(s[1]).split(
                            '.')[-1] in ('decode', 'str')
                            for s in subterms(v)) else False),
                    'str/unicode', 'the text is a string',
                    '%s.__str__ returns bytes' % cls)
            if cls == 'RPCReply':
                first = [i for i, e in enumerate(p.events)
                         if e.kind == 'call' and e.name == 'parse' and
                         e.recv == SELF]
                ser = [i for i, e in enumerate(p.events)
                       if e.kind == 'call' and contains(e.args, r)]
                ck.req(bool(first) and (not ser or first[0] < ser[0]) or (
                    None if murky(p) else False), 'str/parsed',
                    'a reply is parsed before it is shown',
                    'RPCReply.__str__ shows a reply that is not parsed')


# -- ModelDevice._get_ns ------------------------------------------------
def _ns(ck, prog):
    fn = prog.method('ModelDevice', '_get_ns')
    if fn is None:
        raise AnalysisBroken('ModelDevice._get_ns vanished')
    src = ('p', [x.arg for x in fn.node.args.args][1])
    eng = Engine(prog, opaque={'ModelDevice.namespaces'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind == 'raise':
            ck.open('_get_ns raises %s' % p.exc.cls)
            continue
        if p.kind != 'return':
            continue
        ents = p.st.cont.get(p.value[1]) if len(p.value) > 1 and \
            p.value[0] == 'dict' else None
        if not ents:
            ck.open('_get_ns returns %s' % show(p.value)[:80])
            continue
        sources(ck, ents, src)
        for e in ents:
            entry(ck, e)
        made = [e for e in ents if is_c(e.key) and isinstance(
            cv(e.key), str) and cv(e.key)[:2] == 'ns' and
            cv(e.key)[2:].isdigit()]
        other = [e for e in ents if e.key is not None and not is_c(e.key)
                 and not prefix_of(e.key)]
        ck.req(bool(made) or (None if other else False), 'ns/unknown',
               'namespaces of no model get a prefix', 'namespaces of no '
               'model get no prefix: they are left out')
        models = [e for e in ents if e.key is not None and
                  prefix_of(e.key)]
        ck.req(bool(models) or (None if other else False), 'ns/model',
               'namespaces of models have the prefixes of the models',
               'the prefixes of models are not used')
        for pre, url in SPECIAL.items():
            hit = [e for e in ents if e.key == C(pre)]
            ck.req(bool(hit) or (None if other else False),
                   'ns/special/' + pre, 'prefix %s stands for %s' % (
                       pre, url), 'prefix %s is not used for %s' % (
                           pre, url))
            for e in hit:
                bad = [a for a, v in flatguard(e.guard) if v and
                       a[0] == 'eq' and any(is_c(z) and isinstance(
                           cv(z), str) and '/' in cv(z) + '/' and
                           cv(z) != url and ':' in cv(z) for z in a[1:3])]
                ck.req(not bad, 'ns/special/' + pre, 'prefix %s' % pre,
                       'prefix %s stands for another namespace' % pre)
        replaced(ck, p)


SPECIAL = {'nc': NCU, 'yang': 'urn:ietf:params:xml:ns:yang:1',
           'tailf': 'http://tail-f.com/ns/netconf/params/1.1',
           'ncEvent': 'urn:ietf:params:xml:ns:netconf:notification:1.0'}


def nsl(t):
    """each of device.namespaces"""
    return t[0] == 'each' and any(
        s[0] in ('prim', 'call') and isinstance(s[1], str) and
        s[1].split('.')[-1] == 'namespaces' or
        s[0] == 'attr' and s[2] in ('namespaces', '_namespaces')
        for s in subterms(t[1]))


def prefix_of(k):
    return k[0] == 'item' and nsl(k[1]) and k[2] == C(1)


def sources(ck, ents, src):
    """the URLs are those of all nodes of the tree"""
    for e in ents:
        ms = heads(e.val, 'nsmap') or [
            s for s in subterms(e.val) if s[0] == 'attr' and
            s[2] == 'nsmap']
        if not ms:
            ck.req(None if not is_c(e.val) else False, 'ns/url', 'the values '
                   'are URLs of the message', '_get_ns: prefix %s stands '
                   'for %s' % (show(e.key) if e.key else '?', show(e.val)))
            continue
        x = ms[0][1]
        if x[0] != 'each':
            ck.req(None if x != src and x[0] not in ('call',) else False,
                   'ns/all', 'namespaces of all nodes', '_get_ns reads only '
                   'namespaces of the root')
            continue
        s = x[1]
        if s[0] == 'desc':
            tag = s[2] if len(s) > 2 else NONE
            ck.req(True if tag in (NONE,) + ELEMENT else (
                False if is_c(tag) else None), 'ns/all', 'namespaces of all '
                'nodes', '_get_ns reads only namespaces of nodes %s' %
                show(tag))
            strict = len(s) > 4 and s[4] == C('strict')
            ck.req(not strict or None, 'ns/all', 'the root included')
            ck.req(contains(s[1], src) or None, 'ns/tree', 'the tree of the '
                   'message')
        elif s[0] in ('children', 'childtag', 'slice'):
            ck.fail('ns/all', '_get_ns reads only namespaces of %s' %
                    show(s))
        else:
            ck.open('_get_ns reads %s' % show(s)[:60])
        it = [z for z in subterms(e.val) if z[0] == 'item' and
              contains(z[1], ms[0])]
        if it and it[0] == e.val and e.val[1][0] == 'each' and \
                e.val[1][1][0] == 'dictitems_':
            ck.req(e.val[2] == C(1), 'ns/url', 'the values are URLs',
                   '_get_ns: values of ns are prefixes of the message')
        odd = [a for a, v in flatguard(e.guard) if a[0] in (
            'truthy', 'eq') and any(
                z[0] == 'item' and z[2] == C(0) and contains(z, ms[0])
                for z in subterms(a))]
        if odd:
            ck.fail('ns/all', '_get_ns leaves out namespaces depending on '
                    'their prefix: %s' % show(odd[0]))


def entry(ck, e):
    k = e.key
    if k is None or k == NONE:
        return
    if heads(k, 'nsmap'):
        ck.fail('ns/swapped', '_get_ns: keys of ns are URLs')
        return
    fs = flatguard(e.guard)
    if k[0] == 'item' and nsl(k[1]):
        ck.req(k[2] == C(1), 'ns/prefix', 'prefixes of models are used',
               '_get_ns uses %s of a model as prefix' % (
                   'the name' if k[2] == C(0) else 'the URL'))
        i = k[1]
        own = [a for a, v in fs if v and a[0] == 'eq' and e.val in a[1:3]
               and any(z == ('item', i, C(2)) for z in a[1:3])]
        wrong = [a for a, v in fs if a[0] in ('eq', 'startswith', 'in') and
                 contains(a, i) and a not in own and not (
                     a[0] == 'in' and a[1] == k)]
        ck.req(bool(own) or (False if wrong or not any(
            contains(a, i) for a, v in fs) else None), 'ns/owner',
            'a model\'s prefix stands for its namespace', '_get_ns: the '
            'prefix of a model stands for a namespace when %s' % (
                ' and '.join(show(a) for a in wrong) or 'always'))
    if k[0] == 'item' and nsl(k[1]) or is_c(k) and cv(k) in SPECIAL:
        free = [a for a, v in fs if not v and a[0] == 'in' and a[1] == k]
        any_ = [a for a, v in fs if contains(a, k) and a[0] not in (
            'eq',)]
        if not is_c(k):
            ck.req(bool(free) or (None if any_ else False), 'ns/unique',
                   'a prefix is used for one namespace', 'two models with '
                   'the same prefix: one of the namespaces is left out')


def replaced(ck, p):
    """namespaces without prefix get one, each another"""
    bad = False
    for l in loops(p):
        for b in l.bodies:
            keys = [e.args[1] for e in b.events if e.kind == 'setitem' and
                    len(e.args) > 1 and is_c(e.args[1]) and isinstance(
                        cv(e.args[1]), str) and cv(e.args[1])[:2] == 'ns' and
                    cv(e.args[1])[2:].isdigit()]
            for k in keys:
                free = any(a[0] == 'in' and a[1] == k and not v
                           for a, v in b.facts.log)
                # a counter: the next round uses another number
                cnt = sorted({cv(e.args[1]) for bb in l.bodies
                              for e in bb.events if e.kind == 'setitem' and
                              len(e.args) > 1 and is_c(e.args[1])
                              and isinstance(cv(e.args[1]), str)})
                if not free and len(l.bodies) > 0:
                    if len(cnt) == 1:
                        bad = True
    ck.req(not bad, 'ns/unique', 'made-up prefixes are all different',
           'namespaces of no model all get the same prefix')
