"""C23: configs are read completely."""
import ast

from ..engine import Engine
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show
from .delta import prims, subterms
from .device import SELF, heads

NCU = 'urn:ietf:params:xml:ns:netconf:base:1.0'
PATHS = ['/nc:rpc-reply/nc:data/*', '/nc:data/*', '/nc:config/*',
         '/nc:rpc/nc:edit-config/nc:config/*', '/nc:edit-config/nc:config/*']


def c23(ck, prog, tier):
    ck.part(_config, ck, prog)
    ck.part(_parser, ck, prog)
    ck.part(_payload, ck, prog)
    ck.part(_copy, ck, prog)


# -- Config.__init__ ----------------------------------------------------
def _config(ck, prog):
    fn = prog.method('Config', '__init__')
    a = [x.arg for x in fn.node.args.args]
    dev, src = ('p', a[1]), ('p', a[2])
    eng = Engine(prog, opaque={'NetconfParser.ele', 'Config.trim_defaults',
                               'Config.validate_config'})
    ps = eng.run(fn)
    ck.used(eng)
    kinds = ('RPCReply', 'str', '_Element', 'Config')
    n = 0
    for p in ps:
        isn = p.test(isnone(src))
        is_ = {k: p.test(('isinst', src, k)) for k in kinds}
        pos = [k for k in kinds if is_[k]]
        sets = [e for e in p.events if e.kind == 'setattr' and
                e.recv == SELF and e.name == 'ele']
        if p.kind == 'raise':
            if isn or pos:
                ck.fail('type/%s' % (pos[0] if pos else 'None'),
                        'Config raises %s for a source of type %s' % (
                            p.exc.cls, pos[0] if pos else 'None'))
            elif all(v is False for v in is_.values()):
                ck.req(p.exc.cls == 'TypeError', 'type/other', 'any other '
                       'source raises TypeError', 'Config raises %s for a '
                       'source of another type' % p.exc.cls)
            continue
        if p.kind != 'return':
            continue
        if not sets:
            ck.fail('ele', 'Config is built without content (when %s)' %
                    facts_text(p))
            continue
        v = sets[-1].args[0]
        n += 1
        if isn:
            ck.req(v[0] == 'elem' and v[2] == C('{%s}config' % NCU) or (
                None if v[0] != 'elem' else False), 'none', 'without a '
                'source the config is empty', 'Config without source: %s'
                % show(v))
        elif 'Config' in pos:
            ck.req(contains(v, ('attr', src, 'ele')) or None, 'config',
                   'the content of a Config is taken over')
        elif pos:
            pr = prims(v, 'ele')
            objs = [o for o in heads(v, 'obj') if o[-1] == 'NetconfParser']
            ok = None
            for o in objs:
                got = p.st.heap.get((o, 'reply'))
                ok = got == src if got is not None else None
            ck.req(ok, 'source', 'the source itself is parsed', 'Config '
                   'parses something else than its source')
        elif all(x is False for x in is_.values()) and isn is False:
            ck.fail('type/other', 'Config accepts a source that is neither '
                    'XML, an element, a reply nor a Config')
        # processing of the content
        at = p.events.index(sets[-1])
        calls = {e.name: i for i, e in enumerate(p.events)
                 if e.kind == 'call' and e.recv == SELF}
        ck.req(calls.get('trim_defaults', -1) > at or (
            None if 'trim_defaults' not in calls and murky(p) else False),
            'trim', 'defaults are trimmed after the content is set',
            'Config is built without trimming defaults (when %s)' %
            facts_text(p))
        if 'validate' in a:
            t = p.test(('truthy', ('p', 'validate')))
            done = calls.get('validate_config', -1) > at
            if t or t is None:
                ck.req(done or (None if t is None and False else False),
                       'validate', 'the config is validated unless this is '
                       'switched off', 'Config is built without validation '
                       '(when %s)' % facts_text(p))
            else:
                ck.req(not done, 'novalidate', 'validate=False switches '
                       'validation off', 'Config is validated although '
                       'validate=False')
        d = [e for e in p.events if e.kind == 'setattr' and e.recv == SELF
             and e.name == 'device']
        ck.req(bool(d) and d[-1].args[0] == dev, 'device', 'the config '
               'belongs to the given device', 'Config has another device')
        r = [e for e in p.events if e.kind == 'setattr' and e.recv == SELF
             and e.name == 'remove_deprecated']
        if 'remove_deprecated' in a:
            ck.req(bool(r) and r[-1].args[0] == ('p', 'remove_deprecated')
                   and p.events.index(r[-1]) < max(calls.values() or [0]),
                   'deprecated', 'remove_deprecated is kept before '
                   'validation', 'Config loses argument remove_deprecated')
    if not n:
        ck.open('Config.__init__')


# -- NetconfParser.ele --------------------------------------------------
def _parser(ck, prog):
    fn = prog.method('NetconfParser', 'ele')
    eng = Engine(prog, opaque={'NetconfParser.retrieve_config'})
    ps = eng.run(fn)
    ck.used(eng)
    rep = ('attr', SELF, 'reply')
    cache = ('attr', SELF, '_ele')
    for p in ps:
        if p.kind != 'return':
            ck.open('NetconfParser.ele raises')
            continue
        is_ = {k: p.test(('isinst', rep, k)) for k in ('str', '_Element',
                                                       'RPCReply')}
        got = prims(p.value, 'retrieve_config')
        if p.test(isnone(cache)) is False:
            ck.req(p.value == cache or None, 'memo', 'the parsed content is '
                   'kept')
            continue
        if is_['str']:
            x = [e for e in p.events if e.kind == 'call' and
                 e.name.split('.')[-1] in ('XML', 'fromstring')]
            ck.req(bool(x and rep in x[0].args and got) or
                   (None if got or murky(p) else False), 'string',
                   'a string is parsed as XML', 'a config given as string is '
                   'not parsed')
            ps_ = [e for e in p.events if e.kind == 'call' and
                   e.name.split('.')[-1] == 'XMLParser']
            ck.req(any((e.kw or {}).get('remove_blank_text') == TRUE
                       for e in ps_) or None, 'blank', 'white space of a '
                   'string is dropped')
        elif is_['_Element'] or is_['RPCReply']:
            want = rep if is_['_Element'] else ('attr', rep, '_root')
            ok = contains(p.value, want)
            ck.req(bool(got) and ok or (None if murky(p) and not got else
                                        False), 'tree/%s' % (
                                            'reply' if is_['RPCReply']
                                            else 'element'),
                   'the tree of the source is read', 'NetconfParser reads '
                   '%s' % show(p.value))


# -- retrieve_config ----------------------------------------------------
def _payload(ck, prog):
    fn = prog.method('NetconfParser', 'retrieve_config')
    eng = Engine(prog, opaque=set())
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    src = ('p', a[-1])
    _namespaces(ck, prog, fn)
    for p in ps:
        el = p.test(('isinst', src, '_Element'))
        if p.kind == 'raise':
            ck.req(p.exc.cls == 'TypeError' and el is False or (
                None if el is None else False), 'payload/type', 'only '
                'something that is no element raises TypeError',
                'retrieve_config raises %s' % p.exc.cls)
            continue
        if p.kind != 'return':
            continue
        r = p.value
        if r[0] != 'elem':
            ck.open('retrieve_config returns %s' % show(r))
            continue
        ck.req(r[2] == C('{%s}config' % NCU), 'payload/root', 'the result is '
               'a config element', 'retrieve_config returns %s' % show(r))
        ls = {}
        odd = False
        for l in loops(p):
            x = heads(l.recv, 'xpath')
            if x and is_c(x[0][2]):
                for q in cv(x[0][2]).split('|'):
                    ls.setdefault(q.strip(), []).append(l)
            else:
                odd = True
        rest = p.murky if hasattr(p, 'murky') else murky(p)
        for q in PATHS:
            if q not in ls:
                ck.req(None if odd or rest else False, 'payload/' + q,
                       'the content of %s is read' % q, 'retrieve_config '
                       'ignores %s' % q)
                continue
            ck.req(len(ls[q]) == 1, 'payload/once', '%s is read once' % q,
                   '%s is read %d times: its content is doubled' % (
                       q, len(ls[q])))
            for l in ls[q]:
                x = heads(l.recv, 'xpath')[0]
                ck.req(x[1] == src or None, 'payload/source',
                       'the source is searched')
                if l.recv != x:
                    ck.req(None if l.recv[0] not in ('slice', 'rev')
                           else False, 'payload/all', 'all of %s' % q,
                           'retrieve_config copies only %s of %s' % (
                               show(l.recv), q))
                    continue
                if l.exh is False or l.exits:
                    ck.fail('payload/all', 'retrieve_config does not copy '
                            'all of %s' % q)
                for b in l.bodies:
                    _copied(ck, b, ('each', l.recv, 0), r, q)
        for q in ls:
            if q not in PATHS:
                ck.open('further payload %s' % q)


def _namespaces(ck, prog, fn):
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'xpath':
            kw = {k.arg: k.value for k in n.keywords}
            v = kw.get('namespaces')
            if isinstance(v, ast.Dict) and len(v.keys) == 1 and \
                    isinstance(v.keys[0], ast.Constant):
                u = v.values[0]
                known = isinstance(u, ast.Name) and u.id == 'nc_url' or \
                    isinstance(u, ast.Constant) and u.value == NCU
                wrong = v.keys[0].value != 'nc' or \
                    isinstance(u, ast.Name) and u.id in (
                        'yang_url', 'tailf_url', 'ncEvent_url') or \
                    isinstance(u, ast.Constant) and u.value != NCU
                ck.req(True if known and not wrong else
                       (False if wrong else None), 'payload/namespace',
                       'prefix nc of the path is the netconf namespace',
                       'retrieve_config:%d: prefix %s of the path has '
                       'namespace %s' % (n.lineno, v.keys[0].value,
                                         ast.unparse(u)))


def _copied(ck, b, x, parent, q, rec=None):
    """the body puts a complete copy of x below parent"""
    cps = [e for e in b.events if e.kind == 'mut' and
           e.name in ('append', 'insert') and e.recv == parent]
    whole = [e for e in cps if e.args and e.args[-1][0] in (
        'copy', 'elemcopy', 'deepcopy') and contains(e.args[-1], x)]
    if whole:
        ck.req(all(e.name == 'append' for e in whole), 'copy/order',
               'copies are in document order')
        ck.ok('complete copy')
        return
    call = [e for e in b.events if e.kind == 'call' and
            parent in e.args and x in e.args]
    if call and not cps:
        ck.ok('copied by %s' % call[0].name)
        return
    moved = [e for e in cps if e.args[-1] == x]
    if moved:
        ck.fail('copy/moved', 'the nodes of the source are moved, not copied')
        return
    if not cps:
        ck.req(None if murky(b) else False, 'copy/missing', 'every element '
               'is copied', 'an element of %s is not copied (when %s)' % (
                   q, facts_text(b)))
        return
    ck.req(len(cps) == 1, 'copy/once', 'an element is copied once',
           'an element is copied %d times' % len(cps))
    e = cps[0]
    n = e.args[-1]
    ck.req(e.name == 'append' or None, 'copy/order', 'copies are in document '
           'order')
    if e.name == 'insert' and e.args[0] == C(0):
        ck.fail('copy/order', 'copies are in reverse order')
    if n[0] != 'elem':
        ck.open('what is appended: %s' % show(n)[:80])
        return
    ck.req(n[2] == ('tag', x) or (None if not is_c(n[2]) and not contains(
        n[2], ('tag', x)) else False), 'copy/tag', 'the copy has the same '
        'tag', 'the copy of an element has tag %s' % show(n[2]))
    up = [y for y in b.events if y.kind == 'attrupdate' and y.recv == n]
    al = [l for l in loops(b) if l.recv[0] in ('attrs', 'attritems')]
    ck.req(any(contains(y.args[0], x) for y in up if y.args) or (
        None if al or up or murky(b) else False), 'copy/attributes',
        'the copy has the same attributes', 'attributes are not copied')
    t = ('text', x)
    tx = [y for y in b.events if y.kind == 'mut' and y.name == 'set_text'
          and y.recv == n]
    isn = b.test(isnone(t))
    if isn is not True:
        same_ = bool(tx) and tx[-1].args[0] == t
        ck.req(same_ or (False if not tx and not murky(b) or
                         tx and (is_c(tx[-1].args[0]) or
                                 contains(tx[-1].args[0], t)) else None),
               'copy/text', 'the copy has the same text', 'the text of an '
               'element becomes %s (when %s)' % (
                   show(tx[-1].args[0]) if tx else 'empty', facts_text(b)))
    kids = [l for l in loops(b) if heads(l.recv, 'children', 'childtag') and
            contains(l.recv, x)]
    if not kids:
        leaf = any(a in (('truthy', x), ('len>=', x, 1), ('len>=', (
            'children', x, 0), 1)) and not v for a, v in b.facts.log)
        ck.req(None if leaf or murky(b) or [
            y for y in b.events if y.kind == 'call' and contains(
                y.args, x)] else False, 'copy/children', 'the children '
            'are copied', 'children are not copied (when %s)' % facts_text(b))
        return
    for l in kids:
        tag = l.recv[2] if l.recv[0] == 'childtag' else None
        if l.recv[0] != 'children' and tag not in (
                ('ext', 'lxml.etree.Element'), C('*'), C('{*}*')):
            ck.req(None if l.recv[0] not in ('slice', 'rev', 'childtag')
                   else False, 'copy/children', 'all children are copied in order',
                   'children are copied as %s' % show(l.recv))
            continue
        if l.exh is False or any(y.kind != 'raise' for y in l.exits):
            ck.fail('copy/children', 'not all children are copied')
        k = ('each', l.recv, 0)
        for bb in l.bodies:
            _copied(ck, bb, k, n, q)


def _copy(ck, prog):
    """recursive helper(s) that copy one element below a parent"""
    for m in prog.mods.values():
        if m.name != 'netconf':
            continue
        for f in m.funcs.values():
            a = [x.arg for x in f.node.args.args]
            if len(a) != 2:
                continue
            rec = any(isinstance(n, ast.Call) and isinstance(
                n.func, ast.Name) and n.func.id == f.name
                for n in ast.walk(f.node))
            if not rec:
                continue
            eng = Engine(prog, opaque=set())
            ps = eng.run(f)
            ck.used(eng)
            for p in ps:
                if p.kind != 'return':
                    continue
                for i, j in ((0, 1), (1, 0)):
                    x, parent = ('p', a[i]), ('p', a[j])
                    if any(e.kind == 'mut' and e.recv == parent
                           for e in p.events) or any(
                               e.kind == 'newelem' and parent in e.args
                               for e in p.events):
                        if any(l.recv == x for l in loops(p)):
                            continue
                        _copied(ck, p, x, parent, f.name)
