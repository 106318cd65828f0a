"""Devices: connecting (C28), models they offer and loading them (C26), names
and paths (C29)."""
import ast
import re

from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show, subterms
from .device import SELF, _c16_cache, heads
from .download import origin, short
from .model import once, params, undo

DEV = 'ModelDevice.'


def _entries(p, t):
    """(value, key, guard, many) of the members of a local collection"""
    t = undo(t)
    if t[0] in ('set', 'list', 'dict') and len(t) == 2 and t[1] in p.st.cont:
        return [(e.val, e.key, e.guard, e.many) for e in p.st.cont[t[1]]]
    if t[0] == 'cont':
        return [tuple(e[:4]) for e in t[2]]
    return None


SERVER = ('attr', SELF, 'server_capabilities')
MON = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
LIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
LIB10 = 'urn:ietf:params:netconf:capability:yang-library:1.0'
FIELD = ('attr', SELF, '_models_loadable')


def c26(ck, prog, tier):
    ck.part(_loadable, ck, prog)
    ck.part(_namespaces, ck, prog)
    ck.part(_scan, ck, prog)
    ck.part(_load, ck, prog)
    ck.part(_loaded, ck, prog)
    ck.part(_roots, ck, prog)
    ck.part(_c16_cache, ck, prog)


def c28(ck, prog, tier):
    ck.part(_connect, ck, prog)
    ck.part(_device, ck, prog)


# ----------------------------------------------------------------------
# C28

def strings(t):
    return [cv(x) for x in subterms(t) if x and x[0] == 'c' and
            isinstance(cv(x), str)]


def no_default(g):
    """kwargs.get(x): None if x is not given"""
    return g[0] == 'get' and len(g) < 4 or g[0] == 'call' and \
        str(g[1]).split('.')[-1] == 'get' and len(g[2]) < 3


def verify(path):
    """does the path check host keys? (None: nothing is known)"""
    there, val, only = None, None, None
    for a, v in path.newfacts:
        if 'hostkey_verify' not in strings(a):
            continue
        if a[0] == 'in':
            there = v
        elif a[0] == 'truthy':
            val = v
            g = a[1]
            if no_default(g) and path.facts.test(isnone(g)) is None:
                there = None
                val = True          # it may be absent, too
        elif a[0] == 'eq' and FALSE in a[1:]:
            val = not v
        elif a[0] == 'eq' and NONE in a[1:]:
            there = not v
        elif a[0] in ('eq', 'is') and TRUE in a[1:]:
            only = True             # other true values ask for it as well
    if there is False:
        return True
    if val is not None:
        return val
    return only


def opt(e, what):
    """the value of a keyword a call is given, through ** too"""
    if what in e.kw:
        return e.kw[what]
    return None


def session_of(t):
    return [x for x in subterms(t) if x and x[0] == 'call' and
            str(x[1]).split('.')[-1] == 'SSHSession']


@once
def _connect(ck, prog):
    fn = prog.mods['manager'].funcs.get('connect')
    if fn is None:
        raise AnalysisBroken('manager.connect vanished')
    a = fn.node.args
    if a.vararg is None or a.kwarg is None:
        ck.open('connect() does not take arbitrary arguments')
        return
    va, kw = ('p', a.vararg.arg), ('p', a.kwarg.arg)
    eng = Engine(prog, may_raise=lambda n: {'connect': '*'}.get(n),
                 opaque={DEV + '__init__'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        evs = [e for e in events(p) if e.kind == 'call']
        con = [(i, e) for i, e in enumerate(evs) if short(e) == 'connect' and
               e.recv is not None]
        kh = [(i, e) for i, e in enumerate(evs)
              if short(e) == 'load_known_hosts']
        txt = facts_text(p, 4)[:200]
        v = verify(p)
        if v is None:
            ck.req(True if kh else None if any(
                contains(f, kw) for f, b in p.newfacts) else False,
                'connect/hosts', 'known hosts are loaded unless host keys '
                'are not to be verified', 'connect() never loads known '
                'hosts')
        elif v:
            ck.req(bool(kh) and (not con or kh[0][0] < con[0][0]),
                   'connect/hosts', 'known hosts are loaded before '
                   'connecting unless host keys are not to be verified',
                   'connect() connects without known hosts although host '
                   'keys are to be verified (%s)' % txt)
        else:
            ck.req(not kh, 'connect/nohosts', 'known hosts are not needed if '
                   'host keys are not verified', 'connect() loads known '
                   'hosts although host keys are not to be verified')
        ck.req(len(con) == 1, 'connect/once', 'one connection is made',
               'connect() connects %d times (%s)' % (len(con), txt))
        for i, e in con:
            full = e.args == (('star', va),) and e.kw.get('**') == kw and \
                len(e.kw) == 1
            if not full and (va in [y for x in e.args for y in subterms(x)]
                             and any(contains(x, kw) for x in e.kw.values())):
                full = None
            ck.req(full, 'connect/args', 'all arguments are passed to the '
                   'session', 'connect() does not pass its arguments on: %r'
                   % e)
        failed = any(n == 'connect' for n, c in origin(p))
        if failed:
            ck.req(p.kind == 'raise' and p.exc is not None and
                   p.exc.cls == '*', 'connect/raise', 'a failure to connect '
                   'is raised as it is', 'connect() %s when the session '
                   'cannot connect' % (p.kind if p.kind != 'raise' else
                                       'raises ' + str(p.exc.cls)))
            tr = [b for f, b in p.newfacts if f[0] == 'truthy' and
                  contains(f, C('transport')) or f[0] in ('truthy', 'eq') and
                  any(x and x[0] == 'attr' and x[2] == 'transport'
                      for x in subterms(f))]
            closed = any(short(e) in ('close', 'close_session') for e in evs)
            if not tr:
                ck.req(closed, 'connect/close', 'a session that failed to '
                       'connect is closed', 'connect() leaves a session open '
                       'that failed to connect')
            else:
                eqn = [f for f, b in p.newfacts if f[0] == 'eq' and any(
                    x and x[0] == 'attr' and x[2] == 'transport'
                    for x in subterms(f))]
                has = (not tr[-1]) if eqn else tr[-1]
                if has:
                    ck.req(closed, 'connect/close', 'a session that failed '
                           'to connect is closed', 'connect() leaves a '
                           'session open that failed to connect')
            continue
        if p.kind != 'return':
            ck.open('connect() raises when %s' % txt)
            continue
        new = [e for e in p.events if e.kind == 'new' and
               e.name == 'ModelDevice']
        if len(new) != 1:
            ck.req(None if p.value != NONE else False, 'connect/device',
                   'a ModelDevice is returned',
                   'connect() returns no device')
            continue
        e = new[0]
        ok = len(e.args) >= 1 and bool(session_of(e.args[0])) or \
            bool(session_of(e.kw.get('session', NONE)))
        ck.req(ok and (con and con[0][1].recv in (
            e.args[:1] + (e.kw.get('session'),))) or None,
            'connect/session', 'the device uses the session connected')
        ck.req(e.kw.get('**') == kw or (None if any(
            contains(x, kw) for x in e.kw.values()) else False),
            'connect/options', 'the device gets the options given',
            'connect() does not pass the options to the device')
        ck.req(p.value[0] == 'objof' and p.value[1] == 'ModelDevice' or
               p.value == e.recv or (False if p.value == NONE else None),
               'connect/return', 'the device is returned',
               'connect() returns %s' % show(p.value)[:60])


OPTIONS = ('timeout', 'async_mode', 'raise_mode')


@once
def _device(ck, prog):
    fn = prog.method('ModelDevice', '__init__')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    kw = ('p', fn.node.args.kwarg.arg) if fn.node.args.kwarg else None
    for p in ps:
        if p.kind == 'raise':
            ck.open('ModelDevice() raises when %s' % facts_text(p, 3))
            continue
        sets = {}
        for e in events(p):
            if e.kind == 'setattr' and e.recv == SELF:
                sets[e.name] = e.args[0]
            elif e.kind == 'call' and short(e) == 'update' and \
                    e.recv is not None and contains(e.recv, SELF):
                sets['?'] = NONE
        sup = [e for e in events(p) if e.kind == 'call' and
               short(e) == '__init__']
        ck.req(any(e.kw.get('session') == ('p', 'session') and
                   e.kw.get('device_handler') == ('p', 'device_handler') or
                   ('p', 'session') in e.args and
                   ('p', 'device_handler') in e.args for e in sup) or
               (None if sup else False), 'device/init',
               'a device is a Manager of the session given',
               'ModelDevice() does not initialise the Manager')
        if kw is None:
            ck.open('ModelDevice() takes no options')
            continue
        for o in OPTIONS:
            given = None
            for f, v in p.newfacts:
                if o in strings(f) and contains(f, kw):
                    given = v if f[0] == 'in' or f[0] == 'truthy' and v \
                        else (not v if f[0] == 'eq' and NONE in f[1:]
                              else None)
                    if f[0] == 'truthy' and not v and o not in sets and \
                            f[1][0] in ('call', 'item'):
                        ck.fail('device/' + o, 'ModelDevice() ignores the '
                                'option %s if it is 0 or False' % o)
                        given = 'said'
            if given == 'said':
                continue
            if given is None:
                if o in sets:
                    g = sets[o]
                    ck.req(False if no_default(g) else None,
                           'device/no-' + o, 'option %s' % o,
                           'ModelDevice() sets %s although it is not given'
                           % o)
                elif '?' in sets or any(e.kind == 'loop' for e in p.events):
                    ck.open('option %s' % o)
                else:
                    ck.fail('device/' + o, 'ModelDevice() ignores the '
                            'option %s' % o)
            elif given:
                val = sets.get(o)
                ck.req(val is not None and contains(val, kw) and
                       o in strings(val), 'device/' + o, 'option %s is taken '
                       'over' % o, 'ModelDevice() sets %s to %s when it is '
                       'given' % (o, show(val) if val else 'nothing'))
            else:
                ck.req(o not in sets, 'device/no-' + o, 'option %s stays as '
                       'it is if not given' % o, 'ModelDevice() sets %s '
                       'although it is not given' % o)


# ----------------------------------------------------------------------
# C26

def kind_of_text(s):
    """which list of modules a filter or xpath is about"""
    if 'netconf-state' in s and 'schemas' in s:
        return 'monitoring'
    if 'modules-state' in s or 'yang-library' in s:
        return 'library'
    return None


def request_kind(e):
    """kind of the list an execute() asks for"""
    for v in list(e.kw.values()) + list(e.args):
        for s in strings(v):
            k = kind_of_text(s)
            if k:
                return k
    return None


def announced(path, prefix):
    """does the device announce a capability with this prefix? The value
    the path has decided on, None if it has not."""
    out = None
    for a, v in path.newfacts:
        hit = any(x and x[0] == 'prefix' and x[2] == prefix and
                  contains(x[1], SERVER) for x in subterms(a)) or \
            contains(a, SERVER) and prefix in strings(a)
        if hit:
            out = v
    for e in path.events:
        if e.kind == 'loop' and contains(e.recv, SERVER):
            for b in e.exits:
                if any(f[0] == 'prefix' and f[2] == prefix and v
                       for f, v in b.newfacts):
                    if e.exh is False:
                        out = False if out is None else out
    return out


def was_sorted(p, v):
    return any(e.kind == 'sort' and e.recv == v for e in events(p))


def source(t):
    """where a list of names comes from"""
    ks = set()
    for x in subterms(t):
        if x and x[0] in ('xpath', 'findall', 'find', 'desc', 'childtag'):
            for s in strings(x):
                k = kind_of_text(s)
                if k:
                    ks.add(k)
    if any('module=' in s for s in strings(t)):
        ks.add('capabilities')
    return ks


STEPS = {'monitoring': ['rpc-reply', 'data', 'netconf-state', 'schemas',
                        'schema', 'identifier'],
         'library': ['rpc-reply', 'data', 'modules-state', 'module', 'name']}
CAPS = [('http://x/y?module=ietf-ip&revision=2014-06-16', 'ietf-ip'),
        ('http://x/y?module=Cisco-IOS-XE-native', 'Cisco-IOS-XE-native'),
        ('http://x?module=a_b.c-1&features=f1,f2', 'a_b.c-1'),
        ('http://x?revision=2014-06-16&module=abc&deviations=d-e', 'abc'),
        ('urn:ietf:params:netconf:base:1.1', None),
        ('urn:ietf:params:netconf:capability:xpath:1.0', None)]


def local_steps(s):
    return [x.split(':')[-1].split('[')[0] for x in s.split('/') if x and
            x != '.']


@once
def _loadable(ck, prog):
    fn = prog.method('ModelDevice', 'models_loadable')
    eng = Engine(prog, may_raise=lambda n: {'execute': '*'}.get(n))
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        txt = facts_text(p, 5)[:220]
        known = p.facts.test(isnone(FIELD))
        reqs = [e for e in events(p) if e.kind == 'call' and
                short(e) == 'execute']
        kinds = [request_kind(e) for e in reqs]
        if p.kind == 'raise':
            ck.fail('loadable/raise', 'models_loadable raises %s when %s' % (
                p.exc.cls, txt))
            continue
        if known is False:
            ck.req(p.value == FIELD and not reqs, 'loadable/again',
                   'the list is worked out once', 'models_loadable asks the '
                   'device again or gives %s' % show(p.value)[:60])
            continue
        if known is None and reqs:
            ck.fail('loadable/again', 'models_loadable asks the device every '
                    'time')
        v = p.value
        src = source(v) if v is not None else set()
        for en in _entries(p, v) or [] if v else []:
            src |= source(en[0])
        for a, b in p.newfacts:
            for x in subterms(a):
                if x and x[0] == 'eq' and ('each', SERVER, 0) in x[1:] and \
                        (C(MON) in x[1:] or C(LIB10) in x[1:]):
                    ck.fail('loadable/parameters', 'models_loadable looks '
                            'for a capability without parameters: %s' %
                            show(x)[:100])
        if v is None or v == NONE or v == FIELD:
            ck.fail('loadable/none', 'models_loadable is %s when %s' % (
                show(v) if v else v, txt))
            continue
        kept = [e for e in events(p) if e.kind == 'setattr' and
                e.name == '_models_loadable' and e.recv == SELF]
        if kept:
            ck.req(kept[-1].args[0] == v or None, 'loadable/kept',
                   'the list kept is the list given')
        ck.req(v[0] == 'sorted' or was_sorted(p, v) or (
            None if v[0] in ('call', 'unk') else False), 'loadable/sorted',
               'the list is sorted', 'models_loadable is not sorted: %s' %
               show(v)[:80])
        if len(src) != 1:
            ck.open('models_loadable comes from %s' % (sorted(src) or
                                                       show(v)[:80]))
            continue
        src = list(src)[0]
        if None in kinds:
            ck.open('models_loadable: a request is not understood')
            continue
        for k, pre, text in (('monitoring', MON, 'ietf-netconf-monitoring'),
                             ('library', LIB10, 'yang-library 1.0')):
            has = announced(p, pre)
            asked = k in kinds
            if has is None and not asked and src not in (
                    'capabilities', 'library'):
                continue
            if has is None:
                if k == 'library' and src == 'monitoring':
                    continue
                ck.req(False if not asked and not any(
                    pre in strings(a) for a, b in p.newfacts) and not any(
                    e.kind == 'loop' and any(
                        x and x[0] == 'prefix' for b in list(e.bodies) +
                        list(e.exits) for f, w in b.newfacts
                        for x in subterms(f)) for e in p.events) else None,
                    'loadable/ask-' + k, '%s decides whether it is asked for'
                    % text, 'models_loadable comes from %s without looking '
                    'for the capability %s' % (src, text))
            elif has:
                if k == 'library' and src == 'monitoring':
                    ck.fail('loadable/order', 'models_loadable looks at '
                            'yang-library before the list of schemas')
                    continue
                ck.req(asked or None if k == 'library' and
                       src == 'monitoring' else asked, 'loadable/ask-' + k,
                       'a device with %s is asked for its list' % text,
                       'models_loadable comes from %s although the device '
                       'has %s and was not asked' % (src, text))
            else:
                ck.req(not asked, 'loadable/ask-no-' + k, 'a device without '
                       '%s is not asked' % text, 'models_loadable asks a '
                       'device without %s' % text)
        # failed requests are not taken, good ones are
        for e, k in zip(reqs, kinds):
            ok = p.facts.test(('truthy', ('attr', e.res, 'ok')))
            if ok is None:
                ok = p.facts.test(('eq', ('attr', e.res, 'ok'), TRUE))
            exc = any(x.kind == 'caught' for x in _between(p, e, reqs))
            if k == src:
                ck.req((None if any(contains(f, e.res) for f, b in p.newfacts)
                        else False) if ok is None and not exc else
                       ok and not exc, 'loadable/ok', 'the list comes from a '
                       'positive reply', 'models_loadable takes the list of '
                       'a request that failed')
                ck.req(contains(v, e.res) or any(
                    contains(en[0], e.res) for en in _entries(p, v) or []),
                    'loadable/reply', 'the list comes '
                       'from the reply', 'models_loadable does not come from '
                       'the reply')
            else:
                ck.req(exc or ok is False or None if ok is None else
                       ok is False or exc, 'loadable/fallback',
                       'another source is used only if a request failed',
                       'models_loadable ignores a positive reply (%s)' % txt)
        _names(ck, p, v, src)


def _between(p, e, reqs):
    """events after e, before the next request"""
    on = False
    for x in events(p):
        if x is e:
            on = True
            continue
        if on and x in reqs:
            return
        if on:
            yield x


def _names(ck, p, v, src):
    """every name of the source is in the list"""
    t = undo(v)
    ens = _entries(p, t)
    if not ens or len(ens) != 1:
        ck.open('loadable: members of %s' % show(t)[:60])
        return
    val, key, guard, many = ens[0][:4]
    if src == 'capabilities':
        pats = [x for x in subterms(val) if x and x[0] == 'call' and
                str(x[1]).split('.')[-1] in ('search', 'match', 'findall',
                                             'fullmatch')]
        grp = [x for x in subterms(val) if x and x[0] == 'call' and
               x[1] == 'group']
        if len(pats) < 1 or not grp or not is_c(grp[0][2][-1]):
            ck.open('loadable: names in capabilities')
            return
        c = pats[0]
        pat = [x for x in c[2] if is_c(x) and isinstance(cv(x), str)]
        if not pat:
            ck.open('loadable: pattern of names in capabilities')
            return
        how = getattr(re, str(c[1]).split('.')[-1])
        bad = []
        for cap, want in CAPS:
            try:
                m = how(cv(pat[0]), cap)
                got = m.group(cv(grp[0][2][-1])) if m else None
            except Exception:
                ck.open('loadable: pattern')
                return
            if got != want:
                bad.append('%s gives %s' % (cap, got))
        ck.req(not bad, 'loadable/pattern', 'the name of the module is taken '
               'from every capability', 'models_loadable: %s' %
               '; '.join(bad))
        gs = [a for a, b in flatguard(guard) if not contains(a, c)]
        ck.req(not gs, 'loadable/every', 'every capability with a module is '
               'taken', 'models_loadable leaves out capabilities: %s' %
               ', '.join(show(a)[:60] for a in gs))
        return
    xs = [x for x in subterms(val) if x and x[0] == 'xpath' and is_c(x[2])]
    if not xs:
        ck.open('loadable: %s' % show(val)[:80])
        return
    st = local_steps(cv(xs[0][2]))
    want = STEPS[src]
    if '//' in cv(xs[0][2])[1:] and '//' + cv(xs[0][2]).split('/')[-1] in \
            cv(xs[0][2]):
        good = False
    elif '//' in cv(xs[0][2]):
        good = True if st[-2:] == want[-2:] else (
            None if st[-1:] == want[-1:] else False)
    else:
        good = st == want or (None if st and st == want[-len(st):] and
                              len(st) < len(want) else False)
    ck.req(good, 'loadable/names-' + src, 'the names of all modules are '
           'selected', 'models_loadable selects %s of the reply' %
           cv(xs[0][2]))
    ck.req(val == ('text', ('each', xs[0], 0)) or (
        None if val[0] == 'call' else False), 'loadable/text-' + src,
        'the names are taken as they are', 'models_loadable has %s' %
        show(val)[:80])
    gs = [a for a, b in flatguard(guard) if not (
        a[0] in ('eq', 'truthy') and ('text', ('each', xs[0], 0)) in a[1:]
        and (a[0] == 'truthy' or NONE in a[1:]))]
    ck.req(not gs, 'loadable/all-' + src, 'all names are taken',
           'models_loadable leaves out names: %s' %
           ', '.join(show(a)[:60] for a in gs))


@once
def _namespaces(ck, prog):
    fn = prog.method('ModelDevice', 'namespaces')
    eng = Engine(prog, opaque={DEV + 'models_loadable'})
    ps = eng.run(fn)
    ck.used(eng)
    comp = ('attr', SELF, 'compiler')
    field = ('attr', SELF, '_namespaces')
    for p in ps:
        none = p.facts.test(isnone(comp))
        if none is None:
            none = {True: False, False: True, None: None}[
                p.facts.test(('truthy', comp))]
        txt = facts_text(p, 3)[:150]
        if none:
            ck.req(p.kind == 'raise' and p.exc.cls == 'ValueError',
                   'ns/early', 'namespaces need scan_models()',
                   'namespaces %s before scan_models()' % (
                       'are %s' % show(p.value) if p.kind != 'raise' else
                       'raise ' + p.exc.cls))
            continue
        if p.kind == 'raise':
            ck.fail('ns/raise', 'namespaces raise %s when %s' % (p.exc.cls,
                                                                 txt))
            continue
        if none is None:
            ck.fail('ns/unchecked', 'namespaces are given without looking '
                    'for a compiler')
        if p.value == field:
            ck.req(p.facts.test(isnone(field)) is False or
                   p.facts.test(('truthy', field)) is True,
                   'ns/cached', 'the list kept is given only if there is '
                   'one', 'namespaces give the list kept without looking')
            continue
        ens = _entries(p, p.value)
        if not ens or len(ens) != 1:
            ck.open('namespaces: members of %s' % show(p.value)[:60])
            continue
        val, key, guard, many = ens[0][:4]
        if val[0] != 'tup' or len(val[1]) != 3:
            ck.req(False if val[0] == 'tup' else None, 'ns/tuple',
                   'namespaces are triples', 'namespaces have %s' %
                   show(val)[:80])
            continue
        els = {x for x in subterms(val) if x and x[0] == 'each'}
        if len(els) != 1:
            ck.open('namespaces: %s' % show(val)[:80])
            continue
        m = els.pop()
        src = m[1]
        alltag = [s for s in strings(src)]
        dep = any(x and x[0] == 'attr' and x[2] == 'dependencies'
                  for x in subterms(src))
        ck.req(dep and any(s.split('/')[-1] == 'module' for s in alltag) or
               None, 'ns/source', 'all modules of the dependencies')
        ck.req(all('submodule' not in s for s in alltag), 'ns/submodule',
               'modules only', 'namespaces of submodules')
        want = [('get', m, C('id')), ('get', m, C('prefix')), None]
        for i, (w, what) in enumerate(zip(want, ('name', 'prefix', 'URL'))):
            g = val[1][i]
            if i < 2:
                ck.req(noep(g) == noep(w) or (None if g[0] not in (
                    'get', 'c', 'text') and not (g[0] == 'call') else False),
                    'ns/%s' % what, 'element %d is the %s' % (i, what),
                    'namespaces have %s as %s' % (show(g)[:60], what))
            else:
                ck.req('namespace' in strings(g) and contains(g, m) or
                       (False if g[0] in ('get', 'c') else None), 'ns/url',
                       'element 2 is the URL', 'namespaces have %s as URL' %
                       show(g)[:60])
        gs = flatguard(guard)
        pre = ('get', m, C('prefix'))
        extra = [(a, b) for a, b in gs if not contains(noep(a), noep(pre))]
        ck.req(not extra, 'ns/all', 'every module with a prefix is listed',
               'namespaces leave out modules: %s' % ', '.join(
                   show(a)[:60] for a, b in extra))
        inv = [(a, b) for a, b in gs if a[0] == 'eq' and NONE in a[1:] and b
               and contains(noep(a), noep(pre))]
        ck.req(not inv, 'ns/prefix', 'modules with a prefix are listed',
               'namespaces list modules without prefix only')


@once
def _scan(ck, prog):
    fn = prog.method('ModelDevice', 'scan_models')
    names = [a.arg for a in fn.node.args.args]
    if names[1:3] != ['folder', 'download']:
        ck.open('arguments of scan_models changed')
        return
    df = {a: d for a, d in zip(names[-len(fn.node.args.defaults):],
                               fn.node.args.defaults)}
    ck.req('download' in df and ast.dump(df['download']) == ast.dump(
        ast.Constant(value='check')), 'scan/default', "'check' is the "
        'default', 'scan_models: default of download is %s' % (
            ast.unparse(df['download']) if 'download' in df else 'missing'))
    folder = ('p', 'folder')
    for how, want in (('check', True), ('force', False), ('ignore', None)):
        eng = Engine(prog, opaque={
            'ModelDownloader.download_all', 'ModelDownloader.__init__',
            'ModelCompiler.__init__'})
        ps = eng.run(fn, args={'download': C(how)})
        ck.used(eng)
        for p in ps:
            if p.kind == 'raise':
                ck.fail('scan/raise-' + how, "scan_models(download='%s') "
                        'raises %s' % (how, p.exc.cls))
                continue
            evs = list(events(p))
            dl = [(i, e) for i, e in enumerate(evs) if e.kind == 'call' and
                  short(e) == 'download_all']
            nd = [e for e in evs if e.kind == 'new' and
                  e.name == 'ModelDownloader']
            nc = [(i, e) for i, e in enumerate(evs) if e.kind == 'new' and
                  e.name == 'ModelCompiler']
            if want is None:
                ck.req(not dl, 'scan/ignore', "nothing is downloaded with "
                       "'ignore'", "scan_models(download='ignore') "
                       'downloads')
            else:
                ck.req(len(dl) == 1, 'scan/' + how, "'%s' downloads once" %
                       how, "scan_models(download='%s') downloads %d times"
                       % (how, len(dl)))
                for i, e in dl:
                    a = e.args[0] if e.args else e.kw.get(
                        'check_before_download', TRUE)
                    a = p.facts.const(a)
                    ck.req(cv(a) == want if is_c(a) else None,
                           'scan/check-' + how, "'%s' %s before" % (
                               how, 'checks' if want else 'does not check'),
                           "scan_models(download='%s') calls "
                           'download_all(%s)' % (how, show(a)))
                for e in nd:
                    got = list(e.args) + [e.kw.get(k) for k in (
                        'nc_device', 'folder') if k in e.kw]
                    ck.req(folder in got or (None if any(
                        contains(x, folder) for x in got) else False),
                        'scan/folder', 'downloads go to the folder given',
                        'scan_models downloads to %s' % [show(x)[:40]
                                                         for x in got])
                    ck.req(SELF in got or None, 'scan/device', 'downloads '
                           'come from this device')
            ck.req(len(nc) >= 1, 'scan/compiler', 'a compiler is created '
                   '(%s)' % how, "scan_models(download='%s') creates no "
                   'compiler' % how)
            for i, e in nc[-1:]:
                got = list(e.args) + list(e.kw.values())
                ck.req(got == [folder] or (None if any(
                    contains(x, folder) for x in got) else False),
                    'scan/compile-folder', 'models are compiled from the '
                    'folder given', 'scan_models compiles from %s' % [
                        show(x)[:40] for x in got])
                ck.req(all(j < i for j, x in dl), 'scan/order', 'models are '
                       'downloaded before the compiler reads the folder',
                       'scan_models creates the compiler before the '
                       'download')
            last = {}
            for e in evs:
                if e.kind == 'setattr' and e.recv == SELF:
                    last[e.name] = e.args[0]
            c = last.get('compiler')
            ck.req(c is not None and c[0] in ('objof', 'obj') and
                   'ModelCompiler' in c[1:3] or (False if c is None or
                                                 is_c(c) else None),
                   'scan/keep', 'the compiler is kept', 'scan_models does '
                   'not keep the compiler of the folder (%s)' % how)
            kept = any(e.kind == 'setattr' and e.name == '_namespaces'
                       for f in [prog.method('ModelDevice', 'namespaces')]
                       for q in Engine(prog).run(f) for e in events(q))
            if kept:
                n = last.get('_namespaces')
                ck.req(n == NONE or (None if n is not None else False),
                       'scan/fresh', 'namespaces of an earlier scan are '
                       'forgotten', 'scan_models keeps the namespaces of an '
                       'earlier scan')


def model_of(p):
    """(kind, term) of the model a path of load_model makes"""
    for e in events(p):
        if e.kind == 'new' and e.name == 'Model':
            yield 'file', e
        elif e.kind == 'call' and short(e) == 'compile' and \
                e.recv is not None and contains(
                    e.recv, ('attr', SELF, 'compiler')):
            yield 'compile', e


@once
def _load(ck, prog):
    fn = prog.method('ModelDevice', 'load_model')
    M = params(fn)[0]
    eng = Engine(prog, opaque={DEV + 'models_loadable', 'Model.__init__',
                               'ModelCompiler.compile', DEV + 'roots'})
    ps = eng.run(fn)
    ck.used(eng)
    comp = ('attr', SELF, 'compiler')
    for p in ps:
        txt = facts_text(p, 4)[:200]
        isf = ext = inl = None
        for a, v in p.newfacts:
            t = a[1] if len(a) > 1 else None
            if a[0] == 'truthy' and t[0] == 'call' and \
                    str(t[1]).split('.')[-1] in ('isfile', 'is_file'):
                isf = v
            elif '.xml' in strings(a):
                ext = v
            elif a[0] == 'in' and a[1] == M and any(
                    x and x[0] == 'prim' and x[1].endswith('models_loadable')
                    for x in subterms(a)):
                inl = v
        none = p.facts.test(isnone(comp))
        if none is None and p.facts.test(('truthy', comp)) is not None:
            none = not p.facts.test(('truthy', comp))
        made = list(model_of(p))
        if p.kind == 'raise':
            c = p.exc.cls
            bad = isf is False and inl is False or isf and ext is False or \
                isf is False and inl and none
            if isf is None or isf is False and inl is None:
                ck.open('load_model raises %s when %s' % (c, txt))
                continue
            ck.req(bad, 'load/raise', 'only what cannot be loaded is refused',
                   'load_model raises %s when %s' % (c, txt))
            ck.req(c == 'ValueError', 'load/error', 'ValueError for what '
                   'cannot be loaded', 'load_model raises %s when %s' % (
                       c, txt))
            continue
        if len(made) != 1:
            ck.req(False if not made else None, 'load/one', 'one model is '
                   'made', 'load_model gives %s when %s' % (
                       show(p.value)[:50], txt))
            continue
        kind, e = made[0]
        if kind == 'file':
            ck.req(isf if isf is not None else None, 'load/file', 'a model '
                   'is read from a file that is there',
                   'load_model reads a file when %s' % txt)
            ck.req(ext if ext is not None else False, 'load/xml',
                   'only XML files are read', 'load_model reads any file')
            rd = [x for a in e.args for x in subterms(a) if x and
                  x[0] == 'call' and str(x[1]).split('.')[-1] in (
                      'open', 'parse', 'read_xml', 'read_text')]
            ck.req(any(contains(x, M) for x in rd) or None, 'load/content',
                   'the model is the content of the file')
            val = ('objof', 'Model')
        else:
            ck.req(inl if inl is not None else False, 'load/known',
                   'only models of the device are compiled', 'load_model '
                   'compiles any name when %s' % txt)
            ck.req(isf is False or None, 'load/first', 'files first')
            ck.req(none is False, 'load/compiler', 'compiling needs '
                   'scan_models()', 'load_model compiles without a compiler')
            a = list(e.args) + list(e.kw.values())
            ck.req(a == [M], 'load/name', 'the model asked for is compiled',
                   'load_model compiles %s' % [show(x)[:40] for x in a])
        st = [x for x in events(p) if x.kind == 'setitem' and
              x.recv == ('attr', SELF, 'models')]
        up = [x for x in events(p) if x.kind in ('call', 'mut') and
              short(x) in ('update', 'setdefault') and
              x.recv == ('attr', SELF, 'models')]
        if not st:
            ck.req(None if any(short(x) == 'update' for x in up) else False,
                   'load/stored', 'the model is '
                   'registered', 'load_model does not register the model')
            continue
        k, v = st[-1].args[:2]
        ck.req(v == p.value or (False if is_c(p.value) else None),
               'load/return', 'the model registered is returned',
               'load_model returns %s' % show(p.value)[:60])
        ck.req(False if k == M else k[0] == 'attr' and k[2] == 'name' or
               k[0] == 'tag' or None, 'load/key',
               'models are registered by their own name', 'load_model '
               'registers the model as %s' % show(k)[:60])


@once
def _loaded(ck, prog):
    fn = prog.method('ModelDevice', 'models_loaded')
    eng = Engine(prog)
    for p in eng.run(fn):
        v = p.value
        ms = ('attr', SELF, 'models')
        if p.kind != 'return' or not contains(v, ms):
            ck.req(False if p.kind == 'raise' or v is None or
                   v == NONE else None, 'loaded', 'names of '
                   'the models loaded', 'models_loaded is %s' % show(v)[:60])
            continue
        ck.req(v[0] == 'sorted' or was_sorted(p, v) or (False if v[0] in (
            'list', 'dictkeys_', 'attr', 'attrs') else None), 'loaded/sorted',
            'models_loaded is sorted', 'models_loaded is not sorted: %s' %
            show(v)[:60])
    ck.used(eng)


@once
def _roots(ck, prog):
    fn = prog.method('ModelDevice', 'roots')
    eng = Engine(prog, opaque={'Model.roots'})
    for p in eng.run(fn):
        if p.kind != 'return':
            ck.fail('roots/raise', 'roots raises %s' % p.exc.cls)
            continue
        ens = _entries(p, p.value)
        if not ens:
            ck.open('roots: %s' % show(p.value)[:60])
            continue
        ms = ('attr', SELF, 'models')
        for en in ens:
            val, key, guard, many = en[:4]
            m = [x for x in subterms(val) if x and x[0] == 'each' and
                 contains(x[1], ms)]
            ck.req(bool(m) and key is not None and any(
                contains(key, x) for x in m) or None, 'roots/pair',
                'roots are those of the models loaded')
            ck.req(not guard, 'roots/all', 'all roots of all models',
                   'roots leaves out roots when %s' % ', '.join(
                       show(a)[:60] for a, b in flatguard(guard)))
            if m:
                ck.req(val == ('attr', m[0], 'name') or (
                    False if val[0] == 'attr' else None), 'roots/name',
                    'roots tell the name of their model',
                    'roots tell %s' % show(val)[:60])
    ck.used(eng)
