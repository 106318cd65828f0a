"""Ownership: operands stay as they are (C01), schema trees are read-only
(C02)."""
import ast
import multiprocessing

from ..alias import Alias, Fun

EMPTY = frozenset()


class _Mod(object):
    name = 'entry'
    path = 'entry'
    classes = {}
    imports = {}
    funcs = {}


def op(name, cls):
    return frozenset([('op', name, cls)])


DEV = frozenset([('dev',)])
CMP = ['__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__']


def entries():
    """(label, class, member, self, args, kwargs, result must be separate)"""
    C, D, T = 'Config', 'ConfigDelta', 'tree'
    out = []
    for o in (C, D, T):
        out.append((C, '__add__', op('self', C), [op('other', o)], {}, True))
    for o in (C, D):
        out.append((C, '__sub__', op('self', C), [op('other', o)], {}, False))
    for m in CMP:
        out.append((C, m, op('self', C), [op('other', C)], {}, False))
    for m in ('__bool__', '__str__', '__repr__', 'xml', 'ns', 'models',
              'roots', 'xpath', 'ns_help'):
        out.append((C, m, op('self', C), [], {}, False))
    out.append((C, 'filter', op('self', C), [], {}, True))
    for m in ('get_schema_node', 'get_model_name'):
        out.append((C, m, op('self', C), [op('node', T)], {}, False))
    out.append((D, '__add__', op('self', D), [op('other', C)], {}, True))
    out.append((D, '__radd__', op('self', D), [op('other', C)], {}, True))
    for m in ('__neg__', '__bool__', '__str__', 'nc', 'ns', 'models',
              'roots'):
        out.append((D, m, op('self', D), [], {}, m == 'nc'))
    # construction
    for o in (T, 'reply', C):
        out.append((C, '__new__', None, [DEV, op('config', o)], {}, True))
    out.append((D, '__new__', None, [op('config_src', C),
                                     op('config_dst', C)], {}, False))
    out.append((D, '__new__', None, [op('config_src', C)],
                {'delta': op('delta', T)}, False))
    # calculators
    for m in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        out.append(('BaseCalculator', '__new__.' + m, None,
                    [DEV, op('etree1', T), op('etree2', T)], {}, False))
    for m in ('add', 'sub'):
        out.append(('NetconfCalculator', '__new__.' + m, None,
                    [DEV, op('etree1', T), op('etree2', T)], {}, True))
    # the device
    out.append(('ModelDevice', 'extract_config', DEV, [op('reply', 'reply')],
                {}, True))
    for m in ('get_schema_node', 'get_xpath', 'get_model_name', '_get_ns'):
        out.append(('ModelDevice', m, DEV, [op('node', T)], {}, False))
    return out


def schema_entries():
    S = frozenset([('schema',)])
    out = list(entries())
    C, T = 'Config', 'tree'
    for m in ('trim_defaults', 'validate_config'):
        out.append((C, m, op('self', C), [], {}, False))
    for m in ('default_in_use', 'get_xpath', 'get_statement'):
        out.append(('ModelDevice', m, DEV, [S], {}, False))
    for m in ('models_loaded', 'roots', 'namespaces'):
        out.append(('ModelDevice', m, DEV, [], {}, False))
    out.append(('ModelDevice', 'execute', DEV, [EMPTY], {
        'models': EMPTY}, False))
    out.append(('ModelDevice', 'execute', DEV, [EMPTY, op('config', C)], {},
                False))
    out.append(('ModelDiff', '__new__', None, [
        op('model1', 'Model'), op('model2', 'Model')], {}, False))
    return out


def analyse(prog, cls, member, me, args, kw):
    al = Alias(prog)
    entry = Fun(ast.parse('def entry(): pass').body[0], _Mod, None, None,
                'entry')
    al.active = [entry]
    call = ast.parse('x()').body[0].value
    new, _, then = member.partition('.')

    def todo():
        if new == '__new__':
            r = al.construct(cls, args, kw, call)
            if then:
                r = al.getattr(r, then, call, None)
            return r
        f = prog.lookup(cls, member)
        return al.call_func(al.fun(f), [me] + args, kw, call)
    r = al.run(todo)
    return al, r


def reach(al, v):
    """atoms of trees reachable from a result"""
    out, todo = set(), list(v)
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        todo += list(al.cget(a))
        if a[0] == 'obj':
            todo += list(al.hget(a, 'ele'))
    return out


_PROG = []


def _one(e):
    cls, member, me, args, kw, sep = e
    try:
        al, r = analyse(_PROG[0], cls, member, me, args, kw)
        return (sorted(al.used), list(al.effects.values()),
                sorted((a for a in reach(al, r)), key=repr)), None
    except Exception as x:
        return None, '%s.%s: analysis gave up: %s: %s' % (
            cls, member, type(x).__name__, str(x)[:200])


def analysed(ck, prog, es):
    """the entries with their results, analysed in parallel"""
    todo = []
    for e in es:
        m = e[1].partition('.')[0]
        if e[0] not in prog.classes:
            ck.open('%s is gone' % e[0])
        elif m != '__new__' and prog.lookup(e[0], m) is None:
            if m != '__radd__':
                ck.open('%s.%s is gone' % (e[0], m))
        else:
            todo.append(e)
    _PROG[:] = [prog]
    try:
        with multiprocessing.get_context('fork').Pool(8) as pool:
            out = pool.map(_one, todo, 1)
    except OSError:
        out = [_one(e) for e in todo]
    for e, (r, err) in zip(todo, out):
        if err:
            ck.open(err)
            continue
        for q in r[0]:
            ck.functions.add(q)
        yield e, r[1], r[2]


def c01(ck, prog, tier):
    for e, effects, res in analysed(ck, prog, entries()):
        _c01(ck, e, effects, res)


def describe(args, kw):
    return ', '.join(sorted('%s %s' % (a[1], a[2]) for v in
                            list(args) + list(kw.values())
                            for a in v if a[0] == 'op'))


def _c01(ck, entry, effects, res):
    cls, member, me, args, kw, sep = entry
    what = '%s.%s(%s)' % (cls, member, describe(args, kw))
    n = 0
    for e in effects:
        if e.atom[0] != 'op':
            n += 1
            continue
        if e.kind == 'rebind' and e.name.startswith('_'):
            continue
        ck.fail('%s/%s' % (member, e.atom[1].split('.')[0]),
                '%s: %s of operand %s is changed by %s at %s, reached by %s'
                % (what, 'a node' if e.kind != 'rebind' else 'attribute ' +
                   e.name, e.atom[1], e.name, e.loc,
                   ' > '.join(x.split('.', 1)[-1] for x in e.stack[1:])))
    for i in range(max(n, 1)):
        ck.ok('%s: every change is made to something created by the '
              'operation' % what)
    if sep:
        shared = [a for a in res if a[0] == 'op']
        ck.req(not shared, '%s/shared' % member, '%s: the result shares no '
               'node with an operand' % what, '%s: the result shares nodes '
               'with operand %s' % (what, ', '.join(a[1] for a in shared)))


def c02(ck, prog, tier):
    for e, effects, res in analysed(ck, prog, schema_entries()):
        _c02(ck, e, effects)


def _c02(ck, entry, effects):
    cls, member, me, args, kw, sep = entry
    what = '%s.%s(%s)' % (cls, member, describe(args, kw))
    n = 0
    for e in effects:
        bad = e.atom == ('schema',) and e.kind in ('tree', 'moved') or \
            e.atom[0] == 'op' and e.atom[1].startswith('model')
        if not bad:
            n += 1
            continue
        ck.fail('%s/schema' % member, '%s: a schema tree is changed by %s at '
                '%s, reached by %s' % (what, e.name, e.loc, ' > '.join(
                    x.split('.', 1)[-1] for x in e.stack[1:])))
    for i in range(max(n, 1)):
        ck.ok('%s: no change of a schema tree' % what)
