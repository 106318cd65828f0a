"""Properties of applying and generating edit-config content (netconf.py)."""
import itertools

from ..pairs import *
from ..engine import Engine
from ..terms import is_c, cv

PRIMS = {'get_schema_node', 'get_xpath', '_pair_children', '_get_list_keys',
         '_same_text', '_node_le', '_merge_text', '_get_sequence',
         '_url_to_prefix', 'default_in_use', 'set_create_operation',
         'set_delete_operation', '_same_leaf_list', '_get_ns'}

TYPES = ('leaf', 'leaf-list', 'container', 'list')
ERR = 'ConfigDeltaError'


def add_fn(ck, prog):
    return PairFn(ck, prog, 'NetconfCalculator', 'node_add', PRIMS)


def _recurses(f, a, b):
    return lambda e: e.kind == 'call' and e.name == f.name and \
        tuple(e.args[:2]) == (a, b)


def _new_for(f, b, x):
    """x is a fresh element standing for delta child O."""
    return x[0] == 'elem' and same(x[2], ('tag', f.O))


def _is_copy(f, x):
    return x[0] == 'copy' and x[2] == f.O


def _under(f, e, parent, tagof):
    """Event e inserts below node parent (directly, or next to one of its
    children)."""
    r = e.recv
    if e.name in ('append', 'insert', 'extend'):
        return r == parent
    # addnext/addprevious: receiver is a child of parent
    return any(s in (parent,) for s in subterms(r)) or \
        any(s == ('parent', f.S) for s in subterms(r)) or r == f.S


def _adds(f, b):
    """Elements inserted under node_sum on this body path that stand for O."""
    out = []
    for e, x in inserted(b):
        if (_is_copy(f, x) or _new_for(f, b, x)) and \
                _under(f, e, f.n1, f.O):
            out.append((e, x))
    return out


def _touches(f, b):
    """Mutations of the result tree on this path."""
    out = []
    for e in events(b):
        if e.kind == 'mut' and e.name in ('append', 'addnext', 'addprevious',
                                          'insert', 'remove', 'replace',
                                          'clear', 'extend', 'set_text'):
            if e.recv[0] in ('elem', 'copy'):
                continue
            out.append(e)
        if e.kind == 'call' and e.fn is not None and (
                e.name in (f.name, '_merge_text')):
            out.append(e)
        if e.kind == 'new':
            pass
    return out


def _keys_copied(f, b, x):
    """Every list key of O is present in the new element x."""
    for l in loops(b):
        if l.recv[0] == 'prim' and l.recv[1].endswith('_get_list_keys'):
            k = ('each', l.recv, 0)
            good = bool(l.bodies)
            for bb in l.bodies:
                hit = False
                for e, y in inserted(bb):
                    if e.recv != x:
                        continue
                    if y[0] == 'copy' and y[2][0] in ('find', 'item',
                                                      'pick', 'each') and \
                            contains(y[2], k) and contains(y[2], f.O):
                        hit = True
                    if y[0] == 'elem' and y[2] == k:
                        hit = True
                good = good and hit
            if good:
                return True
    # comprehension / extend forms are not resolved further
    for e in events(b):
        if e.kind == 'mut' and e.name == 'extend' and e.recv == x:
            return None
    return False


def c03(ck, prog, tier):
    f = add_fn(ck, prog)
    S, O = f.S, f.O
    deld = f.raises(ERR)
    # --- no counterpart in the config
    for ty in TYPES:
        tag = 'without-peer/%s' % ty
        f.check_every('%s/delete' % tag, "op 'delete' on a missing %s raises "
                      "ConfigDeltaError" % ty,
                      f.cell(s=False, type=ty, op='delete'), deld)
        f.check_every('%s/unknown' % tag, 'an unknown operation on a %s '
                      'raises ConfigDeltaError' % ty,
                      f.cell(s=False, type=ty, op='unknown'), deld)
        f.check_never('%s/remove' % tag, "op 'remove' on a missing %s "
                      "changes nothing and raises nothing" % ty,
                      f.cell(s=False, type=ty, op='remove'),
                      lambda b: b.kind == 'raise' or bool(_touches(f, b)))
        for op in (None, 'merge', 'replace', 'create'):
            cell = f.cell(s=False, type=ty, op=op, insert=None)
            nm = op or 'no operation'

            def added(b, op=op, ty=ty):
                if b.kind == 'raise':
                    return False
                a = _adds(f, b)
                if len(a) != 1:
                    return False
                e, x = a[0]
                if ty in ('leaf', 'leaf-list'):
                    return _is_copy(f, x) or text_from(b, x, O)
                if op in (None, 'merge'):
                    if not must(b, _recurses(f, x, O)):
                        return False
                    if x[0] != 'elem':
                        return False
                    if ty == 'list':
                        return _keys_copied(f, b, x) is not False
                    return True
                return _is_copy(f, x)
            f.check_every('%s/%s' % (tag, nm),
                          '%s on a missing %s adds it (with its content) to '
                          'the result' % (nm, ty), cell, added)
    # --- counterpart exists
    for ty in TYPES:
        tag = 'with-peer/%s' % ty
        f.check_every('%s/create' % tag, "op 'create' on an existing %s "
                      "raises ConfigDeltaError" % ty,
                      f.cell(type=ty, op='create'), deld)
        f.check_every('%s/unknown' % tag, 'an unknown operation on an '
                      'existing %s raises ConfigDeltaError' % ty,
                      f.cell(type=ty, op='unknown'), deld)
        for op in ('delete', 'remove'):
            f.check_every(
                '%s/%s' % (tag, op), "op '%s' takes an existing %s out of "
                "the result" % (op, ty), f.cell(type=ty, op=op),
                lambda b: b.kind != 'raise' and must(
                    b, lambda e: removes(e, (f.n1,), S)))
        for op in (None, 'merge', 'replace'):
            nm = op or 'no operation'
            cell = f.cell(type=ty, op=op, insert=None)

            def applied(b, op=op, ty=ty):
                if b.kind == 'raise':
                    return False
                if ty == 'leaf':
                    return text_from(b, S, O)
                if ty == 'leaf-list':
                    return True
                if op in (None, 'merge'):
                    return must(b, _recurses(f, S, O))
                return _replaced(f, b)
            f.check_every('%s/%s' % (tag, nm), '%s on an existing %s takes '
                          'over the content of the delta' % (nm, ty), cell,
                          applied)
            # nothing is taken away unless it is an emptied container

            def lost(b, op=op, ty=ty):
                if op == 'replace' and ty in ('container', 'list'):
                    return False
                if ty == 'leaf' and may(b, lambda e: e.kind == 'mut' and
                                        e.name == 'set_text' and
                                        e.recv == S and
                                        not contains(e.args[0], O)):
                    return True
                return may(b, lambda e: removes(e, None, S)) and not \
                    _relocated(f, b)
            f.check_never('%s/%s/keeps' % (tag, nm),
                          '%s does not remove an existing %s%s' % (
                              nm, ty, '' if ty != 'container'
                              else ' that has content or presence'),
                          cell if ty != 'container' else
                          f.cell(type=ty, op=op, insert=None, extra=[
                              (('truthy', _kids(f)), True)]),
                          lambda b, lost=lost, ty=ty: lost(b) and (
                              ty != 'container' or not _emptied(f, b)))
        if ty == 'container':
            f.check_never('with-peer/container/presence',
                          'an emptied presence container stays in the result',
                          f.cell(type=ty, op='merge', presence=True),
                          lambda b: may(b, lambda e: removes(e, None, S)))
            f.check_every('with-peer/container/empty',
                          'a container without presence that becomes empty '
                          'is taken out of the result',
                          f.cell(type=ty, op='merge', presence=False),
                          lambda b: b.kind == 'raise' or
                          _has_kids(f, b) or
                          must(b, lambda e: removes(e, (f.n1,), S)))
    # one case of a choice excludes the others
    for ty in TYPES:
        for op in (None, 'merge', 'replace', 'create'):
            f.check_every(
                'choice/%s/%s' % (ty, op), 'creating a %s of one case of a '
                'choice takes the nodes of the other cases out of the result'
                % ty, f.cell(s=False, type=ty, op=op, insert=None, case=True,
                             extra=[(isnone(('parent', f.sO)), False)]),
                lambda b: b.kind == 'raise' or may(
                    b, lambda e: e.kind == 'mut' and e.name == 'remove' and
                    e.recv == f.n1 and _sibling(f, e.args[0])))
    bad, n = None, 0
    for l in distinct_loops(f.paths):
            for b in list(l.bodies) + list(l.exits):
                for e in b.events:
                    if e.kind == 'mut' and e.name == 'remove' and \
                            e.recv == f.n1 and _sibling(f, e.args[0]):
                        n += 1
                        sch = ('prim', GSN, (DEV, e.args[0]))
                        fs = [v for a, v in b.facts.log
                              if contains(a, sch) or
                              contains(a, ('tag', e.args[0]))]
                        if True not in fs or False not in fs:
                            bad = bad or (e, b)
    ck.req(bad is None, 'choice/only-other-cases', 'a sibling is only taken '
           'out of the result when it belongs to the same choice and not to '
           'the same case', bad and '%s removes a sibling when %s' % (
               bad[0].loc, facts_text(bad[1])))
    # nodes only in the base config stay untouched
    for ty in TYPES:
        f.check_never('only-base/%s' % ty, 'a %s only present in the base '
                      'config is kept as it is' % ty,
                      f.cell(o=False, type=ty),
                      lambda b: may(b, lambda e: e.kind == 'mut' and (
                          e.args[:1] == (S,) or e.recv == S)) or
                      b.kind == 'raise')


def _sibling(f, t):
    return t[0] == 'each' and t[1][0] == 'children' and t[1][1] == f.n1


def _kids(f):
    return ('children', f.S, 0)


def _has_kids(f, b):
    """The path established that S still has children after the merge."""
    for atom, v in b.facts.log:
        if v and atom[0] in ('truthy', 'len>=') and (
                atom[1] == f.S or atom[1][0] == 'children' and
                atom[1][1] == f.S):
            return True
    return False


def _emptied(f, b):
    for atom, v in b.facts.log:
        if not v and atom[0] in ('truthy', 'len>=') and (
                atom[1] == f.S or atom[1][0] == 'children' and
                atom[1][1] == f.S):
            return True
    return False


def _relocated(f, b):
    return any(x == f.S for e, x in inserted(b))


def _replaced(f, b):
    """S's place is taken by a copy of O."""
    for e in b.events:
        if e.kind == 'mut' and e.name == 'replace' and len(e.args) == 2 and \
                e.args[0] == f.S and _is_copy(f, e.args[1]):
            return True
    rem = [e for e in b.events if e.kind == 'mut' and removes(e, None, f.S)]
    add = [x for e, x in inserted(b) if _is_copy(f, x)]
    return bool(rem and add)


# ----------------------------------------------------------------------
def _seq_of(f, t, parent_terms):
    """t is a sequence of same-tag children of the result node."""
    if t[0] == 'prim' and t[1].endswith('_get_sequence'):
        a = t[2][-3:]
        return a[2] in parent_terms
    if t[0] == 'childtag':
        return t[1] in parent_terms
    if t[0] == 'findall':
        return t[1] in parent_terms
    if t[0] == 'children':
        return t[1] in parent_terms
    return False


def _end_of(f, r, i, parents):
    """r is item i (0 or -1) of the sequence of siblings."""
    if r[0] in ('item', 'pick') and r[0] == 'item':
        if r[2] == C(i) and _seq_of(f, r[1], parents):
            return True
        if i == 0 and r[1][0] == 'reversed' and r[2] == C(-1):
            return True
        return False
    if r[0] == 'pick':
        v = r[2]
        return r[1] == C(i) and v[0] == 'each' and _seq_of(f, v[1], parents)
    if i == 0 and r[0] == 'find' and r[1] in parents:
        return r[2] == ('tag', f.O) or r[2] == ('tag', f.S)
    return False


def _is_ref(f, b, r, ty, parents):
    """r is the sibling named by the delta's value/key attribute."""
    want = ('get', f.O, VALUE if ty == 'leaf-list' else KEY)
    if not any(p in set(subterms(r)) for p in parents):
        return False
    if contains(r, want):
        return True
    # picked from a loop over siblings under a condition on the attribute
    return any(contains(a, want) and v and contains(a, r)
               for a, v in b.facts.log)


def c04(ck, prog, tier):
    f = add_fn(ck, prog)
    S, O = f.S, f.O
    for ty in ('leaf-list', 'list'):
        at = VALUE if ty == 'leaf-list' else KEY
        an = 'value' if ty == 'leaf-list' else 'key'
        for peer in (False, True):
            parents = (f.n1, ('parent', S)) if peer else (f.n1,)
            pn = 'existing' if peer else 'new'
            ops = (None, 'merge', 'replace') if peer else \
                (None, 'merge', 'replace', 'create')
            for op in ops:
                on = op or 'no operation'

                def cell(ins, extra=()):
                    return f.cell(s=peer, type=ty, order='user', op=op,
                                  insert=ins, extra=extra)

                def placed(b, test, peer=peer, ty=ty, op=op):
                    """test(event, x) on the event that places the entry;
                    True also when no move is needed."""
                    if b.kind == 'raise':
                        return False
                    hits = []
                    for e, x in inserted(b):
                        if peer and (x == S or _is_copy(f, x)) or \
                                not peer and (_is_copy(f, x) or
                                              _new_for(f, b, x)):
                            hits.append((e, x))
                    for e in b.events:
                        pass
                    if not hits:
                        return peer and _already(f, b)
                    return test(*hits[-1])

                def first(e, x):
                    if e.name == 'addprevious':
                        return _end_of(f, e.recv, 0, parents)
                    if e.name == 'insert' and e.args[0] == C(0):
                        return e.recv in parents
                    return e.name == 'append' and 'empty'

                def last(e, x):
                    if e.name == 'addnext':
                        return _end_of(f, e.recv, -1, parents)
                    return e.name == 'append' and e.recv in parents

                def fst(b):
                    r = placed(b, first)
                    if r == 'empty':
                        return _no_siblings(f, b, parents)
                    return r
                base = '%s/%s/%s' % (ty, pn, on)
                f.check_every(base + '/first', "%s, insert='first' puts a "
                              "%s %s entry before all its siblings" % (
                                  on, pn, ty), cell('first'), fst)
                f.check_every(base + '/last', "%s, insert='last' puts a %s "
                              "%s entry after all its siblings" % (
                                  on, pn, ty), cell('last'),
                              lambda b: placed(b, last))
                for ins, meth in (('before', 'addprevious'),
                                  ('after', 'addnext')):
                    miss = cell(ins, [(isnone(('get', O, at)), True)])
                    f.check_every('%s/%s/no-reference' % (base, ins),
                                  "%s, insert='%s' of a %s %s entry without "
                                  "%s attribute raises ConfigDeltaError" % (
                                      on, ins, pn, ty, an), miss,
                                  f.raises(ERR))

                    def rel(e, x, meth=meth):
                        return e.name == meth and 'ref'

                    def ok(b, rel=rel, meth=meth):
                        if b.kind == 'raise':
                            # the referenced sibling was not found
                            return b.exc.cls == ERR and _notfound(f, b,
                                                                  parents)
                        if peer:
                            hs = [(e, x) for e, x in inserted(b)
                                  if x == S or _is_copy(f, x)]
                        else:
                            hs = [(e, x) for e, x in inserted(b)
                                  if _is_copy(f, x) or _new_for(f, b, x)]
                        if not hs:
                            return peer and _already(f, b)
                        if any(_notfound_fact(f, a, v, parents)
                               for a, v in b.facts.log):
                            return False
                        e, x = hs[-1]
                        return e.name == meth and _is_ref(f, b, e.recv, ty,
                                                          parents)
                    have = cell(ins, [(isnone(('get', O, at)), False),
                                      (('truthy', ('get', O, at)), True)])
                    f.check_every('%s/%s' % (base, ins),
                                  "%s, insert='%s' puts a %s %s entry %s "
                                  "the sibling named by '%s', or raises "
                                  "ConfigDeltaError when there is none" % (
                                      on, ins, pn, ty, ins, an), have, ok)
                    # the missing-reference error really exists
                    r = [b for t, gs in f.groups(have) for l, bs in gs
                         for b in bs if b.kind == 'raise' and
                         b.exc.cls == ERR]
                    ck.req(bool(r), '%s/%s/not-found' % (base, ins),
                           "%s, insert='%s' of a %s %s entry raises "
                           "ConfigDeltaError when the named sibling does "
                           "not exist" % (on, ins, pn, ty))
    # without an insert attribute a new entry goes behind its siblings
    for ty in ('leaf-list', 'list'):
        for order, ins in (('user', None), ('system', 'any')):
            for op in (None, 'merge', 'replace', 'create'):
                def tail(b):
                    if b.kind == 'raise':
                        return False
                    hs = [(e, x) for e, x in inserted(b)
                          if _is_copy(f, x) or _new_for(f, b, x)]
                    if not hs:
                        return False
                    e, x = hs[-1]
                    if e.name == 'addnext':
                        return _end_of(f, e.recv, -1, (f.n1,))
                    return e.name == 'append' and e.recv == f.n1
                f.check_every('%s/default/%s/%s' % (ty, order, op),
                              'a new %s entry (ordered by %s, %s, no insert) '
                              'is added behind its siblings' % (
                                  ty, order, op),
                              f.cell(s=False, type=ty, order=order, op=op,
                                     insert=ins), tail)


def _already(f, b):
    """The path knows the entry is already where it should be."""
    return any(v and a[0] == 'eq' and f.S in a[1:] and
               not any(is_c(x) for x in a[1:])
               for a, v in b.facts.log)


def _sibling_test(f, a, parents):
    t = a[1] if len(a) > 1 else None
    return a[0] in ('truthy', 'len>=', 'eq') and isinstance(t, tuple) and \
        any(p in set(subterms(t)) for p in parents) and \
        t[0] in ('prim', 'childtag', 'find', 'cont', 'findall', 'item',
                 'children')


def _no_siblings(f, b, parents):
    return any(_sibling_test(f, a, parents) and
               ((a[0] in ('truthy', 'len>=') and not v) or
                (a[0] == 'eq' and a[2] == NONE and v))
               for a, v in b.facts.log)


def _notfound_fact(f, a, v, parents):
    ref = any(contains(a, ('get', f.O, k)) for k in (VALUE, KEY))
    return ref and _sibling_test(f, a, parents) and \
        ((a[0] in ('truthy', 'len>=') and not v) or
         (a[0] == 'eq' and a[2] == NONE and v))


def _notfound(f, b, parents):
    if any(_notfound_fact(f, a, v, parents) for a, v in b.facts.log):
        return True
    # search loop that ran to its end without a hit
    return any(l.exh and any(p in set(subterms(l.recv)) for p in parents)
               for l in loops(b))


# ----------------------------------------------------------------------
def c05(ck, prog, tier):
    f = add_fn(ck, prog)
    seen = {}
    n = 0
    for t in f.paths:
        if t.kind != 'return':
            continue
        for l in loops(t):
            for b in l.bodies:
                for e in b.events:
                    xs = []
                    x = inserts(e) if e.kind == 'mut' else None
                    if x is not None:
                        xs.append(x)
                    if e.kind == 'mut' and e.name == 'replace' and \
                            len(e.args) == 2:
                        xs.append(e.args[1])
                    for x in xs:
                        _clean(ck, f, b, e, x, seen)
                    if e.kind == 'loop':
                        for bb in e.bodies:
                            for e2, y in inserted(bb):
                                _clean(ck, f, bb, e2, y, seen)
        # edit-config attributes are never written to the result
        for e in events(t):
            if e.kind in ('attrset', 'attrupdate'):
                key = 'attribute-write/%s' % e.loc.split('(')[-1]
                if (key, 1) not in seen:
                    seen[(key, 1)] = 1
                    ck.fail(key, 'applying a delta writes an attribute at '
                            '%s: %s' % (e.loc, e))


def _clean(ck, f, b, e, x, seen):
    if x == f.S or x[0] == 'each':
        return
    fnq = e.loc.split('(')[-1].rstrip(')')
    if x[0] == 'copy' and contains(x, f.O):
        ok = strips(b, x)
        what = 'copy of a delta node put into the result in %s has its ' \
               'edit-config attributes removed' % fnq
    elif x[0] == 'elem':
        ok = not any(k[0] == x for k in b.st.eattr
                     if isinstance(k[1], tuple))
        what = 'new element put into the result in %s has no attributes' % fnq
    elif x == f.O or contains(x, f.O) and x[0] in ('find', 'item', 'pick'):
        ok = False
        what = 'a node of the delta itself is put into the result in %s' % fnq
    else:
        return
    k = (fnq, e.name, what, ok)
    if k in seen:
        return
    seen[k] = 1
    ck.req(ok, '%s/%s' % (fnq, e.name), what,
           '%s: %s puts %s into the result without removing edit-config '
           'attributes (when %s)' % (e.loc, e.name, show(x), facts_text(b)))


# ----------------------------------------------------------------------
# generating a delta
def A(name):
    return ('attr', ('p', 'self'), name)


PD, PCR, PRE, DT, RD = (A('preferred_delete'), A('preferred_create'),
                        A('preferred_replace'), A('diff_type'),
                        A('replace_depth'))


def sub_fn(ck, prog):
    return PairFn(ck, prog, 'NetconfCalculator', 'node_sub',
                  PRIMS | {'get_config_replace'})


def rep_fn(ck, prog):
    return PairFn(ck, prog, 'NetconfCalculator', 'get_config_replace', PRIMS)


def _attr_is(b, el, key, *terms):
    v = b.st.eattr.get((el, key))
    if v is None:
        return False
    return any(v == t or b.facts.test(('eq', v, t) if not is_c(t) or
                                      not is_c(v) else ('eq', v, t)) is True
               for t in terms)


def _attr_unset(b, el, key):
    return b.st.eattr.get((el, key)) == NONE or not may(
        b, lambda e: e.kind == 'attrset' and e.recv == el and
        e.args[0] == key)


def _mark_elem(b, src, parent):
    """New element standing for src, put under parent."""
    out = []
    for e, x in inserted(b):
        if x[0] == 'elem' and same(x[2], ('tag', src)):
            r = e.recv
            if e.name in ('append', 'insert'):
                if r == parent:
                    out.append((e, x))
            elif parent in set(subterms(r)):
                out.append((e, x))
    return out


def _key_children(b, x, src, wantop=None):
    """Each list key of src is reproduced (with its value) below x."""
    for l in loops(b):
        if not (l.recv[0] == 'prim' and l.recv[1].endswith('_get_list_keys')):
            continue
        k = ('each', l.recv, 0)
        ok = bool(l.bodies)
        for bb in l.bodies:
            hit = False
            for e, y in inserted(bb):
                if e.recv != x:
                    continue
                if y[0] == 'elem' and y[2] == k:
                    t = bb.st.eattr.get((y, '#text'))
                    if t is not None and contains(t, src) and \
                            contains(t, k) and not altered_text(t) or \
                            any(ev.kind == 'call' and
                                ev.name == '_merge_text' and
                                ev.args[1] == y and contains(ev.args[0], src)
                                for ev in bb.events):
                        hit = True
                if y[0] == 'copy' and contains(y[2], src) and \
                        contains(y[2], k):
                    hit = True
            ok = ok and hit
        if ok:
            return True
    return False


def _marked_for_delete(b, x, src, ty, presence, pd, opt):
    """x tells the device to delete src."""
    if ty == 'container' and not presence and pd == 'delete':
        if must(b, lambda e: e.kind == 'call' and
                e.name == 'set_delete_operation' and
                tuple(e.args[:2]) == (x, src)):
            return True
        return False
    if not _attr_is(b, x, OP, PD, C(pd)):
        return False
    if ty == 'leaf-list':
        return text_from(b, x, src)
    if ty == 'list':
        return _key_children(b, x, src)
    return True


def _any(b):
    return True


def _gone(f):
    return lambda b: b.kind != 'raise' and must(
        b, lambda e: removes(e, (f.n1,), f.S))


def _kept(f, b):
    return b.kind != 'raise' and not may(
        b, lambda e: removes(e, None, f.S) or
        e.kind == 'mut' and e.name == 'replace' and e.args[:1] == (f.S,)) \
        and not _relocated(f, b)


def le(a, b):
    return ('truthy', ('prim', 'calculator.BaseCalculator._node_le',
                       (('p', 'self'), a, b)))


def same_text(f):
    out = []
    for a, b in ((f.S, f.O), (f.O, f.S)):
        out.append(('truthy', ('prim', 'calculator.BaseCalculator._same_text',
                               (('p', 'self'), a, b))))
    return out


def _cells_equal(f, equal):
    if equal:
        return [[(le(f.S, f.O), True), (le(f.O, f.S), True)]]
    return [[(le(f.S, f.O), False)], [(le(f.O, f.S), False)],
            [(le(f.S, f.O), True), (le(f.O, f.S), False)],
            [(le(f.S, f.O), False), (le(f.O, f.S), True)]]


def c06(ck, prog, tier):
    f = sub_fn(ck, prog)
    S, O = f.S, f.O
    merge = [(eq(PRE, 'merge'), True)]
    replace = [(eq(PRE, 'replace'), True)]

    def marked_top(t):
        return not any(e.kind == 'call' and e.name == '_pair_children'
                       for e in t.events) and \
            any(e.kind == 'attrset' and e.recv == f.n1 and
                e.args == (OP, C('replace')) for e in events(t))
    for pre, pn in ((merge, 'merge'), (replace, 'replace')):
        allow = marked_top if pre is replace else None

        def every(key, what, cell, pred):
            f.check_every('%s/%s' % (pn, key),
                          what + " (preferred_replace '%s')" % pn, cell,
                          pred, allow)
        # only in self: stays, with the operation asked for
        for ty in TYPES:
            every('only-self/%s/kept' % ty,
                  'a %s only in the target stays in the delta' % ty,
                  f.cell(o=False, type=ty, extra=pre),
                  (lambda b: _kept(f, b), _any))
            every('only-self/%s/replace-type' % ty, "diff_type 'replace' "
                  "marks a %s only in the target with operation 'replace'" %
                  ty, f.cell(o=False, type=ty,
                             extra=pre + [(eq(DT, 'replace'), True)]),
                  lambda b: _attr_is(b, S, OP, C('replace')))
            base = pre + [(eq(DT, 'replace'), False),
                          (eq(DT, 'minimum'), True)]
            every('only-self/%s/pc-replace' % ty, "preferred_create 'replace'"
                  " marks a new %s with operation 'replace'" % ty,
                  f.cell(o=False, type=ty, extra=base + [
                      (eq(PCR, 'replace'), True)]),
                  lambda b: _attr_is(b, S, OP, PCR, C('replace')))
            every('only-self/%s/pc-create' % ty, "preferred_create 'create' "
                  "marks a new %s with operation 'create'" % ty,
                  f.cell(o=False, type=ty, extra=base + [
                      (eq(PCR, 'create'), True)]),
                  lambda b: must(b, lambda e: e.kind == 'call' and
                                 e.name == 'set_create_operation' and
                                 e.args[:1] == (S,)))
            every('only-self/%s/pc-merge' % ty, "preferred_create 'merge' "
                  "leaves a new %s without operation (merge)" % ty,
                  f.cell(o=False, type=ty, extra=base + [
                      (eq(PCR, 'merge'), True)]),
                  (lambda b: (_attr_unset(b, S, OP) or
                              _attr_is(b, S, OP, C('merge'))) and
                   not may(b, lambda e: e.kind == 'call' and
                           e.name == 'set_create_operation' and
                           e.args[:1] == (S,)), _any))
        # only in other: a deletion is generated
        for ty in TYPES:
            for pd in ('delete', 'remove'):
                for presence in ((True, False) if ty == 'container'
                                 else (None,)):
                    cell = f.cell(s=False, type=ty, presence=presence,
                                  case=False,
                                  extra=pre + [(eq(PD, pd), True)])

                    def deleted(b, ty=ty, presence=presence, pd=pd):
                        if b.kind == 'raise':
                            return False
                        m = _mark_elem(b, O, f.n1)
                        if len(m) != 1:
                            return False
                        return _marked_for_delete(b, m[0][1], O, ty,
                                                  presence, pd, OP)
                    every('only-other/%s/%s/%s' % (ty, pd, presence),
                          "a %s%s only in the start config is deleted with "
                          "operation '%s', identified by key or value" % (
                              ty, '' if presence is None else
                              (' with presence' if presence else
                               ' without presence'), pd), cell, deleted)
            # in a case: deleted unless another case takes over
            sib = ('childtag', f.n1, ('tag', O), 0)
            choice = ('parent', ('parent', f.sO))
            case_ = ('parent', f.sO)

            def not_excluded(b, choice=choice):
                if _mark_elem(b, O, f.n1):
                    return True
                # allowed only when the choice is taken by a different case
                taken = [v for a, v in b.facts.log if a[0] == 'in' and
                         a[1] == choice]
                return (True in taken) and any(
                    a[0] == 'eq' and case_ in a[1:] and not v
                    for a, v in b.facts.log)
            every('only-other/%s/case' % ty, 'a %s inside a case is deleted '
                  'explicitly unless another case of the same choice is '
                  'being set' % ty,
                  f.cell(s=False, type=ty, case=True, extra=pre),
                  not_excluded)
        skips = []
        for t, gs in f.groups(f.cell(s=False, case=True, extra=pre)):
            for l, bs in gs:
                if any(_mark_elem(b, O, f.n1) for b in bs):
                    skips += [b for b in bs if not _mark_elem(b, O, f.n1) and
                              b.kind != 'raise']
        ck.req(bool(skips), '%s/only-other/case-exclusion' % pn,
               'no deletion is generated for a case that is replaced by '
               "another case of the same choice (preferred_replace '%s')" %
               pn)
        # both
        st = same_text(f)
        for k, exp in ((True, 'kept'), (False, 'gone')):
            for a in st:
                cell = f.cell(type='leaf', key=k, extra=pre + [
                    (x, True) for x in st])
            every('both/leaf/same/%s' % ('key' if k else 'nonkey'),
                  'an unchanged %s leaf is %s' % (
                      'key' if k else 'non-key', 'kept without operation'
                      if k else 'left out of the delta'), cell,
                  ((lambda b: _kept(f, b) and _attr_unset(b, S, OP), _any)) if k
                  else _gone(f))
        cell = f.cell(type='leaf', extra=pre + [(x, False) for x in st])
        every('both/leaf/differs', 'a changed leaf stays in the delta with '
              'the preferred operation', cell,
              (lambda b: _kept(f, b) and (
                  pre is replace or _attr_unset(b, S, OP) or
                  _attr_is(b, S, OP, C('merge'))),
               lambda b: pre is not replace or
               _attr_is(b, S, OP, PRE, C('replace'))))
        every('both/leaf-list/user', 'a common entry of a user-ordered '
              'leaf-list stays in the delta (its position is stated)',
              f.cell(type='leaf-list', order='user', extra=pre),
              (lambda b: _kept(f, b), _any))
        every('both/leaf-list/system', 'a common entry of a system-ordered '
              'leaf-list is left out of the delta',
              f.cell(type='leaf-list', order='system', extra=pre), _gone(f))
        for ty, order in (('container', None), ('list', 'system')):
            for c in _cells_equal(f, True):
                every('both/%s/same' % ty, 'an unchanged %s is left out of '
                      'the delta' % ty,
                      f.cell(type=ty, order=order, extra=pre + c), _gone(f))
        for c in _cells_equal(f, True):
            every('both/list/same/user', 'an unchanged entry of a '
                  'user-ordered list stays in the delta',
                  f.cell(type='list', order='user', extra=pre + c),
                  (lambda b: _kept(f, b), _any))
        for ty, order in (('container', None), ('list', 'system'),
                          ('list', 'user')):
            for i, c in enumerate(_cells_equal(f, False)):
                def descend(b):
                    return must(b, lambda e: e.kind == 'call' and
                                e.name in ('node_sub', 'get_config_replace')
                                and tuple(e.args[:2]) == (S, O))

                def plain(b):
                    return must(b, lambda e: e.kind == 'call' and
                                e.name == 'node_sub' and
                                tuple(e.args[:2]) == (S, O) and
                                _depth_ok(f, e))
                base = f.cell(type=ty, order=order, extra=pre + c)
                every('both/%s/%s/differs/%d' % (ty, order, i),
                      'differences inside a %s are worked out' % ty, base,
                      (lambda b: _kept(f, b), descend))
                every('both/%s/%s/differs/min/%d' % (ty, order, i),
                      "differences inside a %s are worked out node by node "
                      "when diff_type is not 'replace'" % ty,
                      base + [(eq(DT, 'replace'), False)], plain)
        f.check_every('%s/both/unknown-type' % pn, 'an unknown schema node '
                      'type raises ModelError',
                      f.cell(extra=pre + [
                          (eq(('get', s, C('type')), x), False)
                          for s in (f.sS, f.sO) for x in TYPES]),
                      f.raises('ModelError'), allow)
    # early replacement of a node: only with the replace marker
    n = 0
    for t in f.paths:
        if t.kind == 'return' and not any(
                e.kind == 'call' and e.name == '_pair_children'
                for e in t.events):
            n += 1
            if consistent(t, [(('truthy', ('children', f.n1, 0)), True)]):
                ck.req(marked_top(t) and t.test(eq(PRE, 'merge')) is not
                       True or murky(t) or None if marked_top(t) else False,
                       'early-return', 'node_sub gives up early only after '
                       "marking the node with operation 'replace'",
                       'node_sub returns without comparing children when %s' %
                       facts_text(t))
    repl = [t for t in f.paths if t.kind == 'return' and marked_top(t) and
            consistent(t, replace)]
    ck.req(bool(repl), 'leaf-list-replace', "with preferred_replace "
           "'replace', a parent of differing leaf-lists is replaced")
    _set_create(ck, prog)
    _set_delete(ck, prog)
    _same_leaf_list(ck, prog)
    _ctor(ck, prog)


def _linear(t):
    if is_c(t) and isinstance(cv(t), int):
        return {1: cv(t)}
    if t[0] == 'bin' and t[1] in '+-':
        a, b = _linear(t[2]), _linear(t[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == '+' else -v)
        return out
    return {t: 1}


def _level(a):
    """Level k such that the equality says replace_depth == depth + k."""
    d = _linear(('bin', '-', a[1], a[2]))
    if d is None:
        return None
    d = {k: v for k, v in d.items() if v}
    c = d.pop(1, 0)
    if d == {RD: 1, ('p', 'depth'): -1}:
        return -c
    if d == {RD: -1, ('p', 'depth'): 1}:
        return c
    return None


def _depth_ok(f, e):
    want = ('bin', '+', ('p', 'depth'), C(1))
    d = e.args[2] if len(e.args) > 2 else e.kw.get('depth')
    if d is None:
        return False
    return d == want or not (d == ('p', 'depth') or is_c(d))


def _set_create(ck, prog):
    fn = prog.method('NetconfCalculator', 'set_create_operation')
    eng = Engine(prog, opaque=PRIMS - {'set_create_operation'})
    ps = eng.run(fn)
    ck.used(eng)
    node = ('p', [a.arg for a in fn.node.args.args][1])
    sch = ('prim', GSN, (DEV, node))
    ty, pr = ('get', sch, C('type')), ('get', sch, C('presence'))
    rec = lambda e: e.kind == 'call' and e.name == fn.name
    for p in ps:
        if p.kind != 'return':
            continue
        np = [(eq(ty, 'container'), True), (eq(pr, 'true'), False),
              (('truthy', pr), False)]
        if consistent(p, np):
            ck.req(not any(e.kind == 'attrset' and e.recv == node
                           for e in events(p)), 'set-create/np-container',
                   "no operation 'create' on a container without presence",
                   'set_create_operation sets an operation on a container '
                   'without presence when ' + facts_text(p))
            ls = [l for l in loops(p) if l.recv == node or
                  l.recv[0] == 'children' and l.recv[1] == node]
            # a child is skipped only on a condition about defaults
            ok = bool(ls) and all(
                any(rec(e) and contains(e.args[0], node)
                    for e in b.events) or
                any(_mentions_prim(a, 'default_in_use')
                    for a, v in b.newfacts)
                for l in ls for b in l.bodies) and \
                any(any(rec(e) for e in b.events)
                    for l in ls for b in l.bodies)
            ck.req(ok or (None if murky(p) else False),
                   'set-create/children', "children of a container without "
                   "presence get operation 'create' instead",
                   'set_create_operation does not descend into the children '
                   'of a container without presence: ' + describe(p))
        for t in ('leaf', 'leaf-list', 'list', 'container'):
            cell = [(eq(ty, t), True)]
            if t == 'container':
                cell.append((eq(pr, 'true'), True))
            if consistent(p, cell):
                ck.req(must(p, lambda e: e.kind == 'attrset' and
                            e.recv == node and e.args == (OP, C('create'))),
                       'set-create/%s' % t, "a %s is marked with operation "
                       "'create'" % t, "set_create_operation does not set "
                       "'create' on a %s when %s" % (t, facts_text(p)))


def _mentions_prim(t, name):
    return any(isinstance(s, tuple) and len(s) > 1 and s[0] == 'prim' and
               s[1].endswith(name) for s in subterms(t))


def _set_delete(ck, prog):
    fn = prog.method('NetconfCalculator', 'set_delete_operation')
    eng = Engine(prog, opaque=PRIMS - {'set_delete_operation'})
    ps = eng.run(fn)
    ck.used(eng)
    a = [x.arg for x in fn.node.args.args]
    node, ref = ('p', a[1]), ('p', a[2])
    n = 0
    for p in ps:
        if p.kind != 'return':
            continue
        for l in loops(p):
            if not contains(l.recv, ref):
                continue
            c = ('each', l.recv, 0)
            sch = ('prim', GSN, (DEV, c))
            ty, pr = ('get', sch, C('type')), ('get', sch, C('presence'))
            for b in list(l.bodies) + list(l.exits):
                for t in TYPES:
                    for presence in ((True, False) if t == 'container' else
                                     (None,)):
                        cell = [(eq(ty, t), True)]
                        if presence is not None:
                            cell.append((eq(pr, 'true'), presence))
                            if not presence:
                                cell.append((('truthy', pr), False))
                        if not consistent(b, cell):
                            continue
                        n += 1
                        m = [x for e, x in inserted(b) if x[0] == 'elem' and
                             e.recv == node and same(x[2], ('tag', c))]
                        ok = b.kind != 'raise' and len(m) == 1
                        if ok:
                            x = m[0]
                            if t == 'container' and not presence:
                                ok = must(b, lambda e: e.kind == 'call' and
                                          e.name == fn.name and
                                          tuple(e.args[:2]) == (x, c)) and \
                                    _attr_unset(b, x, OP)
                            else:
                                ok = _attr_is(b, x, OP, C('delete'))
                                if t == 'leaf-list':
                                    ok = ok and text_from(b, x, c)
                                if t == 'list':
                                    ok = ok and _key_children(b, x, c)
                        ck.req(ok or (None if murky(b) else False),
                               'set-delete/%s/%s' % (t, presence),
                               "each %s%s below a deleted container is "
                               "marked 'delete' with its identity" % (
                                   t, '' if presence is None else
                                   '(presence %s)' % presence),
                               'set_delete_operation on a %s: %s (when %s)' %
                               (t, describe(b), facts_text(b)))
    if n == 0:
        ck.fail('set-delete/children', 'set_delete_operation does not visit '
                'the children of the reference node')


def _same_leaf_list(ck, prog):
    fn = prog.method('NetconfCalculator', '_same_leaf_list')
    eng = Engine(prog, opaque=PRIMS - {'_same_leaf_list'} | {'_parse_text'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind != 'return' or not is_c(p.value):
            continue
        eqs = [(a, v) for a, v in p.facts.log if a[0] == 'eq' and
               all(isinstance(x, tuple) and x[0] in ('cont', 'setof', 'list',
                                                     'set')
                   for x in a[1:])]
        if not eqs:
            continue
        a, v = eqs[-1]
        user = [vv for aa, vv in p.facts.log if aa[0] == 'eq' and
                aa[2] == C('user') and aa[1][0] == 'get' and
                aa[1][2] == C('ordered-by')]
        ck.req(bool(p.value[2]) == v, 'same-leaf-list/result',
               'two leaf-lists are the same exactly when their values are',
               '_same_leaf_list returns %s when the values are %s' % (
                   p.value[2], 'equal' if v else 'different'))
        if user and a[1][0] == 'cont' and a[2][0] == 'cont':
            kinds = {a[1][1], a[2][1]}
            ck.req(kinds == ({'list'} if user[-1] else {'set'}) or
                   (None if kinds == {'list', 'set'} else False),
                   'same-leaf-list/order', 'order counts exactly for '
                   'user-ordered leaf-lists', '_same_leaf_list compares %s '
                   'when ordered-by user is %s' % (kinds, user[-1]))


def _ctor(ck, prog):
    """Only the documented preferences are accepted."""
    fn = prog.method('NetconfCalculator', '__init__')
    eng = Engine(prog, opaque={'_BaseCalculator__attach_per_instance_cache',
                               '__attach_per_instance_cache'})
    ps = eng.run(fn)
    ck.used(eng)
    allowed = {'preferred_create': ('merge', 'create', 'replace'),
               'preferred_replace': ('merge', 'replace'),
               'preferred_delete': ('delete', 'remove')}
    for name, vals in allowed.items():
        t = ('p', name)
        bad = [(eq(t, v), False) for v in ('merge', 'create', 'replace',
                                           'delete', 'remove')
               if True]
        for p in ps:
            if consistent(p, bad):
                ck.req(p.kind == 'raise' and p.exc.cls == 'ValueError',
                       'ctor/%s' % name, 'an unsupported %s is rejected '
                       'with ValueError' % name,
                       'an unsupported %s is accepted' % name)
        for v in ('merge', 'create', 'replace', 'delete', 'remove'):
            cell = [(eq(t, v), True)] + [
                (eq(('p', n2), allowed[n2][0]), True)
                for n2 in allowed if n2 != name]
            for p in ps:
                if not consistent(p, cell):
                    continue
                if v in vals:
                    st = p.st.heap.get((('p', 'self'), name))
                    ck.req(p.kind == 'return' and (st == t or st == C(v)),
                           'ctor/%s/%s' % (name, v),
                           '%s=%s is accepted and used' % (name, v))
                else:
                    ck.req(p.kind == 'raise', 'ctor/%s/%s' % (name, v),
                           '%s=%s is rejected' % (name, v))


# ----------------------------------------------------------------------
def c07(ck, prog, tier):
    f = rep_fn(ck, prog)
    S, O = f.S, f.O
    for ty in TYPES:
        f.check_every('only-self/%s' % ty, "a new %s is marked with "
                      "operation 'replace'" % ty, f.cell(o=False, type=ty),
                      (lambda b: _kept(f, b),
                       lambda b: _attr_is(b, S, OP, C('replace'))))
        for pd in ('delete', 'remove'):
            for presence in ((True, False) if ty == 'container'
                             else (None,)):
                cell = f.cell(s=False, type=ty, presence=presence,
                              extra=[(eq(PD, pd), True)])

                def deleted(b, ty=ty, presence=presence, pd=pd):
                    if b.kind == 'raise':
                        return False
                    m = _mark_elem(b, O, f.n1)
                    return len(m) == 1 and _marked_for_delete(
                        b, m[0][1], O, ty, presence, pd, OP)
                f.check_every('only-other/%s/%s/%s' % (ty, pd, presence),
                              "a %s only in the start config is deleted with "
                              "operation '%s', identified by key or value" %
                              (ty, pd), cell, deleted)
    st = same_text(f)
    f.check_every('both/leaf/same/key', 'an unchanged key leaf stays without '
                  'operation', f.cell(type='leaf', key=True, extra=[
                      (x, True) for x in st]),
                  (lambda b: _kept(f, b) and _attr_unset(b, S, OP), _any))
    f.check_every('both/leaf/same/nonkey', 'an unchanged leaf is left out',
                  f.cell(type='leaf', key=False, extra=[
                      (x, True) for x in st]), _gone(f))
    f.check_every('both/leaf/differs', "a changed leaf is marked with "
                  "operation 'replace'", f.cell(type='leaf', extra=[
                      (x, False) for x in st]),
                  (lambda b: _kept(f, b),
                   lambda b: _attr_is(b, S, OP, C('replace'))))
    f.check_every('both/leaf-list/user', 'a common entry of a user-ordered '
                  'leaf-list stays', f.cell(type='leaf-list', order='user'),
                  (lambda b: _kept(f, b), _any))
    f.check_every('both/leaf-list/system', 'a common entry of a '
                  'system-ordered leaf-list is left out',
                  f.cell(type='leaf-list', order='system'), _gone(f))
    for ty, order in (('container', None), ('list', 'system')):
        for c in _cells_equal(f, True):
            f.check_every('both/%s/same' % ty, 'an unchanged %s is left out' %
                          ty, f.cell(type=ty, order=order, extra=c),
                          _gone(f))
    for c in _cells_equal(f, True):
        f.check_every('both/list/same/user', 'an unchanged entry of a '
                      'user-ordered list stays', f.cell(
                          type='list', order='user', extra=c),
                      (lambda b: _kept(f, b), _any))
    for ty, order in (('container', None), ('list', 'system'),
                      ('list', 'user')):
        for i, c in enumerate(_cells_equal(f, False)):
            f.check_every('both/%s/%s/differs/%d' % (ty, order, i),
                          "a changed %s is replaced as a whole by the target "
                          "content" % ty,
                          f.cell(type=ty, order=order, extra=c),
                          (lambda b: _kept(f, b),
                           lambda b: _attr_is(b, S, OP, C('replace'))))
    f.check_every('both/unknown-type', 'an unknown schema node type raises '
                  'ModelError', f.cell(extra=[
                      (eq(('get', s, C('type')), x), False)
                      for s in (f.sS, f.sO) for x in TYPES]),
                  f.raises('ModelError'))
    # replace_depth: where node-by-node comparison switches to replacement
    g = sub_fn(ck, prog)
    S, O = g.S, g.O
    at = ('eq',) + tuple(sorted((RD, ('bin', '+', ('p', 'depth'), C(1))),
                                key=repr))
    for ty, order in (('container', None), ('list', None)):
        for c in _cells_equal(g, False)[2:]:
            cell = g.cell(type=ty, order=order, extra=c + [
                (eq(PRE, 'merge'), True), (eq(DT, 'replace'), True)])
            kinds = {}
            for t, gs in g.groups(cell):
                for l, bs in gs:
                    for b in bs:
                        for e in events(b):
                            if e.kind == 'call' and e.name in (
                                    'node_sub', 'get_config_replace') and \
                                    tuple(e.args[:2]) == (S, O):
                                kinds.setdefault(e.name, []).append((b, e))
            ck.req('get_config_replace' in kinds, 'depth/%s/replace' % ty,
                   "diff_type 'replace' replaces a differing %s at "
                   "replace_depth" % ty)
            ck.req('node_sub' in kinds, 'depth/%s/descend' % ty,
                   "diff_type 'replace' descends into a differing %s above "
                   "replace_depth" % ty)
            for b, e in kinds.get('get_config_replace', []):
                r = b.test(at)
                rel = False
                for a, v in b.facts.log:
                    if contains(a, RD) and contains(a, ('p', 'depth')):
                        k = _level(a) if a[0] == 'eq' and v else None
                        rel = rel or k is None
                        r = r or k == 1
                ck.req(True if r else (None if rel and r is None else False),
                       'depth/%s/at' % ty, 'replacement happens at level '
                       'replace_depth', '%s: replacement of a %s although '
                       'the level is not replace_depth (%s)' % (
                           e.loc, ty, facts_text(b)))
            for b, e in kinds.get('node_sub', []):
                r = b.test(at)
                ck.req(r is not True and _depth_ok(g, e),
                       'depth/%s/above' % ty, 'the level is counted down the '
                       'tree', '%s: descends at level replace_depth or does '
                       'not count the level' % e.loc)
    _sub_dispatch(ck, prog)


def _sub_dispatch(ck, prog):
    fn = prog.method('NetconfCalculator', 'sub')
    eng = Engine(prog, opaque=PRIMS | {
        'node_sub', 'get_config_replace', 'add_attribute_by_xpath',
        'add_attribute_at_depth'})
    ps = eng.run(fn)
    ck.used(eng)
    root = eq(RD, 0)
    for dt in ('minimum', 'replace', 'minimum-replace'):
        for atroot in (True, False):
            cell = [(eq(DT, dt), True), (root, atroot),
                    (('truthy', RD), not atroot)]
            hits = [p for p in ps if p.kind == 'return' and
                    consistent(p, cell)]
            for p in hits:
                calls = [e for e in events(p) if e.kind == 'call' and
                         e.name in ('node_sub', 'get_config_replace')]
                want = 'get_config_replace' if dt == 'replace' and atroot \
                    else 'node_sub'
                ok = len(calls) == 1 and calls[0].name == want
                if ok and want == 'node_sub':
                    d = calls[0].args[2] if len(calls[0].args) > 2 else \
                        calls[0].kw.get('depth', C(0))
                    ok = d == C(0)
                ck.req(ok, 'sub/%s/%s' % (dt, atroot),
                       "diff_type '%s' with replace_depth %s uses %s from "
                       "the top" % (dt, '0' if atroot else '> 0', want),
                       'sub: %s' % [repr(c) for c in calls])
                if calls:
                    a, b = calls[0].args[:2]
                    good = _stands_for(a, A('etree1')) and \
                        _stands_for(b, A('etree2'))
                    ck.req(good, 'sub/operands', 'the delta leads from the '
                           'second config to the first',
                           'sub compares %s with %s' % (show(a), show(b)))
                    ck.req(p.value == a, 'sub/result', 'the delta is the '
                           'result', 'sub returns %s' % show(p.value))
                marks = [e for e in events(p) if e.kind == 'call' and
                         e.name.startswith('add_attribute')]
                if dt != 'minimum-replace':
                    ck.req(not marks, 'sub/no-mark/%s' % dt,
                           "diff_type '%s' adds no extra replace marks" % dt)
                for e in marks:
                    at = [a for a in e.args if is_c(a) and
                          isinstance(cv(a), str) and
                          cv(a).endswith('operation')]
                    ck.req(bool(at) and at[0] == OP,
                           'sub/minimum-replace/attribute',
                           "the 'replace' mark of diff_type "
                           "'minimum-replace' is the NETCONF operation "
                           "attribute", '%s: diff_type minimum-replace marks '
                           'nodes with attribute %s, which is not in the '
                           'NETCONF namespace and is ignored by a device' % (
                               e.loc, [show(a) for a in at]))


def _stands_for(t, want):
    while t[0] == 'copy':
        t = t[2]
    return t == want


# ----------------------------------------------------------------------
def c08(ck, prog, tier):
    for mk, nm in ((sub_fn, 'node_sub'), (rep_fn, 'get_config_replace')):
        f = mk(ck, prog)
        S = f.S
        pre = [(eq(PRE, 'merge'), True)] if nm == 'node_sub' else []
        seqs = []
        for t in f.paths:
            if t.kind == 'return' and consistent(t, pre):
                for l in loops_within(t):
                    if _sequence_loop(f, l):
                        seqs.append(l)
        if not seqs:
            ck.fail('%s/sequence' % nm, '%s no longer states the order of '
                    'user-ordered entries' % nm)
            continue
        # every user-ordered tag is registered for ordering
        for ty in ('leaf-list', 'list'):
            for o in (False, True):
                cell = f.cell(o=o, type=ty, order='user', extra=pre)

                def registered(b, o=o):
                    if b.kind == 'raise':
                        return True
                    tags = {('tag', x) for x in (f.sS, S)} | (
                        {('tag', f.sO), ('tag', f.O)} if o else set())
                    for e in b.events:
                        if e.kind == 'setitem' and e.args[0] in tags:
                            return True
                    for i, es in b.st.cont.items():
                        if any((x.key in tags or x.val in tags) and
                               not x.many for x in es):
                            return True
                    return any(a[0] == 'in' and a[1] in tags and v
                               for a, v in b.facts.log)
                f.check_every('%s/register/%s/%s' % (nm, ty, o),
                              'the order of a user-ordered %s %s is stated '
                              'in the delta' % (
                                  ty, 'entry kept' if o else 'entry added'),
                              cell, registered)
        if nm == 'node_sub':
            for c in _cells_equal(f, True):
                f.check_every('%s/equal/list' % nm, 'an unchanged entry of a '
                              'user-ordered list stays in the delta (its '
                              'position is stated)',
                              f.cell(type='list', order='user',
                                     extra=pre + c),
                              (lambda b: _kept(f, b), _any))
            f.check_every('%s/equal/leaf-list' % nm, 'an unchanged entry of '
                          'a user-ordered leaf-list stays in the delta (its '
                          'position is stated)',
                          f.cell(type='leaf-list', order='user', extra=pre),
                          (lambda b: _kept(f, b), _any))
        kinds = set()
        for l in seqs:
            _check_sequence(ck, f, nm, l, kinds)
        for want in ('first', 'after'):
            ck.req(want in kinds, '%s/states/%s' % (nm, want),
                   "%s states insert='%s'" % (nm, want))
        for want in ('value', 'key'):
            ck.req(want in kinds, '%s/states/%s' % (nm, want),
                   "%s names the preceding entry by '%s'" % (nm, want))


def _sequence_loop(f, l):
    """Loop over the same-tag entries of the delta node."""
    t = l.recv
    if t[0] == 'enum':
        t = t[1]
    if t[0] == 'zip':
        t = t[1][0]
    if t[0] == 'prim' and t[1].endswith('_get_sequence') and \
            t[2][-1] == f.n1:
        return True
    # entries carrying insert attributes, whatever the collection
    hit = False
    for b in l.bodies:
        for e in b.events:
            if e.kind == 'attrset' and e.args[0] == INSERT:
                hit = True
    if not hit:
        return False
    subs = set(subterms(t))
    return f.n1 in subs and not (t[0] == 'prim' and t[2][-1] == f.n2)


def _check_sequence(ck, f, nm, l, kinds):
    t = l.recv
    while t[0] in ('enum', 'zip'):
        t = t[1] if t[0] == 'enum' else t[1][0]
    if t[0] == 'prim' and t[1].endswith('_get_sequence'):
        scope = t[2][-3]
        if scope[0] == 'cont':
            vals = [e[0] for e in scope[2]]
            flat = []
            for v in vals:
                flat.extend(v[1] if v[0] == 'tup' else (v,))
            only = [e for e in scope[2] if e[0] == f.S]
            both = [e for e in scope[2] if e[0] == ('tup', (f.S, f.O)) or
                    e[0] == ('tup', (f.O, f.S))]
            ck.req(bool(only) and bool(both) or (None if not flat or any(
                x[0] not in ('item',) for x in flat) else False),
                '%s/scope' % nm, 'added and kept entries are ordered '
                'together', '%s: the sequence is built from %s' % (
                    l.loc, [show(x) for x in flat]))
    for b in l.bodies:
        sets = [e for e in b.events if e.kind == 'attrset' and
                e.args[0] in (INSERT, VALUE, KEY)]
        ins = [e for e in sets if e.args[0] == INSERT]
        if not ins:
            ck.req(None if murky(b) else False, '%s/insert' % nm,
                   'every user-ordered entry carries an insert attribute',
                   '%s: an entry of a user-ordered sequence gets no insert '
                   'attribute when %s' % (l.loc, facts_text(b)))
            continue
        item = ins[-1].recv
        val = ins[-1].args[1]
        first = _is_first(b, item)
        if is_c(val):
            kinds.add(cv(val))
        if first is True:
            ck.req(val == C('first'), '%s/first' % nm,
                   "the first entry is stated with insert='first'",
                   '%s: the first entry gets insert=%s' % (ins[-1].loc,
                                                           show(val)))
            continue
        if first is False:
            ck.req(val == C('after'), '%s/after' % nm,
                   "other entries are stated with insert='after'",
                   '%s: a following entry gets insert=%s' % (ins[-1].loc,
                                                             show(val)))
        if val != C('after'):
            continue
        refs = [e for e in sets if e.args[0] in (VALUE, KEY) and
                e.recv == item]
        if len(refs) != 1:
            ck.req(None if murky(b) else False, '%s/reference' % nm,
                   "insert='after' names the preceding entry",
                   "%s: insert='after' with %d reference attributes when %s" %
                   (ins[-1].loc, len(refs), facts_text(b)))
            continue
        e = refs[0]
        v = e.args[1]
        prev = ('prev', item)
        ok = contains(v, prev)
        if not ok:
            # unresolved predecessor expression?
            plain = any(s == item for s in subterms(v)) or is_c(v) or \
                any(s[0] == 'item' and s[2:] == (C(0),)
                    for s in subterms(v) if isinstance(s, tuple) and s and
                    s[0] == 'item') or \
                any(s[0] == 'nextof' for s in subterms(v)
                    if isinstance(s, tuple) and s)
            ok = False if plain else None
        ck.req(ok, '%s/predecessor' % nm, "insert='after' names the entry "
               "directly before it", "%s: the reference is %s" % (
                   e.loc, show(v)))
        # leaf-list entries by value, list entries by key
        if e.args[0] == VALUE:
            kinds.add('value')
            ck.req(True if v == ('text', prev) else (
                None if contains(v, ('text', prev)) or not
                contains(v, prev) else None), '%s/value' % nm,
                'a leaf-list entry is named by the text of its predecessor')
        else:
            kinds.add('key')
            txt = [s for s in subterms(v) if isinstance(s, tuple) and
                   s and s[0] == 'str']
            form = None
            for s in txt:
                lits = ''.join(cv(x) if is_c(x) else '\0' for x in s[1])
                form = lits in ("[\0='\0']", '[\0="\0"]')
                if form:
                    break
            ck.req(form if form is not None else None, '%s/key-format' % nm,
                   "a list entry is named by [key='value'] predicates",
                   '%s: key predicate built as %s' % (e.loc, show(v)))
            part = _partial_join(v)
            ck.req(True if part is None else False, '%s/all-keys' % nm,
                   'the reference to a list entry names each of its keys',
                   '%s: %s' % (e.loc, part))
            quo = _unquoted(v)
            ck.req(None if quo is None else not quo, '%s/key-quotes' % nm,
                   'key values are put between quotes they do not contain',
                   '%s: %s' % (e.loc, quo))
            if txt:
                keyed = any(contains(s, ('text', x)) for s in txt
                            for x in subterms(s) if isinstance(x, tuple) and
                            x and x[0] in ('find', 'item'))
                ck.req(True if keyed else None, '%s/key-values' % nm,
                       'the predicate holds the key values of the '
                       'predecessor')
        leaflist = [vv for a, vv in b.facts.log if a[0] == 'eq' and
                    a[2] == C('leaf-list')]


def _cover(guards):
    """one of the guards holds, whatever the texts are"""
    guards = [[(a, w) for a, w in g or () if any(
        isinstance(y, tuple) and y and y[0] in ('text', 'idx')
        for y in subterms(a))] for g in guards]
    atoms = sorted({a for g in guards for a, w in g}, key=repr)
    if len(atoms) > 8:
        return True
    return all(any(all(dict(zip(atoms, vs))[a] == w for a, w in g)
                   for g in guards)
               for vs in itertools.product((False, True),
                                           repeat=len(atoms)))


def _unquoted(v):
    """A key value between quotes that it may contain itself."""
    for s in subterms(v):
        if not (isinstance(s, tuple) and s and s[0] == 'join' and
                s[2][0] == 'cont'):
            continue
        for en in s[2][2]:
            t = en[0]
            g = dict(en[2] or ()) if len(en) > 2 else {}
            if t[0] != 'str' or len(t[1]) < 4:
                continue
            val = t[1][-2]
            if is_c(val):
                continue
            if val[0] != 'text':
                return None
            q = cv(t[1][-1])[:1] if is_c(t[1][-1]) else None
            if q not in ("'", '"'):
                return None
            o = '"' if q == "'" else "'"

            def has(c):
                return [w for a, w in g.items() if a[0] == 'in' and
                        is_c(a[1]) and cv(a[1]) == c and
                        contains(a, val)]
            if False in has(q) or True in has(o) and q != o:
                continue
            if any(a == ('truthy', val) and not w or
                   a == ('eq', val, NONE) and w for a, w in g.items()):
                continue
            if any(contains(a, val) and a[0] not in ('truthy', 'eq') and not (
                    a[0] == 'in' and is_c(a[1])) for a in g):
                return None
            return 'a key value is put between %s even if it contains it' % q
    return ''


def _partial_join(v):
    """Why a joined text does not hold one part for each element."""
    for s in subterms(v):
        if not (isinstance(s, tuple) and s and s[0] == 'join'):
            continue
        x = s[2]
        if x[0] == 'slice':
            return 'only a part of the key predicates is used'
        if x[0] == 'cont':
            guards = [en[2] if len(en) > 2 else None for en in x[2]]
            if any(g and any(isinstance(y, tuple) and y and
                             y[0] in ('text', 'idx') for y in subterms(g))
                   for g in guards) and not _cover(guards):
                return 'a key is left out under a condition'
                val = en[0]
                for y in subterms(val):
                    if isinstance(y, tuple) and y and y[0] == 'each' and \
                            y[1][0] == 'slice':
                        return 'only a part of the keys is used'
    return None


def _is_first(b, item):
    r = b.test(('eq', ('idx', item), C(0)))
    if r is not None:
        return r
    # predecessor idioms: prev is None / nothing seen yet
    if any(contains(x.args[1], ('prev', item)) for x in b.events
           if x.kind == 'attrset'):
        return False
    return None
