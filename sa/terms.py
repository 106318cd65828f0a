"""Abstract values (terms) and path facts used by the guarded-effect analysis.

A term is a tuple.  ('c', typename, value) is a constant; everything else is
an uninterpreted name for whatever the program computes at that point."""


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(t):
    return t[0] == 'c'


def cv(t):
    return t[2]


def is_const_like(t):
    if t[0] == 'c':
        return True
    if t[0] == 'tup':
        return all(is_const_like(x) for x in t[1])
    return False


def subst(t, old, new):
    """Replace every occurrence of term old in t."""
    if t == old:
        return new
    if isinstance(t, tuple):
        ch = False
        out = []
        for x in t:
            y = subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x
            if y is not x:
                ch = True
            out.append(y)
        return tuple(out) if ch else t
    if isinstance(t, frozenset):
        out = frozenset(subst(x, old, new) for x in t)
        return t if out == t else out
    return t


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(contains(x, sub) for x in t
                   if isinstance(x, (tuple, frozenset)))
    return False


def subterms(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                for y in subterms(x):
                    yield y


def skey(t):
    return repr(t)


def show(t, d=0):
    """Readable rendering for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if d > 6:
        return '...'
    s = lambda x: show(x, d + 1)
    try:
        if k == 'c':
            return repr(t[2])
        if k == 'p':
            return t[1]
        if k == 'attr':
            return '%s.%s' % (s(t[1]), t[2])
        if k == 'get':
            return '%s.get(%s)' % (s(t[1]), s(t[2]))
        if k in ('text', 'tag', 'parent', 'nsmap', 'tail', 'attrib'):
            return '%s.%s' % (s(t[1]), k)
        if k == 'each':
            return 'each(%s)' % s(t[1])
        if k == 'prev':
            return 'previous(%s)' % s(t[1])
        if k == 'children':
            return 'children(%s)' % s(t[1])
        if k == 'childtag':
            return 'children(%s, tag=%s)' % (s(t[1]), s(t[2]))
        if k == 'prim':
            return '%s(%s)' % (t[1].split('.')[-1],
                               ', '.join(s(a) for a in t[2]))
        if k == 'call':
            return '%s(%s)' % (t[1], ', '.join(s(a) for a in t[2]))
        if k == 'copy':
            return 'copy#%s(%s)' % (t[1], s(t[2]))
        if k == 'elem':
            return 'Element#%s(%s)' % (t[1], s(t[2]))
        if k == 'tup':
            return '(%s)' % ', '.join(s(x) for x in t[1])
        if k == 'str':
            return 'str(%s)' % '+'.join(s(x) for x in t[1])
        if k == 'pick':
            return 'pick[%s](%s)' % (s(t[1]), s(t[2]))
    except Exception:
        pass
    return '%s(%s)' % (k, ', '.join(
        show(x, d + 1) if isinstance(x, tuple) else repr(x) for x in t[1:]))


class Facts(object):
    """What a path has established.  No solver: constants known/excluded for
    a term, size intervals, prefix facts and uninterpreted boolean atoms."""
    __slots__ = ('eqc', 'nec', 'rng', 'atoms', 'log')

    def __init__(self):
        self.eqc = {}
        self.nec = {}
        self.rng = {}
        self.atoms = {}
        self.log = []

    def clone(self):
        f = Facts()
        f.eqc = dict(self.eqc)
        f.nec = dict(self.nec)
        f.rng = dict(self.rng)
        f.atoms = dict(self.atoms)
        f.log = list(self.log)
        return f

    # atom forms:
    #  ('eq', t, c)      t equals constant c
    #  ('eq', a, b)      terms equal (ordered by repr)
    #  ('truthy', t)     non-None and non-empty/non-zero
    #  ('len>=', t, n)   len(t) >= n       (n >= 1)
    #  ('prefix', t, s)  string t starts with s
    #  ('in', t, coll), ('isinst', t, cls), ('lt', a, b), ...
    def test(self, atom):
        """True/False if decided, None if open."""
        k = atom[0]
        if k == 'eq':
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if is_c(a) and is_c(b):
                return _ceq(a, b)
            if is_c(a):
                a, b = b, a
            if is_c(b):
                return self._test_eqc(a, b)
            ka, kb = self.eqc.get(a), self.eqc.get(b)
            if ka is not None and kb is not None:
                return _ceq(ka, kb)
            if kb is not None:
                r = self._test_eqc(a, kb)
                if r is not None:
                    return r
            if ka is not None:
                r = self._test_eqc(b, ka)
                if r is not None:
                    return r
            return self.atoms.get(('eq',) + tuple(sorted((a, b), key=skey)))
        if k == 'truthy':
            t = atom[1]
            if is_c(t):
                return bool(cv(t))
            if t[0] == 'tup':
                return len(t[1]) > 0
            if t in self.eqc:
                v = self.eqc[t]
                return bool(cv(v)) if is_c(v) else True
            lo, hi = self.rng.get(t, (0, None))
            if lo >= 1:
                return True
            if hi == 0:
                return False
            r = self.atoms.get(atom)
            if r is None and any(a[0] == 'prefix' and a[1] == t and a[2] and b
                                 for a, b in self.atoms.items()):
                return True
            return r
        if k == 'len>=':
            t, n = atom[1], atom[2]
            if is_c(t) and isinstance(cv(t), (str, bytes)):
                return len(cv(t)) >= n
            if t[0] == 'tup':
                return len(t[1]) >= n
            lo, hi = self.rng.get(t, (0, None))
            if lo >= n:
                return True
            if hi is not None and hi < n:
                return False
            if self.atoms.get(('truthy', t)) is False:
                return False
            return None
        if k == 'prefix':
            t, s = atom[1], atom[2]
            v = t if is_c(t) else self.eqc.get(t)
            if v is not None and is_c(v):
                return isinstance(cv(v), str) and cv(v).startswith(s)
            r = self.atoms.get(atom)
            if r is not None:
                return r
            if s and self.atoms.get(('truthy', t)) is False:
                return False
            for (kk, tt, *rest), b in self.atoms.items():
                if kk == 'prefix' and tt == t:
                    if b and rest[0].startswith(s):
                        return True
                    if b and not s.startswith(rest[0]):
                        return False
                    if not b and s.startswith(rest[0]):
                        return False
            return None
        if k == 'in':
            r = self.atoms.get(atom)
            if r is not None:
                return r
            if self.rng.get(atom[2], (0, None))[1] == 0:
                return False
            return None
        if k == 'lt':
            a, b = atom[1], atom[2]
            if is_c(a) and is_c(b):
                try:
                    return cv(a) < cv(b)
                except TypeError:
                    return None
            if a == b:
                return False
            if self.atoms.get(('lt', b, a)):
                return False
            return self.atoms.get(atom)
        return self.atoms.get(atom)

    def _test_eqc(self, t, c):
        if t in self.eqc:
            return _ceq(self.eqc[t], c)
        ex = self.nec.get(t)
        if ex and c in ex:
            return False
        if never_none(t) and c == NONE:
            return False
        if is_c(c):
            v = cv(c)
            if t[0] == 'prim' and t[1].endswith('_get_list_keys'):
                return False
            if t[0] in LISTLIKE:
                return False
            tr = self.test(('truthy', t))
            if tr is True and not v:
                return False
            if tr is False and v:
                return False
            if isinstance(v, str):
                for at, b in self.atoms.items():
                    if at[0] == 'prefix' and at[1] == t and \
                            v.startswith(at[2]) != b:
                        return False
            if t[0] == 'tup':
                return False
        return None

    def assume(self, atom, val):
        """Record a fact; False if it contradicts."""
        cur = self.test(atom)
        if cur is not None:
            return cur == val
        self.log.append((atom, val))
        k = atom[0]
        if k == 'eq':
            a, b = atom[1], atom[2]
            if is_c(a):
                a, b = b, a
            if is_c(b):
                if val:
                    self.eqc[a] = b
                else:
                    self.nec[a] = self.nec.get(a, frozenset()) | {b}
                return True
            if val:
                # propagate constants
                if a in self.eqc and b not in self.eqc:
                    self.eqc[b] = self.eqc[a]
                elif b in self.eqc and a not in self.eqc:
                    self.eqc[a] = self.eqc[b]
            self.atoms[('eq',) + tuple(sorted((a, b), key=skey))] = val
            return True
        if k == 'truthy':
            t = atom[1]
            self.atoms[atom] = val
            if val:
                lo, hi = self.rng.get(t, (0, None))
                self.rng[t] = (max(lo, 1), hi)
                self.nec[t] = self.nec.get(t, frozenset()) | {NONE}
            else:
                if NONE in self.nec.get(t, ()) or never_none(t):
                    self.rng[t] = (0, 0)
            return True
        if k == 'len>=':
            t, n = atom[1], atom[2]
            lo, hi = self.rng.get(t, (0, None))
            if val:
                self.rng[t] = (max(lo, n), hi)
                self.nec[t] = self.nec.get(t, frozenset()) | {NONE}
            else:
                self.rng[t] = (lo, n - 1 if hi is None else min(hi, n - 1))
            return True
        self.atoms[atom] = val
        return True

    def const(self, t):
        """The constant a term is known to equal, else the term itself."""
        if not is_c(t) and t in self.eqc:
            return self.eqc[t]
        return t


NEVER_NONE = {'elem', 'copy', 'tup', 'children', 'childtag', 'str', 'list',
              'dict', 'set', 'obj', 'fn', 'bound', 'clo', 'cls',
              'findall', 'desc', 'nsmap', 'attrib', 'pick', 'prev', 'idx',
              'len', 'siblings', 'xpath', 'bin', 'sorted', 'keysof'}


LISTLIKE = {'cont', 'children', 'childtag', 'findall', 'list', 'dict',
            'set', 'siblings', 'desc'}

NODESETS = {'children', 'childtag', 'findall', 'desc', 'siblings', 'xpath',
            'anc'}


def never_none(t):
    if t[0] in NEVER_NONE:
        return True
    return t[0] == 'each' and t[1][0] in NODESETS


def _ceq(a, b):
    if a == b:
        return True
    if is_c(a) and is_c(b):
        try:
            if isinstance(cv(a), bool) != isinstance(cv(b), bool):
                return cv(a) == cv(b)
            return cv(a) == cv(b)
        except Exception:
            return False
    return False
