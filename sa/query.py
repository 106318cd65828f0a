"""Helpers to interrogate abstract paths."""
from .terms import C, NONE, TRUE, FALSE, is_c, cv, contains, subterms, show
from .load import AnalysisBroken

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YANG = 'urn:ietf:params:xml:ns:yang:1'
OP = C('{%s}operation' % NC)
INSERT = C('{%s}insert' % YANG)
VALUE = C('{%s}value' % YANG)
KEY = C('{%s}key' % YANG)
EDIT_ATTRS = (OP, INSERT, VALUE, KEY)

ADDERS = ('append', 'addnext', 'addprevious', 'insert', 'extend')


def eq(t, v):
    return ('eq', t, v if isinstance(v, tuple) else C(v))


def isnone(t):
    return ('eq', t, NONE)


def consistent(path, cell):
    """Can the path happen in the situation the cell describes?"""
    f = path.facts.clone()
    for atom, val in cell:
        r = f.test(atom)
        if r is None:
            if not f.assume(atom, val):
                return False
        elif r != val:
            return False
    return True


def bodies(loop, cell=()):
    return [p for p in list(loop.bodies) + list(loop.exits)
            if consistent(p, cell)]


def loops(path):
    return [e for e in path.events if e.kind == 'loop']


def loops_within(path):
    """Loops of a path at any depth."""
    for e in loops(path):
        yield e
        for b in list(e.bodies) + list(e.exits):
            for x in loops_within(b):
                yield x


def distinct_loops(paths, seen=None):
    """Every loop at any depth, once."""
    seen = set() if seen is None else seen
    out = []
    for p in paths:
        for e in loops(p):
            k = id(e.bodies)
            if k in seen:
                continue
            seen.add(k)
            out.append(e)
            out += distinct_loops(list(e.bodies) + list(e.exits), seen)
    return out


def events(path, deep=True):
    """Every effect on the path; deep also descends into loops (may)."""
    for e in path.events:
        yield e
        if deep and e.kind == 'loop':
            for b in list(e.bodies) + list(e.exits):
                for x in events(b):
                    yield x


def must(path, pred):
    """Some event satisfying pred happens on the path (an event inside a loop
    counts when every iteration performs it)."""
    for e in path.events:
        if e.kind == 'loop':
            bs = list(e.bodies)
            if bs and e.exh and all(must(b, pred) for b in bs):
                return True
        elif pred(e):
            return True
    return False


def may(path, pred):
    return any(pred(e) for e in events(path) if e.kind != 'loop')


def murky(path):
    """The path contains a call whose target could not be resolved."""
    return any(e.kind == 'call' and (e.name == '?' or e.fn is None and
                                     e.name not in KNOWN_EXT and
                                     e.recv is not None and
                                     e.recv[0] == 'attr' and
                                     e.recv[2] == '?')
               for e in events(path) if e.kind != 'loop')


KNOWN_EXT = set()


def same(a, b):
    """Equality of terms ignoring tree epochs."""
    return noep(a) == noep(b)


EPOCHED = {'children': 2, 'childtag': 3, 'findall': 3, 'find': 3, 'xpath': 3,
           'desc': 3, 'siblings': 4}


def noep(t):
    if not isinstance(t, tuple):
        if isinstance(t, frozenset):
            return frozenset(noep(x) for x in t)
        return t
    k = t[0] if t else None
    if isinstance(k, str) and k in EPOCHED and len(t) > EPOCHED[k]:
        i = EPOCHED[k]
        t = t[:i] + (0,) + t[i + 1:]
    return tuple(noep(x) for x in t)


def finalpaths(paths):
    return [p for p in paths if p.kind == 'return']


def where(path_or_event):
    return getattr(path_or_event, 'loc', None) or '?'


def facts_text(p, n=12):
    return ' and '.join(('' if b else 'not ') + show(a)
                        for a, b in p.newfacts[-n:]) or 'always'


def flatguard(g):
    """facts of a guard, those of disjunctions included"""
    out = []
    for a, v in g:
        if a[0] == 'or':
            for d in a[1]:
                out += flatguard(d)
        else:
            out.append((a, v))
    return out


def guardcases(g):
    """the cases of a guard, each without disjunctions"""
    out = [()]
    for a, v in g:
        if a[0] == 'or' and v:
            alts = [c for d in a[1] for c in guardcases(d)]
        else:
            alts = [((a, v),)]
        out = [o + x for o in out for x in alts]
        if len(out) > 64:
            return [tuple(flatguard(g))]
    return out


def source_of(t):
    """The element a value stands for (copy -> original)."""
    while t[0] == 'copy':
        t = t[2]
    return t
