"""Guarded-effect analysis.

A syntax-directed, path-sensitive dataflow walk over the parsed source.  For
an entry function it yields the set of abstract paths; every path carries the
facts its branch conditions establish and the ordered effects it performs
(tree mutations, attribute writes, calls, raises).  Callees that live in the
package are followed (through attributes, properties, aliases, closures,
getattr with a resolvable name and dispatch tables); loops are summarised by
one generic iteration (two passes, so loop-carried values are seen), recursion
and configured primitives are left opaque.  Nothing of the program under
analysis is imported or executed and no solver is involved."""
import ast

from .load import AnalysisBroken, Func, has_yield
from .terms import (C, NONE, TRUE, FALSE, is_c, cv, subst, contains, Facts,
                    is_const_like, show, subterms)

MAXPATHS = 6000


class Infeasible(Exception):
    pass


class TooMany(Exception):
    pass


class ERaise(Exception):
    def __init__(self, cls, args=(), cause=None, loc=None):
        self.cls = cls          # class name or '*' (unknown exception)
        self.eargs = args
        self.loc = loc


class EReturn(Exception):
    def __init__(self, value):
        self.value = value


class EBreak(Exception):
    pass


class EContinue(Exception):
    pass


class Ev(object):
    """One effect."""
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'loc', 'bodies',
                 'res', 'fn', 'exh', 'nlog', 'exits')

    def __init__(self, kind, name=None, recv=None, args=(), kw=None, loc=None,
                 bodies=None, res=None, fn=None, exh=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = tuple(args)
        self.kw = kw or {}
        self.loc = loc
        self.bodies = bodies
        self.res = res
        self.fn = fn
        self.exh = exh
        self.exits = ()

    def __repr__(self):
        if self.kind == 'loop':
            return '<loop %s %d bodies @%s>' % (
                show(self.recv), len(self.bodies), self.loc)
        return '<%s %s %s(%s)%s @%s>' % (
            self.kind, self.name, show(self.recv) if self.recv else '',
            ', '.join(show(a) for a in self.args),
            ' '.join('%s=%s' % (k, show(v)) for k, v in self.kw.items()),
            self.loc)


class Entry(object):
    """One element description of a list/dict under construction."""
    __slots__ = ('key', 'val', 'guard', 'many', 'src')

    def __init__(self, val, key=None, guard=(), many=False, src=None):
        self.src = src       # the sequence the elements were taken from
        self.val = val
        self.key = key
        self.guard = tuple(guard)
        self.many = many     # produced by a loop: zero or more


class St(object):
    def __init__(self):
        self.frames = {}       # fid -> {'vars':{}, 'up':fid, 'fn':Func, ...}
        self.fid = None
        self.facts = Facts()
        self.heap = {}         # (obj, attr) -> term
        self.cont = {}         # container id -> tuple(Entry)
        self.eattr = {}        # (elem, key) -> term
        self.types = {}        # term -> class name
        self.events = []
        self.n = 0
        self.epoch = 0
        self.phisel = {}
        self.loops = {}        # coll term -> active depth
        self.exc = []          # exceptions being handled
        self.clos = {}
        self.after = {}        # elem -> times it was handed to a mutator

    def clone(self):
        s = St()
        s.frames = {k: {'vars': dict(v['vars']), 'up': v['up'],
                        'fn': v['fn'], 'glob': v['glob'],
                        'nonlocal': v['nonlocal'], 'self': v['self'],
                        'ylist': v['ylist']}
                    for k, v in self.frames.items()}
        s.fid = self.fid
        s.facts = self.facts.clone()
        s.heap = dict(self.heap)
        s.cont = dict(self.cont)
        s.eattr = dict(self.eattr)
        s.types = dict(self.types)
        s.events = list(self.events)
        s.n = self.n
        s.epoch = self.epoch
        s.phisel = dict(self.phisel)
        s.loops = dict(self.loops)
        s.exc = list(self.exc)
        s.clos = dict(self.clos)
        s.after = dict(self.after)
        return s


class Path(object):
    def __init__(self, st, kind, value=None, exc=None, start=0, logstart=0):
        self.st = st
        self.kind = kind       # return | raise | next | break
        self.value = value
        self.exc = exc
        self.events = st.events[start:]
        self.facts = st.facts
        self.newfacts = st.facts.log[logstart:]

    def test(self, atom):
        return self.facts.test(atom)

    def __repr__(self):
        return '<Path %s %s facts=%s events=%s>' % (
            self.kind, self.exc.cls if self.exc else
            (show(self.value) if self.value else ''),
            [(show(a), b) for a, b in self.facts.log], self.events)


class Chooser(object):
    def __init__(self, prefix, stack):
        self.prefix = prefix
        self.stack = stack
        self.taken = []

    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            for alt in range(n - 1, 0, -1):
                self.stack.append(tuple(self.taken) + (alt,))
        self.taken.append(c)
        return c


BUILTIN_EXC = {
    'Exception': 'BaseException', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'KeyError': 'LookupError',
    'IndexError': 'LookupError', 'LookupError': 'Exception',
    'AttributeError': 'Exception', 'OSError': 'Exception',
    'FileNotFoundError': 'OSError', 'IOError': 'OSError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'KeyboardInterrupt': 'BaseException', 'StopIteration': 'Exception',
    'UnicodeDecodeError': 'ValueError', 'AssertionError': 'Exception',
    'XMLSyntaxError': 'SyntaxError', 'SyntaxError': 'Exception',
    'ParseError': 'SyntaxError', 'Empty': 'Exception',
    'OperationError': 'Exception', 'RPCError': 'OperationError',
    'SSHError': 'Exception', 'TransportError': 'Exception',
}

# constants of third party modules the package relies on
EXT_CONST = {
    'ncclient.xml_.BASE_NS_1_0': 'urn:ietf:params:xml:ns:netconf:base:1.0',
    'ncclient.xml_.YANG_NS_1_0': 'urn:ietf:params:xml:ns:yang:1',
    'ncclient.xml_.NETCONF_MONITORING_NS':
        'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring',
    'ncclient.xml_.NETCONF_NOTIFICATION_NS':
        'urn:ietf:params:xml:ns:netconf:notification:1.0',
    'os.sep': '/',
}

# class of an attribute, by attribute name (confirmed by reading: these names
# always hold instances of that class in this package)
ATTR_TYPES = {
    'device': 'ModelDevice', 'config_src': 'Config', 'config_dst': 'Config',
    'compiler': 'ModelCompiler', 'downloader': 'ModelDownloader',
    'context': 'CompilerContext', 'ctx': 'CompilerContext',
}

PURE_METHODS = {'getparent', 'getprevious', 'getnext', 'getroottree',
                'getroot', 'lower', 'upper', 'strip', 'lstrip', 'rstrip',
                'split', 'rsplit', 'partition', 'rpartition', 'replace',
                'count', 'copy', 'index', 'title', 'isdigit', 'isspace',
                'splitlines', 'encode', 'decode', 'union', 'intersection',
                'difference', 'issubset', 'issuperset', 'search', 'group',
                'groups', 'match', 'findtext', 'isalpha', 'casefold',
                'symmetric_difference', 'fullmatch', 'sub', 'start', 'end',
                'zfill', 'ljust', 'rjust', 'find', 'getpath', 'qname',
                'compile', 'total_seconds', 'isdisjoint', 'removeprefix',
                'removesuffix', 'translate', 'expandtabs', 'getelementpath',
                'finditer', 'localname', 'isatty', 'is_alive', 'dumps'}

# calls that give a new list, and lists of statements (pyang)
NEWLISTS = {'search', 'split', 'rsplit', 'splitlines', 'listdir', 'list'}
STMTLISTS = {'i_children', 'substmts'}
MUTATORS = {'append', 'insert', 'extend', 'remove', 'addnext', 'addprevious',
            'clear', 'add', 'discard', 'update', 'sort', 'reverse'}

LOGNAMES = {'logger', 'log', 'logging', 'LOGGER', 'warnings'}


class Engine(object):
    def __init__(self, prog, opaque=(), may_raise=None, attr_types=None,
                 maxpaths=MAXPATHS, inline_props=True, opaque_fn=None,
                 prim_raises=None, no_inline_classes=(), ignore_calls=(),
                 mutators=()):
        self.prog = prog
        self.opaque = set(opaque)       # bare method names or Class.method
        self.opaque_fn = opaque_fn
        self.may_raise = may_raise      # callable(name)->bool
        self.attr_types = dict(ATTR_TYPES)
        self.attr_types.update(attr_types or {})
        self.maxpaths = maxpaths
        self.st = None
        self.ch = None
        self.cache = None
        self.stack = []
        self.inlined = set()
        self.opaqued = set()
        self.unresolved = set()
        self.npaths = 0
        self.nloops = 0
        self.no_inline_classes = set(no_inline_classes)
        self.ignore_calls = set(ignore_calls)
        # opaque functions that may empty the elements given to them
        self.mutators = set(mutators)
        self._modconst = {}
        self._gens = {}
        self._quals = {}
        self._instattr = None

    # ------------------------------------------------------------------
    # exploration
    def run(self, func, args=None, types=None, assume=(), heap=None,
            selftype=None, kwargs=None):
        """All abstract paths of a function.  args: name -> term."""
        st0 = St()
        node = func.node
        params = [a.arg for a in node.args.posonlyargs + node.args.args +
                  node.args.kwonlyargs]
        bound = {}
        for p in params:
            bound[p] = (args or {}).get(p, ('p', p))
        if node.args.vararg:
            bound[node.args.vararg.arg] = (args or {}).get(
                node.args.vararg.arg, ('p', node.args.vararg.arg))
        if node.args.kwarg:
            bound[node.args.kwarg.arg] = (args or {}).get(
                node.args.kwarg.arg, ('p', node.args.kwarg.arg))
        if func.cls and func.kind in ('method', 'prop', 'setter') and params:
            st0.types[bound[params[0]]] = selftype or func.cls.name
        for k, v in (types or {}).items():
            st0.types[k if isinstance(k, tuple) else ('p', k)] = v
        for k, v in (heap or {}).items():
            st0.heap[k] = v
        for atom, val in assume:
            st0.facts.assume(atom, val)
        self.cache = {}
        outer = self.stack

        def thunk():
            # an argument may be built by the engine (collections)
            return self.call_func(func, None, bound_override={
                k: v(self) if callable(v) else v for k, v in bound.items()})
        self.stack = []
        try:
            return self.explore(st0, thunk, wrap_return=True)
        finally:
            self.stack = outer

    def explore(self, st, thunk, wrap_return=False, logstart=None):
        saved = (self.st, self.ch, self.cache)
        results = []
        stack = [()]
        cache = {}
        start = len(st.events)
        ls = len(st.facts.log)
        savestack = list(self.stack)
        try:
            while stack:
                prefix = stack.pop()
                self.npaths += 1
                if len(results) > self.maxpaths:
                    raise TooMany('more than %d abstract paths in one region'
                                  % self.maxpaths)
                self.st = st.clone()
                self.ch = Chooser(prefix, stack)
                self.cache = cache
                self.stack = list(savestack)
                try:
                    v = thunk()
                    kind, val, exc = ('return' if wrap_return else 'next',
                                      v, None)
                except Infeasible:
                    continue
                except EReturn as e:
                    kind, val, exc = 'return', e.value, None
                except EBreak:
                    kind, val, exc = 'break', None, None
                except EContinue:
                    kind, val, exc = 'next', None, None
                except ERaise as e:
                    kind, val, exc = 'raise', None, e
                results.append(Path(self.st, kind, val, exc, start, ls))
        finally:
            self.st, self.ch, self.cache = saved
            self.stack = savestack
        return results

    def choose(self, n):
        return self.ch.choose(n)

    def decide(self, atom):
        f = self.st.facts
        r = f.test(atom)
        if r is not None:
            return r
        c = self.choose(2)
        val = (c == 0)
        if not f.assume(atom, val):
            raise Infeasible()
        return val

    def assume(self, atom, val):
        if not self.st.facts.assume(atom, val):
            raise Infeasible()

    def fresh(self):
        self.st.n += 1
        return self.st.n

    def ev(self, kind, name=None, recv=None, args=(), kw=None, node=None,
           **k):
        e = Ev(kind, name, recv, args, kw, self.loc(node), **k)
        e.nlog = len(self.st.facts.log)
        self.st.events.append(e)
        return e

    def loc(self, node):
        fr = self.st.frames.get(self.st.fid)
        path = fr['fn'].module.path if fr else '?'
        q = fr['fn'].qual if fr else '?'
        return '%s:%s (%s)' % (path, getattr(node, 'lineno', '?'), q)

    # ------------------------------------------------------------------
    # functions
    def new_frame(self, fn, up=None, selfv=None):
        fid = self.fresh()
        self.st.frames[fid] = {'vars': {}, 'up': up, 'fn': fn, 'glob': set(),
                               'nonlocal': set(), 'self': selfv,
                               'ylist': None}
        return fid

    def call_func(self, fn, args, kwargs=None, selfv=None, bound_override=None,
                  closure_fid=None, node=None):
        """Follow a call into a function of the package."""
        st = self.st
        if self.stack.count(fn.qual) >= 1 and bound_override is None:
            return self.opaque_call(fn, args, kwargs, selfv, node, rec=True)
        self.inlined.add(fn.qual)
        fid = self.new_frame(fn, up=closure_fid, selfv=selfv)
        fr = st.frames[fid]
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        caller = st.fid
        if bound_override is not None:
            fr['vars'].update(bound_override)
            if fn.cls and names and fn.kind not in ('static', 'func'):
                fr['self'] = fr['vars'].get(names[0])
        else:
            args = list(args)
            if selfv is not None:
                args = [selfv] + args
            kwargs = dict(kwargs or {})
            star = kwargs.pop('**', None)
            rest = []
            if len(args) > len(names):
                rest = args[len(names):]
                args = args[:len(names)]
            for n, v in zip(names, args):
                fr['vars'][n] = v
            if a.vararg:
                fr['vars'][a.vararg.arg] = ('tup', tuple(rest))
            extra = {}
            kwnames = names + [x.arg for x in a.kwonlyargs]
            for k, v in kwargs.items():
                if k in kwnames:
                    fr['vars'][k] = v
                else:
                    extra[k] = v
            if a.kwarg:
                did = self.new_dict([Entry(v, key=C(k))
                                     for k, v in extra.items()])
                fr['vars'][a.kwarg.arg] = star if (star and not extra) else did
            # defaults
            defs = a.defaults
            for x, d in zip(names[len(names) - len(defs):], defs):
                if x not in fr['vars']:
                    fr['vars'][x] = self.default_value(fn, d, closure_fid)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in fr['vars'] and d is not None:
                    fr['vars'][x.arg] = self.default_value(fn, d, closure_fid)
            for x in names + [k.arg for k in a.kwonlyargs]:
                if x not in fr['vars']:
                    fr['vars'][x] = ('item', star, C(x)) if star else \
                        ('p', '?' + x)
        st.fid = fid
        self.stack.append(fn.qual)
        gen = self.is_gen(fn.node)
        if gen:
            fr['ylist'] = self.new_list([])
        try:
            if isinstance(fn.node, ast.Lambda):
                ret = self.expr(fn.node.body)
            else:
                try:
                    self.block(fn.node.body)
                    ret = NONE
                except EReturn as e:
                    ret = e.value
            if gen:
                ret = self.st.frames[fid]['ylist']
            return ret
        finally:
            if self.stack and self.stack[-1] == fn.qual:
                self.stack.pop()
            self.st.fid = caller
            if not any(c[1] == fid for c in self.st.clos.values()):
                self.st.frames.pop(fid, None)

    def is_gen(self, node):
        if isinstance(node, ast.Lambda):
            return False
        r = self._gens.get(id(node))
        if r is None:
            r = self._gens[id(node)] = has_yield(node)
        return r

    def default_value(self, fn, d, up):
        saved = self.st.fid
        fid = self.new_frame(fn, up=up)
        self.st.fid = fid
        try:
            return self.expr(d)
        finally:
            self.st.fid = saved
            self.st.frames.pop(fid, None)

    msgmode = 0

    def is_opaque(self, fn):
        if self.msgmode:
            return True
        if self.opaque_fn and self.opaque_fn(fn):
            return True
        if fn.name in self.opaque:
            return True
        if fn.cls and (fn.cls.name + '.' + fn.name) in self.opaque:
            return True
        if fn.cls and fn.cls.name in self.no_inline_classes:
            return True
        return fn.qual in self.opaque

    def opaque_call(self, fn, args, kwargs, selfv, node, rec=False):
        args = list(args or [])
        # normalise keyword arguments into positions
        names = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args]
        if selfv is not None and names:
            names = names[1:]
        kw = dict(kwargs or {})
        pos = list(args)
        for n in names[len(pos):]:
            if n in kw:
                pos.append(kw.pop(n))
            else:
                break
        self.opaqued.add(fn.qual)
        alla = tuple(self.frozen(x) for x in
                     ([selfv] if selfv is not None else []) + pos)
        kwt = tuple(sorted((k, self.frozen(v)) for k, v in kw.items()))
        res = ('prim', fn.qual, alla, kwt) if kwt else ('prim', fn.qual, alla)
        self.ev('call', fn.name, selfv, pos, kw, node, res=res, fn=fn)
        if rec or fn.name not in PURE_PRIMS:
            self.bump(alla)
        if fn.name in self.mutators:
            for x in pos:
                self.st.after[x] = self.st.after.get(x, 0) + 1
        self.maybe_raise(fn.name, node)
        return res

    def now(self, v):
        n = self.st.after.get(v)
        return ('after', v, n) if n else v

    def bump(self, args):
        self.st.epoch += 1

    def maybe_raise(self, name, node):
        r = self.may_raise and self.may_raise(name)
        if r and self.choose(2) == 1:
            raise ERaise(r if isinstance(r, str) else '*', (C(name),),
                         loc=self.loc(node))

    def thread_started(self):
        """From here on another thread may write what its run() can
        write."""
        names = self.prog.async_attrs()
        for k in [k for k in self.st.heap if k[1] in names]:
            del self.st.heap[k]

    # ------------------------------------------------------------------
    # containers
    def new_list(self, entries, kind='list'):
        i = self.fresh()
        self.st.cont[i] = tuple(entries)
        return (kind, i)

    def new_dict(self, entries):
        i = self.fresh()
        self.st.cont[i] = tuple(entries)
        return ('dict', i)

    def entries(self, t):
        return self.st.cont.get(t[1], ())

    def is_cont(self, t):
        return t[0] in ('list', 'dict', 'set') and len(t) == 2

    def definite(self, t):
        return self.is_cont(t) and not any(e.many for e in self.entries(t))

    def cterm(self, t):
        """Term naming the current contents of a container."""
        if self.is_cont(t):
            es = self.entries(t)
            if len(es) == 1 and es[0].many and not es[0].guard and \
                    es[0].val[0] == 'each' and es[0].key is None:
                return es[0].val[1]
            return ('cont', t[0], tuple(
                (self.frozen(e.val), e.key and self.frozen(e.key),
                 e.guard, e.many) for e in es))
        return t

    def frozen(self, t, d=0):
        if self.is_cont(t) and d < 3:
            return self.cterm(t)
        return t

    # ------------------------------------------------------------------
    # types
    def inst_attr_types(self):
        """self.x = Class(...) assignments anywhere in a class body."""
        if self._instattr is None:
            d = {}
            for c in self.prog.classes.values():
                for f in list(c.methods.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and \
                                isinstance(n.value, ast.Call) and \
                                isinstance(n.value.func, ast.Name) and \
                                n.value.func.id in self.prog.classes:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and \
                                        isinstance(t.value, ast.Name) and \
                                        t.value.id == 'self':
                                    d[(c.name, t.attr)] = n.value.func.id
            self._instattr = d
        return self._instattr

    def typeof(self, t):
        st = self.st
        if t in st.types:
            return st.types[t]
        if t[0] == 'obj':
            return t[2]
        for a, b in st.facts.atoms.items():
            if b and a[0] == 'isinst' and a[1] == t and \
                    a[2] in self.prog.classes:
                return a[2]
        if t[0] == 'attr':
            bt = self.typeof(t[1])
            if bt:
                for c in self.prog.mro(bt):
                    r = self.inst_attr_types().get((c.name, t[2]))
                    if r:
                        return r
            return self.attr_types.get(t[2])
        if t[0] == 'p':
            return self.attr_types.get(t[1])
        if t[0] == 'copy':
            return self.typeof(t[2])
        return None

    # ------------------------------------------------------------------
    # statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unresolved.add('statement ' + type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    s_Import = s_Pass

    def s_ImportFrom(self, s):
        for a in s.names:
            self.st.frames[self.st.fid]['vars'][a.asname or a.name] = \
                ('ext', (s.module or '') + '.' + a.name)

    def s_Global(self, s):
        self.st.frames[self.st.fid]['glob'] = \
            self.st.frames[self.st.fid]['glob'] | set(s.names)

    def s_Nonlocal(self, s):
        self.st.frames[self.st.fid]['nonlocal'] = \
            self.st.frames[self.st.fid]['nonlocal'] | set(s.names)

    def s_Assert(self, s):
        if not self.cond(s.test):
            raise ERaise('AssertionError', loc=self.loc(s))

    def s_Return(self, s):
        raise EReturn(self.expr(s.value) if s.value is not None else NONE)

    def s_Break(self, s):
        raise EBreak()

    def s_Continue(self, s):
        raise EContinue()

    def s_If(self, s):
        if self.cond(s.test):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Raise(self, s):
        if s.exc is None:
            if self.st.exc:
                e = self.st.exc[-1]
                self.ev('raise', e.cls, None, e.eargs, None, s)
                raise ERaise(e.cls, e.eargs, loc=self.loc(s))
            raise ERaise('RuntimeError', loc=self.loc(s))
        # the text of a message is computed, but not followed into calls
        self.msgmode += 1 if self.is_exc_call(s.exc) else 0
        try:
            v = self.expr(s.exc, exc=True)
        finally:
            self.msgmode -= 1 if self.is_exc_call(s.exc) else 0
        cls, args = self.exc_of(v)
        self.ev('raise', cls, None, args, None, s)
        raise ERaise(cls, args, loc=self.loc(s))

    def is_exc_call(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and (
            e.func.id in BUILTIN_EXC or e.func.id in self.prog.classes and
            self.exc_is(e.func.id, 'Exception') is True)

    def exc_of(self, v):
        if v[0] == 'excobj':
            return v[1], v[2]
        if v[0] == 'obj':
            return v[2], ()
        if v[0] == 'cls':
            return v[1], ()
        if v[0] == 'ext':
            return v[1].split('.')[-1], ()
        if v[0] == 'call':
            return v[1].split('.')[-1], v[2]
        if v[0] == 'handled':
            return v[1], ()
        return '*', (v,)

    def exc_is(self, cls, want):
        """Is exception class cls a subclass of want?  None if unknown."""
        if want in ('BaseException',):
            return True
        c = cls
        seen = set()
        while c and c not in seen:
            if c == want:
                return True
            seen.add(c)
            if c in self.prog.classes:
                b = self.prog.classes[c].bases
                c = b[0] if b else 'object'
                continue
            c = BUILTIN_EXC.get(c)
        if cls == '*':
            return True if want in ('Exception', 'BaseException') else None
        if cls not in self.prog.classes and cls not in BUILTIN_EXC and \
                cls not in ('Exception', 'BaseException'):
            return True if want == 'Exception' else None
        return False

    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except ERaise as e:
                h = self.pick_handler(s, e)
                if h is None:
                    raise
                self.st.exc = self.st.exc + [e]
                self.ev('caught', e.cls, None, e.eargs, None, h)
                if h.name:
                    self.bind(h.name, ('handled', e.cls, C(str(e.loc))))
                try:
                    self.block(h.body)
                finally:
                    self.st.exc = self.st.exc[:-1]
            else:
                self.block(s.orelse)
        except (EReturn, EBreak, EContinue, ERaise):
            if s.finalbody:
                self.block(s.finalbody)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody)

    s_TryStar = s_Try

    def pick_handler(self, s, e):
        for h in s.handlers:
            if h.type is None:
                return h
            types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in types:
                if isinstance(t, ast.Name):
                    n = t.id
                elif isinstance(t, ast.Attribute):
                    n = t.attr
                else:
                    n = '?'
                r = self.exc_is(e.cls, n)
                if r is True:
                    return h
                if r is None:
                    if self.choose(2) == 0:
                        e.cls = n if e.cls == '*' else e.cls
                        return h
        return None

    def s_With(self, s):
        for it in s.items:
            v = self.expr(it.context_expr)
            self.ev('enter', None, v, (), None, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ('entered', v)
                            if v[0] not in ('call', 'res') else v)
        try:
            self.block(s.body)
        except (EReturn, EBreak, EContinue, ERaise):
            self.ev('exit', None, v, (), None, s)
            raise
        self.ev('exit', None, v, (), None, s)

    def s_FunctionDef(self, s):
        fr = self.st.frames[self.st.fid]
        f = Func(s, fr['fn'].module, None, 'func')
        f.qual = fr['fn'].qual + '.' + s.name
        f.cls = None
        f.owner_cls = getattr(fr['fn'], 'owner_cls', None) or fr['fn'].cls
        self.bind(s.name, self.closure(f))

    def closure(self, f):
        i = self.fresh()
        self.st.clos[i] = (f, self.st.fid)
        return ('clo', i)

    def s_ClassDef(self, s):
        self.bind(s.name, ('ext', s.name))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.index(t.slice)
                self.delitem(o, k, s)
            elif isinstance(t, ast.Name):
                self.st.frames[self.st.fid]['vars'].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                self.ev('delattr', t.attr, o, (), None, s)
                self.st.heap.pop((o, t.attr), None)

    def delitem(self, o, k, s):
        if o[0] == 'attrib':
            self.ev('attrdel', None, o[1], (k,), None, s)
            self.st.eattr[(o[1], k)] = NONE
            return
        if self.is_cont(o):
            es = [e for e in self.entries(o) if e.key != k]
            self.st.cont[o[1]] = tuple(es)
        self.ev('delitem', None, o, (k,), None, s)
        if not self.is_cont(o):
            self.st.epoch += 1

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        cur = self.expr(_load(s.target))
        v = self.expr(s.value)
        if self.is_cont(cur) and isinstance(s.op, ast.Add):
            self.extend(cur, v, s)
            return
        if self.is_cont(cur) and isinstance(s.op, ast.BitOr):
            self.extend(cur, v, s)
            return
        self.assign(s.target, self.binop(s.op, cur, v))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, ('rest', v, C(i)))
                elif len(t.elts) and any(isinstance(y, ast.Starred)
                                         for y in t.elts[:i]):
                    self.assign(x, self.item(v, C(i - len(t.elts))))
                else:
                    self.assign(x, self.item(v, C(i)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index(t.slice)
            self.setitem(o, k, v, t)

    def bind(self, name, v):
        st = self.st
        fr = st.frames[st.fid]
        if name in fr['nonlocal']:
            f = fr['up']
            while f is not None:
                if name in st.frames[f]['vars']:
                    st.frames[f]['vars'][name] = v
                    return
                f = st.frames[f]['up']
        fr['vars'][name] = v

    def setattr(self, o, attr, v, node):
        ty = self.typeof(o)
        if ty:
            f = self.prog.lookup(ty, attr, setter=True)
            if f is not None:
                if self.is_opaque(f):
                    self.ev('setattr', attr, o, (v,), None, node)
                    return
                self.call_func(f, [v], selfv=o, node=node)
                return
            self.st.heap[(o, attr)] = v
            self.ev('setattr', attr, o, (v,), None, node)
            return
        if attr in ('text', 'tail', 'tag'):
            self.st.eattr[(o, '#' + attr)] = v
            self.ev('mut', 'set_' + attr, o, (v,), None, node)
            return
        self.st.heap[(o, attr)] = v
        self.ev('setattr', attr, o, (v,), None, node)

    def setitem(self, o, k, v, node):
        if o[0] == 'attrib':
            self.attrset(o[1], k, v, node)
            return
        if self.is_cont(o):
            es = [e for e in self.entries(o) if not (e.key == k and
                                                     not e.many)]
            self.st.cont[o[1]] = tuple(es) + (Entry(v, key=k),)
            self.ev('setitem', None, o, (k, v), None, node)
            return
        self.st.heap[(o, ('[]', k))] = v
        self.ev('setitem', None, o, (k, v), None, node)

    def attrset(self, e, k, v, node):
        self.ev('attrset', None, e, (k, v), None, node)
        self.st.eattr[(e, k)] = v

    # -- loops -----------------------------------------------------------
    def s_For(self, s):
        coll = self.expr(s.iter)

        def body():
            self.block(s.body)
        self.loop(coll, lambda v: self.assign(s.target, v), body, s,
                  [s.target], s.body, s.orelse)

    def unroll(self, coll):
        """Definite element list of a collection, or None."""
        if coll[0] == 'tup':
            return list(coll[1])
        if is_c(coll):
            v = cv(coll)
            if isinstance(v, (list, tuple)) or (
                    isinstance(v, str) and len(v) < 40):
                return [C(x) for x in v]
        if self.is_cont(coll) and self.definite(coll):
            if coll[0] == 'dict':
                return [e.key for e in self.entries(coll)]
            return [e.val for e in self.entries(coll)]
        if coll[0] == 'enum':
            u = self.unroll(coll[1])
            if u is not None:
                st = cv(coll[2]) if is_c(coll[2]) else 0
                return [('tup', (C(i + st), x)) for i, x in enumerate(u)]
        if coll[0] == 'zip':
            us = [self.unroll(x) for x in coll[1]]
            if all(u is not None for u in us):
                return [('tup', x) for x in zip(*us)]
        if coll[0] == 'reversed':
            u = self.unroll(coll[1])
            if u is not None:
                return list(reversed(u))
        if coll[0] == 'dictitems' and self.definite(coll[1]):
            return [('tup', (e.key, e.val)) for e in self.entries(coll[1])]
        if coll[0] == 'dictvals' and self.definite(coll[1]):
            return [e.val for e in self.entries(coll[1])]
        if coll[0] == 'range' and all(is_c(x) for x in coll[1]):
            r = list(range(*[cv(x) for x in coll[1]]))
            if len(r) <= 8:
                return [C(i) for i in r]
        return None

    def generic(self, coll):
        """Alternatives (value, guards) of the generic element."""
        d = self.st.loops.get(coll, 0)
        k = coll[0]
        if self.is_cont(coll):
            out = []
            for e in self.entries(coll):
                out.append((e.key if coll[0] == 'dict' else e.val, e.guard))
            return out
        if k == 'dictitems':
            return [(('tup', (e.key, e.val)), e.guard)
                    for e in self.entries(coll[1])]
        if k == 'dictvals':
            return [(e.val, e.guard) for e in self.entries(coll[1])]
        if k == 'enum':
            return [(('tup', (('idx', v) if coll[2] == C(0) else
                              self.binop(ast.Add(), ('idx', v), coll[2]), v)),
                     g) for v, g in self.generic(coll[1])]
        if k == 'zip':
            parts = [self.generic(x)[0:1] for x in coll[1]]
            if all(parts):
                vs = []
                for src, p in zip(coll[1], parts):
                    v = p[0][0]
                    # zip(seq, seq[1:]) pairs an element with its successor
                    if src[0] == 'slice' and len(coll[1]) == 2:
                        pass
                    vs.append(v)
                if len(coll[1]) == 2 and coll[1][1][0] == 'slice' and \
                        coll[1][1][1] == self.cterm(coll[1][0]) and \
                        coll[1][1][2] == C(1) and coll[1][1][3] == NONE:
                    base = parts[0][0][0]
                    vs = [('prev', base), base]
                return [(('tup', tuple(vs)), ())]
            return [(('each', coll, d), ())]
        if k in ('reversed', 'sorted', 'setof'):
            inner = self.generic(coll[1])
            return inner
        if k == 'concat':
            out = []
            for x in coll[1]:
                out.extend(self.generic(x))
            return out
        if k == 'cont':
            return [((key if coll[1] == 'dict' else v), g)
                    for v, key, g, m in coll[2]]
        if k == 'slice':
            return self.generic(coll[1])
        if k == 'filtered':
            pass
        if k == 'pairs' or k == 'prim':
            pass
        return [(('each', coll, d), ())]

    def loop(self, coll, bindf, body, node, targets, stmts, orelse=()):
        coll = self.norm_iter(coll)
        u = self.unroll(coll)
        if u is not None and len(u) <= 12:
            for v in u:
                bindf(v)
                try:
                    body()
                except EContinue:
                    continue
                except EBreak:
                    return
            if orelse:
                self.block(orelse)
            return
        key = (tuple(self.ch.taken), id(node), self.st.fid, self.st.n,
               len(self.st.events))
        if key not in self.cache:
            self.cache[key] = self.loop_paths(coll, bindf, body, node,
                                              stmts, targets)
        nexts, exits, post, exh = self.cache[key]
        self.nloops += 1
        c = self.choose(1 + len(exits))
        if c == 0:
            if exh is False:
                raise Infeasible()
            self.st = post.clone()
            e = Ev('loop', None, self.cterm(coll), (), None, self.loc(node),
                   bodies=nexts, exh=True)
            e.exits = exits
            e.nlog = len(self.st.facts.log)
            self.st.events.append(e)
            if orelse:
                self.block(orelse)
            return
        p = exits[c - 1]
        loc = self.loc(node)
        nev = len(self.st.events)
        depth = self.st.loops
        self.st = p.st.clone()
        self.st.loops = dict(depth)
        e = Ev('loop', None, self.cterm(coll), (), None, loc, bodies=nexts,
               exh=False)
        e.nlog = 0
        self.st.events.insert(nev, e)
        if p.kind == 'break':
            return
        if p.kind == 'return':
            raise EReturn(p.value)
        raise ERaise(p.exc.cls, p.exc.eargs, loc=p.exc.loc)

    def norm_iter(self, coll):
        """What iterating a value iterates over."""
        k = coll[0]
        if k == 'elemiter':
            return coll[1]
        if k in ('elem', 'copy', 'parent', 'find') or (
                k == 'each' and coll[1][0] in ('children', 'childtag',
                                               'desc', 'findall', 'xpath')):
            return ('children', coll, self.st.epoch)
        if k == 'attrib':
            return ('attrs', coll[1])
        if k == 'phi':
            return self.norm_iter(self.pick_phi(coll))
        return coll

    def grown(self, start, st):
        """A variable rebound to its collection and more: as if the
        collection was extended, if nothing else refers to it."""
        for fid, fr in start.frames.items():
            if fid not in st.frames:
                continue
            for n, o in fr['vars'].items():
                v = st.frames[fid]['vars'].get(n)
                if v is None or v == o or o[0] not in ('list', 'set') or \
                        v[0] != o[0] or len(o) != 2 or len(v) != 2:
                    continue
                old, new = start.cont.get(o[1]), st.cont.get(v[1])
                if old is None or new is None or len(new) < len(old) or \
                        st.cont.get(o[1]) != old or any(
                            a is not b and (a.val, a.key, a.guard, a.many) !=
                            (b.val, b.key, b.guard, b.many)
                            for a, b in zip(old, new)):
                    continue
                refs = sum(x == o for f in st.frames.values()
                           for x in f['vars'].values())
                refs += sum(x == o for x in st.heap.values())
                refs += sum(e.val == o for c in st.cont.values() for e in c)
                if refs:
                    continue
                st.cont[o[1]] = old + tuple(new[len(old):])
                st.frames[fid]['vars'][n] = o

    def loop_paths(self, coll, bindf, body, node, stmts, targets,
                   condf=None):
        pre = self.st
        gens = self.generic(coll) if coll is not None else [(None, ())]
        if self.st.facts.test(('truthy', self.cterm(coll))
                              if coll is not None else ('x',)) is False:
            gens = []
        names = assigned_names(stmts, targets)
        start = pre
        nexts = exits = ()
        post = pre
        for rnd in (0, 1):
            paths = []
            for v, guard in gens:
                base = start.clone()
                if coll is not None:
                    base.loops[coll] = base.loops.get(coll, 0) + 1

                def thunk():
                    for a, b in guard:
                        self.assume(a, b)
                    if condf is not None:
                        if not condf():
                            raise Infeasible()
                    if v is not None:
                        bindf(v)
                    body()
                # the generic element is computed before entering
                base.loops = base.loops
                saved = self.st
                self.st = base
                try:
                    ps = self.explore(base, thunk)
                finally:
                    self.st = saved
                paths.extend(ps)
            nexts = [p for p in paths if p.kind == 'next']
            exits = [p for p in paths if p.kind != 'next']
            for p in nexts:
                self.grown(start, p.st)
            gvals = [v for v, g in gens]
            post, changed = self.join(pre, nexts, start, gvals, node)
            if rnd == 0 and changed:
                start = self.rename_prev(post, gvals, pre)
                continue
            break
        return nexts, exits, post, (True if gens or coll is None or True
                                    else None)

    def rename_prev(self, st, gvals, pre):
        """Loop-carried values that mention this iteration's element belong
        to the previous element at the start of the next iteration."""
        s = st.clone()

        def ren(t):
            for g in gvals:
                if g is None:
                    continue
                parts = g[1] if g[0] == 'tup' else (g,)
                for p in parts:
                    if p[0] == 'c':
                        continue
                    t = subst(t, p, ('prev', p))
            return t
        for fid, fr in s.frames.items():
            for n, v in fr['vars'].items():
                if v[0] == 'phi' and not (
                        fid in pre.frames and
                        pre.frames[fid]['vars'].get(n) == v):
                    fr['vars'][n] = ('phi', v[1], tuple(
                        (ren(a), tuple((ren(f), b) for f, b in g))
                        for a, g in v[2]))
        for i, es in list(s.cont.items()):
            if any(e.many for e in es) and i in pre.cont and \
                    pre.cont[i] != es:
                old = set(id(e) for e in pre.cont[i])
                s.cont[i] = tuple(
                    Entry(ren(e.val), ren(e.key) if e.key else None,
                          tuple((ren(f), b) for f, b in e.guard), True)
                    if e.many and id(e) not in old else e for e in es)
        return s

    def join(self, pre, nexts, start, gvals, node):
        """State after zero or more iterations."""
        post = pre.clone()
        changed = False
        if not nexts:
            return post, False
        post.n = max([pre.n] + [p.st.n for p in nexts])
        if any(p.st.epoch != pre.epoch for p in nexts):
            post.epoch = max(p.st.epoch for p in nexts)
        ls = len(pre.facts.log)
        for p in nexts:
            for fid, fr in p.st.frames.items():
                if fid not in post.frames:
                    post.frames[fid] = fr
            post.clos.update(p.st.clos)
            for k in p.st.types:
                post.types.setdefault(k, p.st.types[k])
        # variables
        for fid, fr in pre.frames.items():
            allnames = set(fr['vars'])
            for p in nexts:
                allnames |= set(p.st.frames[fid]['vars'])
            for n in allnames:
                old = fr['vars'].get(n)
                alts = []
                if old is not None:
                    alts.append((old, ()))
                groups = {}
                for p in nexts:
                    v = p.st.frames[fid]['vars'].get(n)
                    if v is None or v == old:
                        continue
                    if start is not pre and fid in start.frames and \
                            start.frames[fid]['vars'].get(n) == v:
                        continue
                    if v[0] == 'phi':
                        for a in v[2]:
                            if a not in alts:
                                alts.append(a)
                        continue
                    g = p.facts.log[ls:]
                    if v in groups:
                        gs = set(g)
                        groups[v] = [x for x in groups[v] if x in gs]
                    else:
                        groups[v] = list(g)
                for v, g in groups.items():
                    if old is None:
                        g = ()
                    alts.append((v, tuple(g)))
                if len(alts) > 1 or (alts and old is None):
                    if old is not None and old[0] == 'phi':
                        alts = list(old[2]) + [a for a in alts[1:]
                                               if a not in old[2]]
                        if len(alts) == len(old[2]):
                            post.frames[fid]['vars'][n] = old
                            continue
                    if old is not None:
                        changed = True
                    if len(alts) > 12:
                        post.frames[fid]['vars'][n] = \
                            ('unk', id(node), n)
                    else:
                        post.frames[fid]['vars'][n] = \
                            ('phi', (id(node), n), tuple(alts))
        # heap
        keys = set(pre.heap)
        for p in nexts:
            keys |= set(p.st.heap)
        for k in keys:
            vals = {p.st.heap.get(k) for p in nexts} | {pre.heap.get(k)}
            if len(vals) > 1:
                alts = []
                for v in vals:
                    if v is None:
                        v = ('attr', k[0], k[1]) if not isinstance(
                            k[1], tuple) else ('item', k[0], k[1][1])
                    for a in (v[2] if v[0] == 'phi' else ((v, ()),)):
                        if a not in alts:
                            alts.append(a)
                alts.sort(key=repr)
                post.heap[k] = ('phi', (id(node), repr(k)), tuple(alts))
                changed = changed or (k in pre.heap)
        # containers
        ids = set()
        for p in nexts:
            ids |= set(p.st.cont)
        for i in ids:
            if i not in pre.cont:
                for p in nexts:
                    if i in p.st.cont:
                        post.cont.setdefault(i, p.st.cont[i])
                continue
            old = pre.cont[i]
            out = list(old)
            removed = False
            oldids = set(id(e) for e in start.cont[i])
            groups = {}
            for p in nexts:
                g = p.facts.log[ls:]
                new = p.st.cont[i]
                newids = set(id(e) for e in new)
                if not oldids <= newids:
                    removed = True
                for e in new:
                    if id(e) in oldids:
                        continue
                    ge = e.guard if e.many else ()
                    gg = [x for x in g if x not in ge] + list(ge)
                    kk = (e.val, e.key)
                    groups.setdefault(kk, []).append(gg)
            for (v, k), g in [(kk, g) for kk, gs in groups.items()
                              for g in merge_guards(gs)]:
                g = tuple(g)
                if any(e.many and e.val == v and e.key == k and
                       set(e.guard) <= set(g) for e in old):
                    continue
                out.append(Entry(v, k, g, True))
                changed = True
            if removed:
                out = [e if e.many else Entry(e.val, e.key, e.guard, True)
                       for e in out]
            post.cont[i] = tuple(out)
        # element attributes written in the loop are unknown afterwards
        for p in nexts:
            for k, v in p.st.eattr.items():
                if pre.eattr.get(k) != v:
                    post.eattr[k] = ('unk', id(node), k[1])
        return post, changed

    def s_While(self, s):
        key = (tuple(self.ch.taken), id(s), self.st.fid, self.st.n,
               len(self.st.events))
        if key not in self.cache:
            self.cache[key] = self.loop_paths(
                None, None, lambda: self.block(s.body), s, s.body, [],
                condf=lambda: self.cond(s.test))
        nexts, exits, post, _ = self.cache[key]
        self.nloops += 1
        c = self.choose(1 + len(exits))
        nev = len(self.st.events)
        if c == 0:
            self.st = post.clone()
            e = Ev('loop', 'while', ('while', id(s)), (), None, self.loc(s),
                   bodies=nexts, exh=True)
            e.exits = exits
            e.nlog = len(self.st.facts.log)
            self.st.events.append(e)
            if self.cond(s.test):
                raise Infeasible()
            self.block(s.orelse)
            return
        p = exits[c - 1]
        loc = self.loc(s)
        self.st = p.st.clone()
        e = Ev('loop', 'while', ('while', id(s)), (), None, loc,
               bodies=nexts, exh=False)
        e.nlog = 0
        self.st.events.insert(nev, e)
        if p.kind == 'break':
            return
        if p.kind == 'return':
            raise EReturn(p.value)
        raise ERaise(p.exc.cls, p.exc.eargs, loc=p.exc.loc)

    def s_Match(self, s):
        v = self.expr(s.subject)
        for case in s.cases:
            if self.match(case.pattern, v) and \
                    (case.guard is None or self.cond(case.guard)):
                self.block(case.body)
                return

    def match(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.expr(p.value))
        if isinstance(p, ast.MatchSingleton):
            return self.eq(v, C(p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v):
                return False
            if p.name:
                self.bind(p.name, v)
            return True
        return self.decide(('match', v, id(p)))

    # ------------------------------------------------------------------
    # conditions
    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                for x in e.values:
                    if not self.cond(x):
                        return False
                return True
            for x in e.values:
                if self.cond(x):
                    return True
            return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand)
        return self.truth(self.expr(e))

    def truth(self, v):
        v = self.fix(v)
        if is_c(v):
            return bool(cv(v))
        k = v[0]
        if self.is_cont(v):
            es = self.entries(v)
            if not es:
                return False
            if any(not e.many for e in es):
                return True
            return self.decide(('truthy', self.cterm(v)))
        if k == 'rematch':
            return True
        if k in ('fn', 'bound', 'clo', 'cls', 'ext', 'obj'):
            if k == 'obj':
                ty = v[2]
                f = self.prog.lookup(ty, '__bool__')
                if f is not None:
                    return self.truth(self.call_func(f, [], selfv=v))
            return True
        if k == 'str':
            if any(is_c(x) and cv(x) for x in v[1]):
                return True
        if k == 'idx':
            return not self.decide(('eq', v, C(0)))
        if k == 'len':
            return self.lenge(v[1], 1)
        ty = self.typeof(v)
        if ty:
            f = self.prog.lookup(ty, '__bool__')
            if f is not None and not self.is_opaque(f):
                return self.truth(self.call_func(f, [], selfv=v))
        return self.decide(('truthy', self.now(v)))

    def eq(self, a, b):
        a, b = self.fix(a), self.fix(b)
        if a == b:
            return True
        if self.is_cont(a) or self.is_cont(b):
            ua = self.unroll(a) if self.is_cont(a) or a[0] == 'tup' else None
            ub = self.unroll(b) if self.is_cont(b) or b[0] == 'tup' else None
            if ua is not None and ub is not None and a[0] == b[0]:
                if len(ua) != len(ub):
                    return False
                return all(self.eq(x, y) for x, y in zip(ua, ub))
            a, b = self.cterm(a), self.cterm(b)
            for x, y in ((a, b), (b, a)):
                if x[0] == 'cont' and not x[2]:
                    return not self.decide(('truthy', y))
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a[1]) != len(b[1]):
                return False
            return all(self.eq(x, y) for x, y in zip(a[1], b[1]))
        for x, y in ((a, b), (b, a)):
            # x[:n] == 'const'  is a prefix test
            if x[0] == 'slice' and x[2] == NONE and is_c(x[3]) and is_c(y) \
                    and isinstance(cv(y), str) and isinstance(cv(x[3]), int):
                if len(cv(y)) == cv(x[3]):
                    return self.decide(('prefix', x[1], cv(y)))
                if len(cv(y)) > cv(x[3]):
                    return False
            if x[0] == 'len' and is_c(y) and isinstance(cv(y), int):
                n = cv(y)
                if n < 0:
                    return False
                if n == 0:
                    return not self.lenge(x[1], 1)
                return self.lenge(x[1], n) and not self.lenge(x[1], n + 1)
            # 'index of element' compared with 0: first element
            if x[0] == 'str' and is_c(y) and isinstance(cv(y), str):
                p = x[1]
                if is_c(p[0]) and not cv(y).startswith(cv(p[0])):
                    return False
                if is_c(p[-1]) and not cv(y).endswith(cv(p[-1])):
                    return False
            if x[0] in ('elem', 'copy') and y[0] in (
                    'elem', 'copy', 'each', 'parent', 'p', 'get'):
                return False
        if is_c(a) and is_c(b):
            return self.st.facts.test(('eq', a, b))
        # boolean valued term compared to a boolean
        for x, y in ((a, b), (b, a)):
            if is_c(y) and isinstance(cv(y), bool) and x[0] in (
                    'prim', 'call', 'p', 'attr'):
                r = self.decide(('truthy', x))
                return r == cv(y)
        return self.decide(self.eqatom(a, b))

    def eqatom(self, a, b):
        if is_c(a):
            a, b = b, a
        if is_c(b):
            return ('eq', a, b)
        return ('eq',) + tuple(sorted((a, b), key=repr))

    def lenge(self, coll, n):
        if n <= 0:
            return True
        if self.is_cont(coll):
            es = self.entries(coll)
            if not any(e.many for e in es):
                return len(es) >= n
            sure = sum(1 for e in es if not e.many)
            if sure >= n:
                return True
            coll = self.cterm(coll)
        if coll[0] != 'after':
            coll = self.now(coll)
        if n == 1:
            return self.decide(('truthy', coll))
        return self.decide(('len>=', coll, n))

    def compare(self, op, a, b):
        a, b = self.fix(a), self.fix(b)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return not self.eq(a, b)
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return not self.contains(a, b)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.GtE):
            return not self.less(a, b)
        if isinstance(op, ast.LtE):
            return not self.less(b, a)
        return self.decide(('cmp', type(op).__name__, a, b))

    def less(self, a, b):
        a, b = self.st.facts.const(a), self.st.facts.const(b)
        if is_c(a) and is_c(b):
            try:
                return cv(a) < cv(b)
            except TypeError:
                return False
        ca = self.set_like(a)
        if a[0] == 'len' and is_c(b) and isinstance(cv(b), int):
            return not self.lenge(a[1], cv(b))
        if b[0] == 'len' and is_c(a) and isinstance(cv(a), int):
            return self.lenge(b[1], cv(a) + 1)
        if a[0] == 'idx' and is_c(b) and cv(b) == 1:
            return self.decide(('eq', a, C(0)))
        if b[0] == 'idx' and is_c(a) and cv(a) == 0:
            return not self.decide(('eq', b, C(0)))
        # canonical: a < b  <=>  not (b <= a); keep one atom per ordered pair
        return self.decide(('lt', a, b))

    def set_like(self, a):
        return None

    def contains(self, a, coll):
        if coll[0] == 'phi':
            coll = self.fix(coll)
        if coll[0] == 'attrib':
            v = self.elem_get(coll[1], a)
            return not self.eq(v, NONE)
        u = self.unroll(coll)
        if u is not None and (coll[0] in ('tup', 'list', 'set', 'dict') or
                              (is_c(coll) and not isinstance(cv(coll), str))):
            for x in u:
                if self.eq(a, x):
                    return True
            return False
        if coll[0] in ('dictkeys',):
            return self.contains(a, coll[1])
        a = self.st.facts.const(a)
        c2 = self.st.facts.const(coll)
        if is_c(a) and is_c(c2) and isinstance(cv(c2), str) and \
                isinstance(cv(a), str):
            return cv(a) in cv(c2)
        if self.is_cont(coll):
            for e in self.entries(coll):
                if (e.key if coll[0] == 'dict' else e.val) == a and \
                        not e.many:
                    return True
            if not self.entries(coll):
                return False
            m = [e for e in self.entries(coll)
                 if (e.key if coll[0] == 'dict' else e.val) == a]
            if m and all(self.st.facts.test(f) is b for f, b in m[0].guard):
                return True
        ct = self.cterm(coll)
        for x in ((ct,) if ct[0] in ('children', 'childtag') else ()):
            if a[0] == 'each' and a[1] == x:
                return True
        return self.decide(('in', a, ct))

    # ------------------------------------------------------------------
    # expressions
    def expr(self, e, exc=False):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unresolved.add('expression ' + type(e).__name__)
            return ('unk', id(e))
        return m(e)

    def fix(self, v):
        if v[0] == 'phi':
            return self.pick_phi(v)
        return v

    def pick_phi(self, v):
        if v in self.st.phisel:
            return self.st.phisel[v]
        alts = v[2]
        c = self.choose(len(alts))
        a, g = alts[c]
        for f, b in g:
            if not self.st.facts.assume(f, b):
                raise Infeasible()
        if a[0] == 'phi':
            a = self.pick_phi(a)
        self.st.phisel[v] = a
        return a

    def e_Constant(self, e):
        return C(e.value)

    def e_Name(self, e):
        st = self.st
        f = st.fid
        while f is not None:
            fr = st.frames[f]
            if e.id in fr['vars'] and e.id not in fr['glob']:
                v = fr['vars'][e.id]
                if v[0] == 'phi':
                    return self.pick_phi(v)
                return v
            f = fr['up']
        return self.global_name(st.frames[st.fid]['fn'].module, e.id)

    def global_name(self, mod, name):
        if name in mod.funcs:
            return ('fn', mod.funcs[name].qual)
        if name in mod.classes:
            return ('cls', name)
        if name in mod.assigns:
            return self.mod_const(mod, name)
        if name in mod.imports:
            return self.imported(mod, mod.imports[name])
        if name in ('True', 'False', 'None'):
            return C({'True': True, 'False': False, 'None': None}[name])
        return ('ext', 'builtins.' + name)

    def imported(self, mod, dotted):
        d = dotted.lstrip('.')
        if dotted.startswith('.') or d.startswith('ncdiff.'):
            if d.startswith('ncdiff.'):
                d = d[7:]
            parts = d.split('.')
            if len(parts) == 1:
                if parts[0] in self.prog.mods:
                    return ('mod', parts[0])
                if parts[0] in self.prog.classes:
                    return ('cls', parts[0])
            m = self.prog.mods.get('.'.join(parts[:-1]))
            if m is not None:
                return self.global_name(m, parts[-1])
        if d in EXT_CONST:
            return C(EXT_CONST[d])
        return ('ext', d)

    def mod_const(self, mod, name):
        key = (mod.name, name)
        if key in self._modconst:
            r = self._modconst[key]
            if r is None:
                return ('ext', mod.name + '.' + name)
            if callable(r):
                return r()
            return r
        self._modconst[key] = None
        if name in LOGNAMES:
            return ('ext', 'logger')
        expr = mod.assigns[name]
        fake = Func(ast.parse('def _m(): pass').body[0], mod, None, 'func')
        saved = self.st.fid
        fid = self.new_frame(fake)
        self.st.fid = fid
        try:
            v = self.expr(expr)
        finally:
            self.st.fid = saved
        if v[0] in ('list', 'dict', 'set', 'obj'):
            # a container: rebuild it in every state that asks for it
            del self._modconst[key]
            return v
        self._modconst[key] = v
        return v

    def e_Attribute(self, e):
        return self.getattr(self.expr(e.value), e.attr, e)

    def getattr(self, o, attr, node=None):
        o = self.fix(o)
        st = self.st
        if o[0] == 'ext':
            d = o[1] + '.' + attr
            if d in EXT_CONST:
                return C(EXT_CONST[d])
            return ('ext', d)
        if o[0] == 'mod':
            return self.global_name(self.prog.mods[o[1]], attr)
        if o[0] == 'cls':
            f = self.prog.lookup(o[1], attr)
            if f is not None:
                if f.kind == 'classm':
                    return ('bound', f.qual, o)
                return ('fn', f.qual)
            for c in self.prog.mro(o[1]):
                if attr in c.attrs:
                    return self.class_attr(c, attr)
            return ('attr', o, attr)
        if (o, attr) in st.heap:
            v = st.heap[(o, attr)]
            if v[0] == 'phi':
                return self.pick_phi(v)
            return v
        if o[0] == 'super':
            for c in self.prog.mro(o[1])[1:]:
                if attr in c.methods:
                    f = c.methods[attr]
                    if f.kind == 'prop':
                        return self.call_prop(f, o[2], node)
                    return ('bound', f.qual, o[2])
            return ('extbound', attr, o[2])
        if attr == '__class__':
            ty = self.typeof(o)
            return ('cls', ty) if ty else ('call', 'type', (o,))
        ty = self.typeof(o)
        if ty:
            f = self.prog.lookup(ty, attr)
            if f is not None:
                if f.kind == 'prop':
                    return self.call_prop(f, o, node)
                if f.kind == 'static':
                    return ('fn', f.qual)
                if f.kind == 'classm':
                    return ('bound', f.qual, ('cls', ty))
                return ('bound', f.qual, o)
            for c in self.prog.mro(ty):
                if attr in c.attrs:
                    return self.class_attr(c, attr)
            return ('attr', o, attr)
        if (o, '#' + attr) in st.eattr:
            return st.eattr[(o, '#' + attr)]
        if attr == 'attrib':
            return ('attrib', o)
        if attr == 'text':
            if o[0] == 'copy':
                return self.getattr(o[2], 'text')
            if o[0] == 'elem':
                return NONE
            return ('text', o)
        if attr == 'tag':
            if o[0] == 'copy':
                return self.getattr(o[2], 'tag')
            if o[0] == 'elem':
                return o[2]
            return ('tag', o)
        if attr in ('tail', 'nsmap'):
            return (attr, o)
        return ('attr', o, attr)

    def class_attr(self, c, attr):
        saved = self.st.fid
        fake = Func(ast.parse('def _m(): pass').body[0], c.module, None,
                    'func')
        inner = {}
        for n in ast.walk(c.attrs[attr]):
            if isinstance(n, ast.Name) and n.id in c.attrs and n.id != attr:
                inner[n.id] = self.class_attr(c, n.id)
        self.st.fid = self.new_frame(fake)
        self.st.frames[self.st.fid]['vars'].update(inner)
        try:
            return self.expr(c.attrs[attr])
        finally:
            self.st.fid = saved

    def call_prop(self, f, o, node):
        if self.is_opaque(f):
            self.opaqued.add(f.qual)
            res = ('prim', f.qual, (o,))
            self.ev('prop', f.name, o, (), None, node, res=res, fn=f)
            self.maybe_raise(f.name, node)
            return res
        return self.call_func(f, [], selfv=o, node=node)

    def by_qual(self, q):
        if not self._quals:
            for f in self.prog.functions():
                self._quals[f.qual] = f
        if q in self._quals:
            return self._quals[q]
        raise AnalysisBroken('function %s vanished' % q)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ('slc', self.expr(s.lower) if s.lower else NONE,
                    self.expr(s.upper) if s.upper else NONE,
                    self.expr(s.step) if s.step else NONE)
        return self.expr(s)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        k = self.index(e.slice)
        o = self.fix(o)
        return self.item(o, k, e)

    def item(self, o, k, node=None):
        o = self.fix(o)
        k = self.fix(k)
        if k[0] == 'slc':
            lo, hi, step = k[1], k[2], k[3]
            u = self.unroll(o) if o[0] in ('tup', 'list') else None
            if is_c(o) and isinstance(cv(o), (str, bytes)):
                u = None
            if all(is_c(x) for x in (lo, hi, step)):
                sl = slice(cv(lo), cv(hi), cv(step))
                if u is not None:
                    r = u[sl]
                    return ('tup', tuple(r)) if o[0] == 'tup' else \
                        self.new_list([Entry(x) for x in r])
                oc = self.st.facts.const(o)
                if is_c(oc) and isinstance(cv(oc), (str, bytes)):
                    return C(cv(oc)[sl])
                if lo == C(0):
                    lo = NONE
            if step == C(-1) and lo == NONE and hi == NONE:
                return ('reversed', self.cterm(o))
            if lo == NONE and hi == NONE and step == NONE:
                if self.is_cont(o):
                    return self.new_list(self.entries(o))
                return o
            return ('slice', self.cterm(o), lo, hi)
        if (o, ('[]', k)) in self.st.heap:
            return self.fix(self.st.heap[(o, ('[]', k))])
        if o[0] == 'attrib':
            return self.elem_get(o[1], k)
        if is_c(k) and isinstance(cv(k), int):
            u = self.unroll(o) if o[0] in ('tup', 'list') else None
            if u is not None:
                try:
                    return self.fix(u[cv(k)])
                except IndexError:
                    raise ERaise('IndexError', loc=self.loc(node))
        if o[0] == 'dict' and self.is_cont(o):
            kc = self.st.facts.const(k)
            es = self.entries(o)
            cands = []
            for e in reversed(es):
                if e.key == k or e.key == kc:
                    if not any(x.val == e.val for x in cands):
                        cands.append(e)
                    if not e.many:
                        break
            if cands:
                if len(cands) == 1:
                    return self.fix(cands[0].val)
                memo = (o, ('[pick]', k, tuple(es)))
                if memo not in self.st.heap:
                    self.st.heap[memo] = cands[self.choose(len(cands))].val
                return self.fix(self.st.heap[memo])
            if self.definite(o) and es and all(is_c(e.key) for e in es):
                for e in es:
                    if self.eq(k, e.key):
                        return self.fix(e.val)
                raise ERaise('KeyError', (k,), loc=self.loc(node))
            return ('item', self.cterm(o), k)
        if o[0] == 'list' and self.is_cont(o):
            es = self.entries(o)
            # element of a sequence addressed by that element's own index
            r = self.idx_item(k)
            if r is not None:
                return r
            if es and is_c(k):
                c = self.choose(len(es))
                return ('pick', k, es[c].val, frozenset(es[c].guard))
            return ('item', self.cterm(o), k)
        r = self.idx_item(k)
        if r is not None:
            return r
        oc = self.st.facts.const(o)
        if is_c(oc) and is_c(k):
            try:
                return C(cv(oc)[cv(k)])
            except Exception:
                pass
        if o[0] == 'each' and o[1][0] == 'pairs':
            return ('item', o, k)
        if o[0] == 'call' and o[1] == 'partition' and is_c(k):
            return ('item', o, k)
        return ('item', o, k)

    def idx_item(self, k):
        if k[0] == 'idx':
            return k[1]
        if k[0] == 'bin' and k[1] == '-' and k[2][0] == 'idx' and \
                k[3] == C(1):
            return ('prev', k[2][1])
        if k[0] == 'bin' and k[1] == '+' and k[2][0] == 'idx' and \
                k[3] == C(1):
            return ('nextof', k[2][1])
        if k[0] == 'each' and k[1][0] == 'range':
            a = k[1][1]
            if len(a) == 1 or (len(a) == 2 and is_c(a[0])):
                n = a[-1]
                if n[0] == 'len':
                    return ('each', n[1], k[2])
        return None

    def e_Tuple(self, e):
        return ('tup', tuple(self.elts(e.elts)))

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                u = self.unroll(v)
                if u is not None:
                    out.extend(u)
                else:
                    out.append(('star', self.cterm(v)))
            else:
                out.append(self.expr(x))
        return out

    def e_List(self, e):
        es = []
        for v in self.elts(e.elts):
            if v[0] == 'star':
                for g, gu in self.generic(v[1]):
                    es.append(Entry(g, guard=gu, many=True))
            else:
                es.append(Entry(v))
        return self.new_list(es)

    def e_Set(self, e):
        return self.new_list([Entry(v) for v in self.elts(e.elts)], 'set')

    def e_Dict(self, e):
        es = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.expr(v)
                if self.is_cont(d):
                    es.extend(self.entries(d))
                else:
                    es.append(Entry(('dictof', d), key=('dictof', d),
                                    many=True))
            else:
                es.append(Entry(self.expr(v), key=self.expr(k)))
        return self.new_dict(es)

    def comp(self, e, add):
        def rec(gens):
            if not gens:
                add()
                return
            g = gens[0]
            coll = self.expr(g.iter)

            def body():
                for c in g.ifs:
                    if not self.cond(c):
                        raise EContinue()
                rec(gens[1:])
            self.loop(coll, lambda v: self.assign(g.target, v), body, g,
                      [g.target], [])
        # comprehension scope: variables restored afterwards
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fid = self.st.fid
        old = {n: self.st.frames[fid]['vars'].get(n) for n in names}
        rec(e.generators)
        vs = self.st.frames[self.st.fid]['vars']
        for n, v in old.items():
            if v is None:
                vs.pop(n, None)
            else:
                vs[n] = v

    def e_ListComp(self, e, kind='list'):
        lst = self.new_list([], kind)

        def add():
            self.st.cont[lst[1]] = self.st.cont[lst[1]] + \
                (Entry(self.expr(e.elt)),)
        n = len(self.st.events)
        self.comp(e, add)
        if len(e.generators) == 1:
            ls = [x for x in self.st.events[n:] if x.kind == 'loop']
            es = self.st.cont[lst[1]]
            if len(ls) == 1 and any(x.many and x.src is None for x in es):
                src = ls[0].recv
                if src[0] == 'enum':
                    src = src[1]
                self.st.cont[lst[1]] = tuple(
                    Entry(x.val, x.key, x.guard, x.many, x.src or src)
                    if x.many else x for x in es)
        return lst

    def e_SetComp(self, e):
        return self.e_ListComp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_DictComp(self, e):
        d = self.new_dict([])

        def add():
            k = self.expr(e.key)
            self.st.cont[d[1]] = self.st.cont[d[1]] + \
                (Entry(self.expr(e.value), key=k),)
        self.comp(e, add)
        return d

    def e_BoolOp(self, e):
        vals = e.values
        v = None
        for i, x in enumerate(vals):
            v = self.expr(x)
            if i == len(vals) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                if v[0] in ('c',):
                    return v
                return FALSE if is_boolish(v) else v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return C(not self.cond(e.operand))
        v = self.expr(e.operand)
        if is_c(v) and isinstance(e.op, ast.USub):
            return C(-cv(v))
        return ('un', type(e.op).__name__, v)

    def e_Compare(self, e):
        left = self.expr(e.left)
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            if not self.compare(op, left, right):
                return FALSE
            left = right
        return TRUE

    def e_IfExp(self, e):
        if self.cond(e.test):
            return self.expr(e.body)
        return self.expr(e.orelse)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.bind(e.target.id, v)
        return v

    def e_Lambda(self, e):
        fr = self.st.frames[self.st.fid]
        f = Func.__new__(Func)
        f.node = e
        f.module = fr['fn'].module
        f.cls = None
        f.kind = 'func'
        f.name = '<lambda>'
        f.qual = fr['fn'].qual + '.<lambda:%d>' % e.lineno
        f._gen = False
        return self.closure(f)

    def e_Starred(self, e):
        return ('star', self.expr(e.value))

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else NONE
        fr = self.st.frames[self.st.fid]
        y = fr['ylist']
        if y is not None:
            self.st.cont[y[1]] = self.st.cont[y[1]] + (Entry(v),)
        self.ev('yield', None, None, (v,), None, e)
        return NONE

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        y = self.st.frames[self.st.fid]['ylist']
        if y is not None:
            self.extend(y, v, e)
        return NONE

    def e_Await(self, e):
        return self.expr(e.value)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.expr(v.value))
        return self.mkstr(parts)

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def mkstr(self, parts):
        out = []
        for p in parts:
            p = self.fix(p)
            p = self.st.facts.const(p)
            ps = p[1] if p[0] == 'str' else (p,)
            for q in ps:
                if is_c(q):
                    q = C(str(cv(q)))
                    if cv(q) == '':
                        continue
                    if out and is_c(out[-1]):
                        out[-1] = C(cv(out[-1]) + cv(q))
                        continue
                out.append(q)
        if not out:
            return C('')
        if len(out) == 1 and is_c(out[0]):
            return out[0]
        return ('str', tuple(out))

    def e_BinOp(self, e):
        return self.binop(e.op, self.expr(e.left), self.expr(e.right), e)

    def binop(self, op, a, b, node=None):
        a, b = self.fix(a), self.fix(b)
        a2, b2 = self.st.facts.const(a), self.st.facts.const(b)
        if isinstance(op, ast.Mod) and is_c(a2) and isinstance(cv(a2), str):
            args = list(b[1]) if b[0] == 'tup' else [b]
            return self.percent(cv(a2), args)
        if is_c(a2) and is_c(b2):
            try:
                return C({ast.Add: lambda x, y: x + y,
                          ast.Sub: lambda x, y: x - y,
                          ast.Mult: lambda x, y: x * y,
                          ast.FloorDiv: lambda x, y: x // y,
                          ast.Mod: lambda x, y: x % y,
                          ast.BitOr: lambda x, y: x | y,
                          ast.BitAnd: lambda x, y: x & y,
                          }[type(op)](cv(a2), cv(b2)))
            except Exception:
                pass
        if isinstance(op, ast.Add):
            if self.is_cont(a) or self.is_cont(b) or a[0] == 'tup' and \
                    b[0] == 'tup':
                if a[0] == 'tup' and b[0] == 'tup':
                    return ('tup', a[1] + b[1])
                es = []
                for x in (a, b):
                    es.extend(self.as_entries(x))
                return self.new_list(es)
            if is_c(a2) and isinstance(cv(a2), str) or \
                    is_c(b2) and isinstance(cv(b2), str) or \
                    a[0] in ('str', 'tag', 'text') or \
                    b[0] in ('str', 'tag', 'text'):
                return self.mkstr([a, b])
            if is_c(b2) and isinstance(cv(b2), int) and a[0] == 'bin' and \
                    a[1] in '+-' and is_c(a[3]) and \
                    isinstance(cv(a[3]), int):
                n = (cv(a[3]) if a[1] == '+' else -cv(a[3])) + cv(b2)
                if n == 0:
                    return a[2]
                return ('bin', '+', a[2], C(n)) if n > 0 else \
                    ('bin', '-', a[2], C(-n))
            if is_c(a2) and isinstance(cv(a2), int):
                return self.binop(op, b, a)
            return ('bin', '+', a, b)
        if isinstance(op, ast.Sub):
            if is_c(b2) and isinstance(cv(b2), int):
                return self.binop(ast.Add(), a, C(-cv(b2))) \
                    if a[0] == 'bin' else ('bin', '-', a, b2)
        if isinstance(op, ast.BitOr) and a[0] == 'set' and self.is_cont(a):
            return self.new_list(list(self.entries(a)) +
                                 list(self.as_entries(b)), 'set')
        nm = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|',
              ast.Mult: '*', ast.BitXor: '^'}.get(type(op),
                                                  type(op).__name__)
        return ('bin', nm, self.cterm(a), self.cterm(b))

    def percent(self, fmt, args):
        import re
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r'%(\(\w+\))?[-#0 +]*\d*(?:\.\d+)?([sdrifx%])',
                             fmt):
            parts.append(C(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                parts.append(C('%'))
                continue
            parts.append(args[i] if i < len(args) else ('unk', 'fmt'))
            i += 1
        parts.append(C(fmt[pos:]))
        return self.mkstr(parts)

    def as_entries(self, x):
        x = self.fix(x)
        if self.is_cont(x):
            if x[0] == 'dict':
                return [Entry(e.key, guard=e.guard, many=e.many)
                        for e in self.entries(x)]
            return list(self.entries(x))
        u = self.unroll(x)
        if u is not None:
            return [Entry(v) for v in u]
        x = self.norm_iter(x)
        return [Entry(v, guard=g, many=True, src=x)
                for v, g in self.generic(x)]

    # ------------------------------------------------------------------
    # calls
    def e_Call(self, e):
        f = e.func
        # logging has no effect on any property
        if isinstance(f, ast.Attribute):
            b = f.value
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and b.id in LOGNAMES and \
                    b.id not in self.st.frames[self.st.fid]['vars']:
                return NONE
            if isinstance(f.value, ast.Attribute) and \
                    f.value.attr in ('logger', 'log'):
                return NONE
        if isinstance(f, ast.Name) and f.id == 'print':
            return NONE
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and \
                len(e.args) == 1 and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.anyall(f.id, e.args[0])
        if isinstance(f, ast.Name) and f.id == 'super':
            fr = self.st.frames[self.st.fid]
            fn = fr['fn']
            cls = fn.cls
            sv = fr['self'] or fr['vars'].get('self')
            if len(e.args) == 2:
                c, sv = self.expr(e.args[0]), self.expr(e.args[1])
                if c[0] == 'cls':
                    return ('super', c[1], self.fix(sv))
                if c[0] == 'ext' and c[1].split('.')[-1] in \
                        self.prog.classes:
                    return ('super', c[1].split('.')[-1], self.fix(sv))
            if cls is not None:
                return ('super', cls.name, sv)
        if isinstance(f, ast.Attribute):
            o = self.fix(self.expr(f.value))
            args, kw = self.args(e)
            return self.method(o, f.attr, args, kw, e)
        fv = self.fix(self.expr(f))
        args, kw = self.args(e)
        return self.call(fv, args, kw, e)

    def args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                u = self.unroll(v)
                if u is not None:
                    args.extend(u)
                else:
                    args.append(('star', v))
            else:
                args.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                if self.is_cont(v) and self.definite(v) and \
                        all(is_c(x.key) for x in self.entries(v)):
                    for x in self.entries(v):
                        kw[cv(x.key)] = x.val
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def anyall(self, name, comp):
        want = name == 'any'
        fid = self.st.fid

        class Hit(Exception):
            pass

        def rec(gens):
            if not gens:
                if self.truth(self.expr(comp.elt)) == want:
                    raise EReturn(('hit',))
                return
            g = gens[0]
            coll = self.expr(g.iter)

            def body():
                for c in g.ifs:
                    if not self.cond(c):
                        raise EContinue()
                rec(gens[1:])
            self.loop(coll, lambda v: self.assign(g.target, v), body, g,
                      [g.target], [])
        names = {}
        for g in comp.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names[n.id] = self.st.frames[fid]['vars'].get(n.id)
        try:
            rec(comp.generators)
            r = C(not want)
        except EReturn as x:
            if x.value != ('hit',):
                raise
            self.st.fid = fid
            r = C(want)
        vs = self.st.frames[self.st.fid]['vars']
        for n, v in names.items():
            if v is None:
                vs.pop(n, None)
            else:
                vs[n] = v
        return r

    def call(self, fv, args, kw, node):
        k = fv[0]
        if k == 'fn':
            f = self.by_qual(fv[1])
            if self.is_opaque(f):
                return self.opaque_call(f, args, kw, None, node)
            if f.cls is not None and f.kind in ('method',) and args:
                return self.call_func(f, args[1:], kw, selfv=args[0],
                                      node=node)
            return self.call_func(f, args, kw, node=node)
        if k == 'bound':
            f = self.by_qual(fv[1])
            if self.is_opaque(f):
                return self.opaque_call(f, args, kw, fv[2], node)
            return self.call_func(f, args, kw, selfv=fv[2], node=node)
        if k == 'clo':
            f, fid = self.st.clos[fv[1]]
            if f.name in self.opaque or self.msgmode:
                return self.opaque_call(f, args, kw, None, node)
            return self.call_func(f, args, kw, closure_fid=fid, node=node)
        if k == 'cls':
            return self.construct(fv[1], args, kw, node)
        if k == 'partial':
            kk = dict(fv[3])
            kk.update(kw)
            return self.call(fv[1], list(fv[2]) + list(args), kk, node)
        if k == 'extbound':
            res = ('call', fv[1], (fv[2],) + tuple(args), C(self.fresh()))
            self.ev('call', fv[1], fv[2], args, kw, node, res=res)
            self.maybe_raise(fv[1], node)
            return res
        if k == 'ext':
            return self.ext_call(fv[1], args, kw, node)
        if k == 'attr':
            return self.method(fv[1], fv[2], args, kw, node)
        if k == 'methodof':
            return self.method(fv[1], fv[2], args, kw, node)
        self.unresolved.add('call of %s @%s' % (show(fv), self.loc(node)))
        self.ev('call', '?', fv, args, kw, node)
        self.st.epoch += 1
        self.maybe_raise('?', node)
        return ('call', '?', (fv,) + tuple(args))

    def construct(self, cname, args, kw, node):
        # exception classes
        if self.exc_is(cname, 'Exception') is True:
            return ('excobj', cname, tuple(args))
        obj = ('obj', self.fresh(), cname)
        init = self.prog.lookup(cname, '__init__')
        self.ev('new', cname, obj, args, kw, node)
        if init is not None:
            if self.is_opaque(init) or cname in self.opaque:
                names = [x.arg for x in init.node.args.posonlyargs +
                         init.node.args.args][1:]
                for n, v in zip(names, args):
                    self.st.heap[(obj, '@' + n)] = v
                for n, v in kw.items():
                    self.st.heap[(obj, '@' + n)] = v
                key = tuple(args) + tuple(kw[k] for k in sorted(kw))
                res = ('objof', cname, key)
                self.st.types[res] = cname
                return res
            self.call_func(init, args, kw, selfv=obj, node=node)
        return obj

    def method(self, o, name, args, kw, node):
        o = self.fix(o)
        args = [self.fix(a) for a in args]
        kw = {k: self.fix(v) for k, v in kw.items()}
        if o[0] == 'ext' and o[1] not in ('builtins.str', 'builtins.dict',
                                          'builtins.list'):
            return self.ext_call(o[1] + '.' + name, args, kw, node)
        if o[0] == 'rematch' and all(is_c(a) for a in args):
            i = cv(args[0]) if args else 0
            if name == 'group' and isinstance(i, int) and i < len(o[3]):
                return C(o[3][i])
            if name in ('start', 'end') and i == 0:
                return C(o[4][0 if name == 'start' else 1])
        if o[0] == 'call' and o[1] == 're.compile' and not kw:
            r = self.regex(name, [o] + args)
            if r is not None:
                return r
        if o[0] in ('mod', 'cls', 'super'):
            return self.call(self.getattr(o, name, node), args, kw, node)
        if (o, name) in self.st.heap:
            return self.call(self.getattr(o, name, node), args, kw, node)
        ty = self.typeof(o)
        if ty:
            f = self.prog.lookup(ty, name)
            if f is not None:
                if f.kind == 'prop':
                    return self.call(self.call_prop(f, o, node), args, kw,
                                     node)
                if f.kind == 'static':
                    return self.call(('fn', f.qual), args, kw, node)
                return self.call(('bound', f.qual, o), args, kw, node)
            for c in self.prog.mro(ty):
                if name in c.attrs:
                    return self.call(self.class_attr(c, name), args, kw,
                                     node)
        if name in ('__getattribute__', '__getattr__'):
            k = self.st.facts.const(args[0])
            if is_c(k):
                return self.getattr(o, cv(k), node)
        if self.is_cont(o):
            r = self.cont_method(o, name, args, kw, node)
            if r is not None:
                return r
        r = self.str_method(o, name, args, kw, node)
        if r is not None:
            return r
        r = self.elem_method(o, name, args, kw, node)
        if r is not None:
            return r
        if name in self.ignore_calls:
            return NONE
        alla = (o,) + tuple(self.frozen(a) for a in args)
        kwt = tuple(sorted(kw.items()))
        res = ('call', name, alla, kwt) if kwt else ('call', name, alla)
        if name not in PURE_METHODS:
            self.st.epoch += 1
            if name in IMPURE:
                res = ('call', name, alla, C(self.fresh()))
        self.ev('call', name, o, args, kw, node, res=res)
        if name in ('start', 'join') and not args:
            self.thread_started()
        self.maybe_raise(name, node)
        return res

    # -- containers ------------------------------------------------------
    def extend(self, c, v, node):
        self.st.cont[c[1]] = self.entries(c) + tuple(self.as_entries(v))

    def cont_method(self, o, name, args, kw, node):
        i = o[1]
        es = self.entries(o)
        if o[0] in ('list', 'set'):
            if name in ('append', 'add'):
                self.st.cont[i] = es + (Entry(args[0]),)
                return NONE
            if name == 'insert':
                if args[0] == C(0):
                    self.st.cont[i] = (Entry(args[1]),) + es
                else:
                    self.st.cont[i] = es + (Entry(args[1]),)
                return NONE
            if name in ('extend', 'update'):
                for a in args:
                    self.extend(o, a, node)
                return NONE
            if name == 'copy':
                return self.new_list(es, o[0])
            if name == 'clear':
                self.st.cont[i] = ()
                return NONE
            if name == 'index':
                if any(e.val == args[0] for e in es):
                    if self.definite(o):
                        return C([e.val for e in es].index(args[0]))
                    return ('idx', args[0])
                return ('index', self.cterm(o), args[0])
            if name == 'pop' and o[0] == 'list':
                if self.definite(o) and es and (not args or
                                                is_c(args[0])):
                    k = cv(args[0]) if args else -1
                    try:
                        v = es[k].val
                    except IndexError:
                        raise ERaise('IndexError', loc=self.loc(node))
                    new = list(es)
                    del new[k]
                    self.st.cont[i] = tuple(new)
                    return v
                if es:
                    c = self.choose(len(es))
                    for a, b in es[c].guard:
                        self.assume(a, b)
                    return es[c].val
                return ('call', 'pop', (self.cterm(o),), C(self.fresh()))
            if name in ('remove', 'discard'):
                self.st.cont[i] = tuple(e for e in es
                                        if e.val != args[0])
                return NONE
            if name in ('sort', 'reverse'):
                self.ev(name, name, o, args, kw, node)
                return NONE
            if name == 'count':
                return ('call', 'count', (self.cterm(o),) + tuple(args))
            if name == 'union' and o[0] == 'set':
                new = list(es)
                for a in args:
                    new.extend(self.as_entries(a))
                return self.new_list(new, 'set')
            if name in ('union', 'intersection', 'difference',
                        'symmetric_difference'):
                return ('bin', {'union': '|', 'intersection': '&',
                                'difference': '-'}.get(name, '^'),
                        self.cterm(o), self.cterm(args[0]))
            return None
        # dict
        if name == 'get':
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            return self.dict_get(o, args[0], d, node)
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            for e in es:
                if e.key == args[0]:
                    if e.many:
                        break
                    return self.fix(e.val)
            else:
                if es and not self.decide(('in', args[0], self.cterm(o))):
                    pass
                self.st.cont[i] = self.entries(o) + (Entry(d, key=args[0]),)
                self.ev('setitem', None, o, (args[0], d), None, node)
                return d
            if self.choose(2) == 0:
                return self.fix(e.val)
            self.st.cont[i] = self.entries(o) + (Entry(d, key=args[0]),)
            self.ev('setitem', None, o, (args[0], d), None, node)
            return d
        if name == 'items':
            return ('dictitems', o)
        if name == 'values':
            return ('dictvals', o)
        if name == 'keys':
            return o
        if name == 'pop':
            for e in es:
                if e.key == args[0] and not e.many:
                    self.st.cont[i] = tuple(x for x in es if x is not e)
                    return e.val
            if self.definite(o) and len(args) > 1:
                return args[1]
            return ('call', 'pop', (self.cterm(o),) + tuple(args))
        if name == 'update':
            for a in args:
                if self.is_cont(a):
                    for e in self.entries(a):
                        self.setitem(o, e.key, e.val, node)
                        now = self.st.cont[i]
                        if (e.guard or e.many) and now and \
                                now[-1].key == e.key:
                            self.st.cont[i] = now[:-1] + (Entry(
                                e.val, e.key, e.guard, e.many, e.src),)
            for k, v in kw.items():
                self.setitem(o, C(k), v, node)
            return NONE
        if name == 'copy':
            return self.new_dict(es)
        if name == 'clear':
            self.st.cont[i] = ()
            return NONE
        return None

    def dict_get(self, o, k, d, node):
        es = self.entries(o)
        kc = self.st.facts.const(k)
        for e in reversed(es):
            if e.key == k or e.key == kc:
                if not e.many:
                    return self.fix(e.val)
                # written by an earlier iteration, maybe
                if self.choose(2) == 0:
                    self.assume(('in', k, self.cterm(o)), True)
                    return self.fix(e.val)
                self.assume(('in', k, self.cterm(o)), False)
                return d
        if not es:
            return d
        if self.definite(o) and all(is_c(e.key) for e in es):
            for e in es:
                if self.eq(k, e.key):
                    return self.fix(e.val)
            return d
        prevs = [e for e in es if e.many]
        if prevs:
            c = self.choose(1 + len(prevs))
            if c:
                self.assume(('in', k, self.cterm(o)), True)
                return self.fix(prevs[c - 1].val)
            self.assume(('in', k, self.cterm(o)), False)
            return d
        if self.decide(('in', k, self.cterm(o))):
            return ('item', self.cterm(o), k)
        return d

    # -- strings ---------------------------------------------------------
    def str_method(self, o, name, args, kw, node):
        if name == 'index' and len(args) == 1 and args[0][0] == 'each' and \
                args[0][1] == o:
            return ('idx', args[0])
        oc = self.st.facts.const(o)
        ac = [self.st.facts.const(a) for a in args]
        if is_c(oc) and isinstance(cv(oc), str):
            if name == 'format':
                return self.format(cv(oc), args, kw)
            if name == 'join' and args:
                u = self.unroll(args[0])
                if u is not None:
                    parts = []
                    for j, x in enumerate(u):
                        if j:
                            parts.append(oc)
                        parts.append(x)
                    return self.mkstr(parts)
                a = self.cterm(args[0])
                return ('join', oc, a)
            if all(is_c(a) for a in ac) and not kw and name in (
                    'replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip',
                    'split', 'rsplit', 'partition', 'rpartition',
                    'startswith', 'endswith', 'title', 'isdigit', 'find',
                    'index', 'count', 'splitlines', 'capitalize'):
                try:
                    r = getattr(cv(oc), name)(*[cv(a) for a in ac])
                except Exception:
                    return None
                if isinstance(r, list):
                    return self.new_list([Entry(C(x)) for x in r])
                if isinstance(r, tuple):
                    return ('tup', tuple(C(x) for x in r))
                return C(r)
        if name == 'startswith' and len(args) == 1:
            if is_c(ac[0]):
                return C(self.decide(('prefix', o, cv(ac[0]))))
            u = self.unroll(args[0])
            if u is not None and all(is_c(x) for x in u):
                return C(any(self.decide(('prefix', o, cv(x))) for x in u))
            return C(self.decide(('startswith', o, args[0])))
        if name == 'endswith' and len(args) == 1:
            return C(self.decide(('endswith', o, args[0])))
        if name == 'format' and o[0] == 'str':
            return ('str', (o,) + tuple(args))
        return None

    def format(self, fmt, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                parts.append(C(lit))
                if field is None:
                    continue
                base = field.split('.')[0].split('[')[0]
                if base == '':
                    v = args[auto] if auto < len(args) else ('unk', 'fmt')
                    auto += 1
                elif base.isdigit():
                    v = args[int(base)]
                else:
                    v = kw.get(base, ('unk', 'fmt', base))
                if '.' in field:
                    for at in field.split('.')[1:]:
                        v = self.getattr(v, at)
                parts.append(v)
        except (ValueError, IndexError):
            return ('unk', 'fmt')
        return self.mkstr(parts)

    # -- elements --------------------------------------------------------
    def elem_get(self, e, k):
        if (e, k) in self.st.eattr:
            return self.fix(self.st.eattr[(e, k)])
        if e[0] == 'copy':
            return self.elem_get(e[2], k)
        if e[0] == 'elem':
            return NONE
        return ('get', e, k)

    def elem_method(self, o, name, args, kw, node):
        st = self.st
        ep = st.epoch
        if o[0] == 'attrib':
            e = o[1]
            if name == 'get':
                return self.get_default(self.elem_get(e, args[0]), args, kw)
            if name == 'pop':
                v = self.elem_get(e, args[0])
                self.ev('attrdel', None, e, (args[0],), None, node)
                st.eattr[(e, args[0])] = NONE
                return v
            if name in ('keys', 'iterkeys'):
                return ('attrs', e)
            if name == 'items':
                return ('attritems', e)
            if name == 'clear':
                self.ev('attrclear', None, e, (), None, node)
                return NONE
            if name == 'update':
                for k in kw:
                    self.attrset(e, C(k), kw[k], node)
                if args and self.is_cont(args[0]) and \
                        self.definite(args[0]):
                    for x in self.entries(args[0]):
                        self.attrset(e, x.key, x.val, node)
                elif args:
                    self.ev('attrupdate', None, e, args, kw, node)
                return NONE
            return None
        if name == 'get' and 1 <= len(args) <= 2:
            return self.get_default(self.elem_get(o, args[0]), args, kw)
        if name == 'set' and len(args) == 2:
            self.attrset(o, args[0], args[1], node)
            return NONE
        if name == 'keys' and not args:
            return ('attrs', o)
        if name == 'items' and not args:
            return ('dictitems_', o)
        if name == 'values' and not args:
            return ('dictvals_', o)
        if name == 'getparent':
            return ('parent', o)
        if name == 'getchildren':
            return ('children', o, ep)
        if name == 'iterchildren':
            t = kw.get('tag', args[0] if args else None)
            if kw.get('reversed') == TRUE:
                base = ('children', o, ep) if t is None or t == NONE \
                    else ('childtag', o, t, ep)
                return ('reversed', base)
            if t is None or t == NONE:
                return ('children', o, ep)
            return ('childtag', o, t, ep)
        if name == 'findall':
            p = args[0] if args else kw.get('path')
            if self.plain_tag(p):
                return ('childtag', o, p, ep)
            return ('findall', o, p, ep)
        if name == 'iterfind':
            p = args[0]
            if self.plain_tag(p):
                return ('childtag', o, p, ep)
            return ('findall', o, p, ep)
        if name == 'find' and args and not is_c(o) and o[0] not in (
                'str', 'text', 'tag'):
            p = args[0]
            return ('find', o, p, ep)
        if name == 'xpath':
            if '**' in kw or 'namespaces' in kw and args and \
                    args[0][0] in ('star', 'p'):
                self.ev('query', 'xpath', o, args, kw, node)
            return ('xpath', o, self.cterm(args[0]), ep)
        if name in ('iter', 'getiterator'):
            t = kw.get('tag', args[0] if args else NONE)
            return ('desc', o, t, ep)
        if name == 'iterdescendants':
            t = kw.get('tag', args[0] if args else NONE)
            return ('desc', o, t, ep, C('strict'))
        if name == 'iterancestors':
            t = kw.get('tag', args[0] if args else NONE)
            return ('anc', o, t)
        if name == 'itersiblings':
            t = kw.get('tag', NONE)
            p = kw.get('preceding', FALSE)
            return ('siblings', o, t, p, ep)
        if name in ('addnext', 'addprevious', 'append', 'insert', 'remove',
                    'replace', 'extend', 'clear') and not (
                name == 'replace' and len(args) == 2 and
                (self.stringish(o) or any(
                    self.stringish(x) for x in args))):
            self.ev('mut', name, o, args, kw, node)
            st.epoch += 1
            return NONE
        if name in ('add', 'discard', 'update', 'sort', 'reverse',
                    'setdefault'):
            self.ev('mut', name, o, args, kw, node)
            st.epoch += 1
            return ('call', name, (o,) + tuple(args))
        return None

    def stringish(self, o):
        return o[0] in ('str', 'text', 'tag', 'c', 'get', 'slice', 'join') \
            or (o[0] == 'call' and o[1] in PURE_METHODS)

    def plain_tag(self, p):
        if p is None:
            return False
        if p[0] in ('tag',):
            return True
        if is_c(p) and isinstance(cv(p), str):
            s = cv(p)
            if s.startswith('{'):
                s = s.split('}')[-1]
            return not any(x in s for x in '/*.[')
        if p[0] == 'str':
            return not any(is_c(x) and any(ch in cv(x).split('}')[-1]
                                           for ch in '/*.[')
                           for x in p[1])
        return p[0] in ('each', 'get', 'attr', 'p')

    def get_default(self, v, args, kw):
        d = args[1] if len(args) > 1 else kw.get('default')
        if d is None or d == NONE:
            return v
        if self.eq(v, NONE):
            return d
        return v

    # -- external functions ----------------------------------------------
    def regex(self, how, args):
        """matching of a constant pattern against a constant string"""
        if how not in ('search', 'match', 'fullmatch') or len(args) != 2:
            return None
        pat, s = args
        if pat[0] == 'call' and pat[1] == 're.compile' and \
                len(pat[2]) == 1 and len(pat) == 3:
            pat = pat[2][0]
        pat = self.st.facts.const(pat)
        s = self.st.facts.const(s)
        if not (is_c(pat) and is_c(s) and isinstance(cv(pat), str) and
                isinstance(cv(s), str)):
            return None
        import re
        try:
            m = getattr(re, how)(cv(pat), cv(s))
        except re.error:
            return None
        if m is None:
            return NONE
        return ('rematch', cv(pat), cv(s), (m.group(0),) + m.groups(),
                m.span())

    def ext_call(self, name, args, kw, node):
        args = [self.fix(a) for a in args]
        short = name.split('.')[-1]
        if name.startswith('re.') and not kw:
            r = self.regex(short, args)
            if r is not None:
                return r
        m = getattr(self, 'x_' + short, None)
        if m is not None and (name.startswith('builtins.') or
                              short in EXT_OK):
            r = m(args, kw, node)
            if r is not None:
                return r
        if name in ('logger',) or name.split('.')[0] in ('logger', 'logging',
                                                         'warnings'):
            return NONE
        if self.exc_is(short, 'Exception') is True and (
                short in BUILTIN_EXC or short == 'Exception'):
            return ('excobj', short, tuple(args))
        if short in self.ignore_calls:
            return NONE
        fr = tuple(self.frozen(a) for a in args)
        kwt = tuple(sorted((k, self.frozen(v)) for k, v in kw.items()))
        res = ('call', name, fr, kwt) if kwt else ('call', name, fr)
        if short in IMPURE:
            res = ('call', name, fr, C(self.fresh()))
        self.ev('call', name, None, args, kw, node, res=res)
        self.maybe_raise(short, node)
        return res

    def x_len(self, a, kw, node):
        if self.is_cont(a[0]) and self.definite(a[0]):
            return C(len(self.entries(a[0])))
        if a[0][0] == 'tup':
            return C(len(a[0][1]))
        v = self.st.facts.const(a[0])
        if is_c(v) and isinstance(cv(v), str):
            return C(len(cv(v)))
        ty = self.typeof(a[0])
        if ty:
            f = self.prog.lookup(ty, '__len__')
            if f is not None and not self.is_opaque(f):
                return self.call_func(f, [], selfv=a[0], node=node)
        return ('len', self.now(self.cterm(a[0])))

    def x_list(self, a, kw, node):
        if not a:
            return self.new_list([])
        v = a[0]
        if self.is_cont(v) or v[0] == 'tup':
            return self.new_list(self.as_entries(v))
        v = self.norm_iter(v)
        if v[0] in ('children', 'childtag', 'siblings', 'xpath', 'findall',
                    'desc', 'attrs', 'prim', 'slice', 'reversed', 'sorted',
                    'bin', 'anc', 'setof'):
            return v
        if v[0] in ('enum', 'zip', 'dictitems', 'dictvals', 'concat',
                    'range'):
            return self.new_list(self.as_entries(v))
        if v[0] == 'call' and v[1] in NEWLISTS or v[0] == 'dictvals_' or \
                v[0] == 'attr' and v[2] in STMTLISTS:
            return v
        if v[0] in ('p', 'each', 'attr', 'get', 'item', 'find', 'parent'):
            # list(element) is the list of its children
            return ('children', v, self.st.epoch)
        return ('call', 'list', (self.cterm(v),))

    x_tuple = x_list

    def x_set(self, a, kw, node):
        if not a:
            return self.new_list([], 'set')
        v = a[0]
        if self.is_cont(v) or v[0] == 'tup':
            return self.new_list(self.as_entries(v), 'set')
        return ('setof', self.norm_iter(v))

    x_frozenset = x_set

    def x_dict(self, a, kw, node):
        d = self.new_dict([])
        if a:
            if self.is_cont(a[0]) and a[0][0] == 'dict':
                self.st.cont[d[1]] = self.entries(a[0])
            elif self.is_cont(a[0]) or a[0][0] in ('zip', 'tup'):
                es = []
                for e in self.as_entries(a[0]):
                    if e.val[0] == 'tup' and len(e.val[1]) == 2:
                        es.append(Entry(e.val[1][1], e.val[1][0], e.guard,
                                        e.many))
                self.st.cont[d[1]] = tuple(es)
            else:
                return ('call', 'dict', (a[0],))
        for k, v in kw.items():
            self.setitem(d, C(k), v, node)
        return d

    x_OrderedDict = x_dict

    def x_defaultdict(self, a, kw, node):
        return self.new_dict([])

    def x_sorted(self, a, kw, node):
        return ('sorted', self.cterm(a[0]), tuple(sorted(
            (k, v) for k, v in kw.items())))

    def x_reversed(self, a, kw, node):
        v = self.norm_iter(a[0])
        return ('reversed', v if self.is_cont(v) else self.cterm(v))

    def x_enumerate(self, a, kw, node):
        s = kw.get('start', a[1] if len(a) > 1 else C(0))
        return ('enum', self.norm_iter(a[0]), s)

    def x_zip(self, a, kw, node):
        return ('zip', tuple(self.norm_iter(x) for x in a))

    def x_range(self, a, kw, node):
        return ('range', tuple(a))

    def x_iter(self, a, kw, node):
        return a[0]

    def x_next(self, a, kw, node):
        v = a[0]
        if self.is_cont(v) or v[0] in ('children', 'childtag', 'siblings',
                                       'desc', 'findall', 'attrs', 'anc',
                                       'reversed'):
            if self.truth(v if self.is_cont(v) else v):
                return self.item(v, C(0), node)
            if len(a) > 1:
                return a[1]
            raise ERaise('StopIteration', loc=self.loc(node))
        return None

    def x_filter(self, a, kw, node):
        out = self.new_list([])

        def bind(v):
            self.bind('\0f', v)

        def body():
            v = self.st.frames[self.st.fid]['vars']['\0f']
            if a[0] == NONE:
                ok = self.truth(v)
            else:
                ok = self.truth(self.call(a[0], [v], {}, node))
            if ok:
                self.st.cont[out[1]] = self.st.cont[out[1]] + (Entry(v),)
        self.loop(a[1], bind, body, node, [], [])
        return out

    def x_map(self, a, kw, node):
        out = self.new_list([])

        def bind(v):
            self.bind('\0m', v)

        def body():
            v = self.st.frames[self.st.fid]['vars']['\0m']
            r = self.call(a[0], [v], {}, node)
            self.st.cont[out[1]] = self.st.cont[out[1]] + (Entry(r),)
        self.loop(a[1], bind, body, node, [], [])
        return out

    def x_any(self, a, kw, node):
        return self._anyall_value(a[0], True, node)

    def x_all(self, a, kw, node):
        return self._anyall_value(a[0], False, node)

    def _anyall_value(self, coll, want, node):
        u = self.unroll(coll)
        if u is not None:
            for v in u:
                if self.truth(v) == want:
                    return C(want)
            return C(not want)
        return C(self.decide(('any' if want else 'all', self.cterm(coll))))

    def x_isinstance(self, a, kw, node):
        v, c = a[0], a[1]
        cs = list(c[1]) if c[0] == 'tup' else [c]
        return C(any(self.isinst(v, x) for x in cs))

    def isinst(self, v, c):
        name = c[1].split('.')[-1] if c[0] in ('cls', 'ext') else \
            (c[2] if c[0] == 'attr' else show(c))
        ty = self.typeof(v)
        if ty:
            return any(k.name == name for k in self.prog.mro(ty)) or \
                name == 'object'
        vc = self.st.facts.const(v)
        if is_c(vc):
            if name in ('str', 'int', 'bool', 'float', 'list', 'dict',
                        'tuple', 'bytes', 'set'):
                t = {'str': str, 'int': int, 'bool': bool, 'float': float,
                     'list': list, 'dict': dict, 'tuple': tuple,
                     'bytes': bytes, 'set': set}[name]
                return isinstance(cv(vc), t)
            return False
        kinds = {'str': 'str', 'list': 'list', 'dict': 'dict',
                 'tup': 'tuple', 'set': 'set'}
        if v[0] in kinds:
            return kinds[v[0]] == name
        if v[0] in ('each', 'children', 'elem', 'copy') and name in (
                'tuple', 'str', 'list', 'dict', 'int') and never_tuple(v):
            return False
        # exclusive built-in/package types
        r = self.st.facts.test(('isinst', v, name))
        if r is None:
            for a, b in self.st.facts.atoms.items():
                if b and a[0] == 'isinst' and a[1] == v and a[2] != name:
                    k1 = a[2] in self.prog.classes
                    k2 = name in self.prog.classes
                    if k1 and k2:
                        if any(k.name == name
                               for k in self.prog.mro(a[2])):
                            return True
                        if not any(k.name == a[2]
                                   for k in self.prog.mro(name)):
                            return False
                        continue
                    return False
        return self.decide(('isinst', v, name))

    def x_hasattr(self, a, kw, node):
        k = self.st.facts.const(a[1])
        ty = self.typeof(a[0])
        if ty and is_c(k) and self.prog.lookup(ty, cv(k)) is not None:
            return TRUE
        if is_c(k) and (a[0], cv(k)) in self.st.heap:
            return TRUE
        return C(self.decide(('hasattr', a[0], k)))

    def x_getattr(self, a, kw, node):
        k = self.st.facts.const(a[1])
        if k[0] == 'str':
            k = self.mkstr(list(k[1]))
        if is_c(k):
            ty = self.typeof(a[0])
            if ty and len(a) > 2:
                if self.prog.lookup(ty, cv(k)) is None and \
                        (a[0], cv(k)) not in self.st.heap and \
                        ('attr', a[0], cv(k)) and \
                        not self.known_attr(ty, cv(k)):
                    return a[2]
            if len(a) > 2 and not ty and a[0][0] not in (
                    'ext', 'mod', 'cls', 'super') and \
                    (a[0], cv(k)) not in self.st.heap and \
                    not self.decide(('hasattr', a[0], k)):
                return a[2]
            return self.getattr(a[0], cv(k), node)
        self.unresolved.add('getattr(%s) @%s' % (show(k), self.loc(node)))
        return ('attr', a[0], '?')

    def known_attr(self, ty, name):
        for c in self.prog.mro(ty):
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr == name and \
                        isinstance(n.ctx, ast.Store):
                    return True
        return False

    def x_setattr(self, a, kw, node):
        k = self.st.facts.const(a[1])
        if is_c(k):
            self.setattr(a[0], cv(k), a[2], node)
            return NONE
        return None

    def x_str(self, a, kw, node):
        if not a:
            return C('')
        v = self.st.facts.const(a[0])
        if is_c(v):
            return C(str(cv(v)))
        if v[0] in ('str', 'text', 'tag'):
            return v
        ty = self.typeof(v)
        if ty:
            f = self.prog.lookup(ty, '__str__')
            if f is not None and not self.is_opaque(f):
                return self.call_func(f, [], selfv=v, node=node)
        return ('str', (v,))

    def x_bool(self, a, kw, node):
        return C(self.truth(a[0])) if a else FALSE

    def x_int(self, a, kw, node):
        v = self.st.facts.const(a[0]) if a else C(0)
        if is_c(v):
            try:
                return C(int(cv(v)))
            except Exception:
                return None
        return ('call', 'int', (v,))

    def x_type(self, a, kw, node):
        ty = self.typeof(a[0])
        if ty:
            return ('cls', ty)
        return ('call', 'type', (a[0],))

    def x_repr(self, a, kw, node):
        return ('call', 'repr', (a[0],))

    def x_id(self, a, kw, node):
        return ('call', 'id', (a[0],))

    def x_deepcopy(self, a, kw, node):
        if is_c(a[0]):
            return a[0]
        if self.is_cont(a[0]):
            i = self.fresh()
            self.st.cont[i] = self.entries(a[0])
            return (a[0][0], i)
        ty = self.typeof(a[0])
        if ty:
            f = self.prog.lookup(ty, '__deepcopy__')
        r = ('copy', self.fresh(), a[0])
        for (o, k), v in list(self.st.eattr.items()):
            if o == a[0]:
                self.st.eattr[(r, k)] = v
        self.ev('copy', None, a[0], (), None, node, res=r)
        return r

    def x_copy(self, a, kw, node):
        return self.x_deepcopy(a, kw, node)

    def x_Element(self, a, kw, node):
        r = ('elem', self.fresh(), a[0])
        self.ev('newelem', 'Element', r, a, kw, node)
        self.elem_attribs(r, a[1:], kw, node)
        return r

    def x_SubElement(self, a, kw, node):
        r = ('elem', self.fresh(), a[1])
        self.ev('newelem', 'SubElement', r, a, kw, node)
        self.elem_attribs(r, a[2:], kw, node)
        self.ev('mut', 'append', a[0], (r,), {}, node)
        self.st.epoch += 1
        return r

    def elem_attribs(self, r, rest, kw, node):
        for k, v in kw.items():
            if k == 'nsmap':
                continue
            if k == 'attrib':
                if self.is_cont(v) and self.definite(v):
                    for e in self.entries(v):
                        self.attrset(r, e.key, e.val, node)
                else:
                    self.ev('attrupdate', None, r, (v,), None, node)
                continue
            self.attrset(r, C(k), v, node)

    def x_iselement(self, a, kw, node):
        if is_c(self.st.facts.const(a[0])):
            return FALSE
        t = a[0]
        if t[0] in ('elem', 'elemcopy') or \
                t[0] == 'attr' and t[2] == '_root' or \
                t[0] == 'call' and isinstance(t[1], str) and \
                t[1].split('.')[-1] in ('XML', 'fromstring', 'getroot'):
            return TRUE
        return C(self.decide(('isinst', a[0], '_Element')))

    def x_partial(self, a, kw, node):
        return ('partial', a[0], tuple(a[1:]), tuple(sorted(kw.items())))

    def x_open(self, a, kw, node):
        r = ('call', 'open', tuple(a) + tuple(v for k, v in
                                              sorted(kw.items())))
        self.ev('call', 'open', None, a, kw, node, res=r)
        self.maybe_raise('open', node)
        return r

    def x_min(self, a, kw, node):
        return ('call', 'min', tuple(self.frozen(x) for x in a))

    def x_max(self, a, kw, node):
        return ('call', 'max', tuple(self.frozen(x) for x in a))

    def x_sum(self, a, kw, node):
        return ('call', 'sum', tuple(self.frozen(x) for x in a))

    def x_chain(self, a, kw, node):
        es = []
        for x in a:
            es.extend(self.as_entries(x))
        return self.new_list(es)


MAXGUARDS = 1


def merge_guards(gs):
    """Disjunction of conjunctions of facts, simplified; intersected when it
    stays too large."""
    out = []
    for g in gs:
        if not any(set(h) == set(g) for h in out):
            out.append(list(g))
    if len(out) > 64:
        return [intersect(out) + [(('or', ()), True)]]
    again = True
    while again and len(out) > 1:
        again = False
        for i in range(len(out)):
            for j in range(len(out)):
                if i == j:
                    continue
                a, b = set(out[i]), set(out[j])
                if a <= b:
                    del out[j]
                    again = True
                    break
                # a & x, b & not x with a subset of b: drop not x from b
                for atom, val in a:
                    if (atom, not val) in b and \
                            a - {(atom, val)} <= b - {(atom, not val)}:
                        out[j] = [f for f in out[j] if f != (atom, not val)]
                        again = True
                        break
                if again:
                    break
            if again:
                break
    if len(out) > MAXGUARDS:
        c = intersect(out)
        rest = tuple(sorted((tuple(x for x in g if x not in c)
                             for g in out), key=repr))
        if len(rest) > 4 or sum(map(len, rest)) > 12:
            rest = ()
        return [c + [(('or', rest), True)]]
    return out


def intersect(gs):
    out = list(gs[0])
    for g in gs[1:]:
        s = set(g)
        out = [x for x in out if x in s]
    return out


def never_tuple(v):
    if v[0] == 'each':
        return v[1][0] in ('children', 'childtag', 'desc', 'findall',
                           'siblings')
    return True


def is_boolish(v):
    return v[0] in ('prim', 'call')


PURE_PRIMS = {'get_schema_node', 'get_xpath', '_get_list_keys', '_same_text',
              '_node_le', '_parse_text', '_get_sequence', '_url_to_prefix',
              '_pair_children', '_group_kids', 'default_in_use', '_is_peer',
              '_get_peers', 'convert_tag', 'convert_ns', '_get_ns',
              '_same_leaf_list', 'namespaces'}

IMPURE = {'get_nowait', 'popleft', 'choice', 'randint', 'random', 'shuffle',
          'time', 'now', 'readline', 'read', 'recv', 'urandom', 'sample'}

EXT_OK = {'deepcopy', 'copy', 'Element', 'SubElement', 'iselement',
          'partial', 'chain', 'OrderedDict', 'defaultdict'}


def _load(t):
    n = ast.copy_location(ast.parse('x', mode='eval').body, t)
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    elif isinstance(t, ast.Subscript):
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)


def assigned_names(stmts, targets):
    return None
