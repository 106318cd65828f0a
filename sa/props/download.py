"""Schema download: interruption (C17), workers and their queues (C18)."""
from ..engine import Engine
from ..load import AnalysisBroken
from ..query import *
from ..terms import C, NONE, TRUE, FALSE, contains, cv, is_c, show, subterms
from .calc import prims
from .device import SELF, heads
from .model import (_entries, once, over, params, undo, modfn, so, sall, arg,
                    there, files)

DL = 'ModelDownloader.'
CX = 'CompilerContext.'
CAPS = ('attr', SELF, 'yang_capabilities')
DIR = ('attr', SELF, 'dir_yang')
SERVER = ('attr', ('attr', SELF, 'device'), 'server_capabilities')
LOADABLE = 'ModelDevice.models_loadable'
CUT = ('item', 'slice', 'index')


def short(e):
    return (e.name or '').split('.')[-1]


def is_caps(t):
    return t == CAPS or t[0] == 'call' and contains(t, DIR) and contains(
        t, C('capabilities.txt')) or t[0] in ('call', 'ctor') and \
        len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1 and \
        is_caps(t[2][0])


def file_effect(e):
    """(what, file) for an event that changes the file system"""
    if e.kind != 'call':
        return None
    n = short(e)
    if n in ('remove', 'unlink', 'rmtree', 'removedirs'):
        t = e.args[0] if e.args else e.recv
        return ('remove', t) if t is not None else None
    if n == 'open':
        mode = e.args[1] if len(e.args) > 1 else e.kw.get('mode', C('r'))
        f = e.args[0] if e.args else e.recv
        if e.recv is not None and e.recv[0] == 'call' and e.args and \
                is_c(e.args[0]):
            f, mode = e.recv, e.args[0]
        if not is_c(mode):
            return ('write', f)
        if set(str(cv(mode))) & set('wax+'):
            return ('write', f)
        return None
    if n in ('write_text', 'write_bytes', 'touch'):
        return ('write', e.recv)
    if n in ('replace', 'rename', 'move', 'copy', 'copyfile') and \
            (e.name or '').split('.')[0] in ('os', 'shutil') and \
            len(e.args) > 1:
        return ('write', e.args[1])
    if n == 'write_xml' and e.args:
        return ('write', e.args[0])
    if n == 'write' and e.recv is not None and e.recv[0] == 'call' and \
            'ElementTree' in str(e.recv[1]) and e.args:
        return ('write', e.args[0])
    return None


def sequence(path, depth=0):
    """Events in order, (event, depth in loops)."""
    for e in path.events:
        if e.kind == 'loop':
            for b in list(e.bodies) + list(e.exits):
                for x in sequence(b, depth + 1):
                    yield x
            continue
        yield e, depth


def at(seq, pred):
    return [i for i, (e, d) in enumerate(seq) if pred(e)]


def is_put(e):
    return e.kind == 'call' and short(e) in ('put', 'put_nowait')


def is_start(e):
    return e.kind == 'call' and short(e) == 'start' and not e.args


def is_join(e):
    return e.kind == 'call' and short(e) == 'join' and not e.args and \
        not e.kw and e.recv is not None


# ----------------------------------------------------------------------
def c17(ck, prog, tier):
    texts = []
    ck.part(_need, ck, prog, texts)
    flags = set()
    ck.part(_flags, ck, prog, flags)
    ck.part(_all, ck, prog, texts, flags)
    ck.part(_rebuild, ck, prog)


def c18(ck, prog, tier):
    ck.part(_download, ck, prog)
    ck.part(_queue_all, ck, prog)
    ck.part(_worker_dl, ck, prog)
    ck.part(_worker_cx, ck, prog)
    ck.part(_load_context, ck, prog)
    ck.part(_record, ck, prog)


# ----------------------------------------------------------------------
# C17

def whole(t):
    """every capability goes into the text"""
    for x in subterms(t):
        if not x:
            continue
        if x[0] in CUT or x[0] in ('len', 'count') or x[0] == 'call' and x[1] in ('len', 'min', 'max',
                                                      'hash'):
            return False
        if x[0] == 'cont' and any(en[2] for en in x[2]):
            return False
    return True


@once
def _need(ck, prog, texts):
    fn = prog.method('ModelDownloader', 'need_download')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind == 'raise':
            ck.open('need_download raises when %s' % facts_text(p, 3))
            continue
        v = p.facts.const(p.value) if p.value is not None else NONE
        if not is_c(v):
            ck.open('need_download gives %s' % show(p.value)[:80])
            continue
        same_ = []
        for a, b in p.newfacts:
            if a[0] != 'eq' or not b:
                continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if contains(y, SERVER) and any(
                        s and s[0] == 'call' and s[1] in (
                            'open', 'read', 'read_text', 'readlines')
                        for s in subterms(x)):
                    same_.append((x, y))
        if cv(v):
            ck.req(not same_ or not all(whole(x) and whole(y)
                                        for x, y in same_), 'need/same',
                   'no download when the folder has the capabilities of the '
                   'device', 'need_download is %s although capabilities.txt '
                   'is what the device says (%s)' % (
                       show(p.value), facts_text(p, 3)[:200]))
            continue
        if not same_:
            ck.fail('need/differs', 'need_download is false without '
                    'capabilities.txt being compared for equality with the '
                    'capabilities of the device: when %s' %
                    facts_text(p, 3)[:300])
            continue
        for x, y in same_:
            ck.req(whole(x) and whole(y), 'need/whole',
                   'all capabilities are compared', 'need_download compares '
                   'only a part: %s with %s' % (show(x)[:80], show(y)[:80]))
            ck.req(any(is_caps(s) for s in subterms(x) if s) or None,
                   'need/file', 'the file compared is capabilities.txt')
            texts.append(y)


def failures(path):
    """what a path leaves behind in self: attributes set or lists grown"""
    out = set()
    for e in events(path):
        if e.kind == 'setattr' and e.recv == SELF and e.args:
            v = e.args[0]
            if is_c(v) and not cv(v):
                continue
            out.add(e.name)
        if e.kind in ('mut', 'call') and short(e) in ('append', 'add',
                                                     'put', 'set') and \
                e.recv is not None and e.recv[0] == 'attr' and \
                e.recv[1] == SELF and e.recv[2] not in (
                    'download_queue', 'to_be_downloaded'):
            out.add(e.recv[2])
    return out


RAISES = {'execute': '*', 'open': 'OSError', 'write': 'OSError'}


def download_paths(prog, ck, extra=()):
    fn = prog.method('ModelDownloader', 'download')
    r = dict(RAISES)
    r.update(extra)
    eng = Engine(prog, opaque={CX + 'update_dependencies'},
                 may_raise=lambda n: r.get(n))
    ps = eng.run(fn)
    ck.used(eng)
    return fn, ps


def origin(path):
    """the call whose exception ended the path or was caught on it"""
    out = []
    for e in events(path):
        if e.kind == 'caught' and e.args and is_c(e.args[0]):
            out.append((cv(e.args[0]), e.name))
    if path.kind == 'raise' and path.exc is not None and \
            path.exc.eargs and is_c(path.exc.eargs[0]):
        out.append((cv(path.exc.eargs[0]), path.exc.cls))
    return out


def run_marks(ck, prog):
    """attributes the worker itself sets when download() raises"""
    fn = prog.lookup('DownloadWorker', 'run')
    if fn is None:
        return set()
    eng = Engine(prog, opaque={DL + 'download'},
                 may_raise=lambda n: {'download': '*'}.get(n))
    out = None
    for l in distinct_loops(eng.run(fn)):
        for b in list(l.bodies) + list(l.exits):
            if any(n == 'download' for n, c in origin(b)):
                s = set()
                for e in events(b):
                    if e.kind == 'setattr' and e.args and not (
                            is_c(e.args[0]) and not cv(e.args[0])):
                        s.add(e.name)
                    if e.kind in ('mut', 'call') and short(e) in (
                            'append', 'add') and e.recv is not None and \
                            e.recv[0] == 'attr':
                        s.add(e.recv[2])
                out = s if out is None else out & s
    ck.used(eng)
    return out or set()


@once
def _flags(ck, prog, flags):
    fn, ps = download_paths(prog, ck)
    outer = run_marks(ck, prog)
    common = None
    bad = []
    for p in ps:
        o = origin(p)
        if not o:
            continue
        what, cls = o[0]
        if what not in RAISES:
            continue
        got = failures(p)
        if p.kind == 'raise':
            got |= outer
        if what == 'execute' and cls == 'RPCError':
            ck.req(not got, 'flag/refused',
                   'a schema the device refuses does not make a download '
                   'incomplete', 'download() marks the download with %s when '
                   'the device refuses a schema: it never becomes complete'
                   % ', '.join(sorted(got)))
            continue
        if what == 'execute' and cls not in ('*', 'Exception'):
            # one kind of exception has a handler of its own
            pass
        ck.req(bool(got), 'flag/' + what, 'a schema that is neither saved '
               'nor refused is remembered (%s)' % what,
               'download(): an exception of %s() (%s) leaves no trace: the '
               'download is taken as complete' % (what, cls))
        if got:
            common = got if common is None else common & got
    if common is None:
        ck.open('flag: no exception of a request is handled')
        return
    flags |= common
    ck.req(bool(common) or None, 'flag/one', 'failures are remembered in one '
           'place')


ALL_OPAQUE = {LOADABLE, DL + 'need_download', CX + 'write_dependencies',
              DL + 'download', CX + 'update_dependencies'}


def all_paths(ck, prog):
    fn = prog.method('ModelDownloader', 'download_all')
    eng = Engine(prog, opaque=ALL_OPAQUE, may_raise=lambda n: {
        'models_loadable': '*', 'remove': 'OSError'}.get(n))
    ps = eng.run(fn)
    ck.used(eng)
    return fn, ps


def cleaned(path):
    """(index in path.events, ok) of the loop that empties the folder"""
    for i, e in enumerate(path.events):
        if e.kind == 'call' and short(e) == 'rmtree' and e.args and \
                e.args[0] == DIR:
            return i, True
        if e.kind != 'loop' or not contains(e.recv, DIR):
            continue
        r = [x[1] for x in subterms(e.recv) if x and x[0] == 'call']
        if not any(str(n).split('.')[-1] in (
                'walk', 'listdir', 'scandir', 'glob', 'iglob', 'iterdir',
                'rglob') for n in r):
            continue
        if not may(path_of(e), lambda x: (file_effect(x) or ' ')[0] ==
                   'remove'):
            continue
        return i, empties(e)
    return None, None


class _P(object):
    def __init__(self, ev):
        self.events = ev


def path_of(e):
    return _P([e])


def empties(loop):
    """Every file the loop meets is removed; None: not known, str: how it
    is not."""
    walk = any(x and x[0] == 'call' and str(x[1]).split('.')[-1] == 'walk'
               for x in subterms(loop.recv))
    if any(b.kind != 'raise' for b in loop.exits):
        return 'the loop may end early'
    for b in loop.bodies:
        inner = [e for e in b.events if e.kind == 'loop']
        if walk and inner:
            fs = [l for l in inner if any(
                x and x[0] == 'item' and x[2] in (2, C(2))
                for x in subterms(l.recv))]
            if not fs:
                return 'files of the folder are not gone through'
            for l in fs:
                r = empties_files(l)
                if r is not True:
                    return r
            continue
        if walk:
            return None
        r = removes(b)
        if r is not True:
            return r
    return True


def empties_files(l):
    if any(b.kind != 'raise' for b in l.exits):
        return 'the loop may end early'
    for b in l.bodies:
        r = removes(b)
        if r is not True:
            return r
    # files that a filter leaves out
    c, x, g = over(l)
    for a, v in flatguard(g):
        if not harmless(a, v):
            return 'files are kept when not %s' % show(a)[:60]
    return True


def harmless(a, v):
    """what may keep a file from being removed: it is capabilities.txt, or
    it is no file"""
    return 'capabilities' in repr(a) or any(
        x and x[0] == 'call' and str(x[1]).split('.')[-1] in
        ('isfile', 'is_file', 'isdir', 'is_dir', 'exists', 'islink')
        for x in subterms(a))


def removes(b):
    if must(b, lambda x: (file_effect(x) or ' ')[0] == 'remove'):
        return True
    bad = [(a, v) for a, v in b.newfacts if not harmless(a, v)]
    if not bad and b.newfacts:
        return True
    return 'a file is kept when %s' % facts_text(b, 3)[:120]


@once
def _all(ck, prog, texts, flags):
    fn, ps = all_paths(ck, prog)
    check = params(fn)[0]
    need = None
    n = 0
    for p in ps:
        seq = list(sequence(p))
        eff = at(seq, lambda e: file_effect(e) or is_put(e) or is_start(e))
        nd = [v for a, v in p.newfacts if a[0] == 'truthy' and
              prims(a[1], 'need_download')]
        ch = [v for a, v in p.newfacts if a == ('truthy', check)]
        skip = nd == [False]
        if skip:
            ck.req(ch == [True], 'all/force', 'without checking, everything '
                   'is downloaded', 'download_all() does nothing although '
                   'check_before_download is not set')
            ck.req(not eff, 'all/skip', 'nothing is touched when no '
                   'download is needed', 'download_all(): %r although no '
                   'download is needed' % (seq[eff[0]][0] if eff else ''))
            continue
        if not eff:
            ck.req(None if p.kind == 'raise' else False, 'all/download',
                   'a download takes place unless capabilities.txt is that '
                   'of the device', 'download_all() does nothing when %s' %
                   facts_text(p, 3)[:200])
            continue
        n += 1
        # 1. the mark goes first
        gone = [v for a, v in p.newfacts if a[0] == 'truthy' and
                a[1][0] == 'call' and str(a[1][1]).split('.')[-1] in (
                    'isfile', 'exists', 'is_file') and any(
                        is_caps(x) for x in subterms(a[1]) if x)]
        rm = at(seq, lambda e: (file_effect(e) or ' ')[0] == 'remove' and
                is_caps(file_effect(e)[1]))
        ck.req(bool(rm) or bool(gone) and not gone[-1], 'all/unmark',
               'capabilities.txt is removed before a download',
               'download_all() downloads without removing '
               'capabilities.txt first when %s' % facts_text(p, 3)[:200])
        if rm:
            ck.req(rm[0] == eff[0] and seq[rm[0]][1] == 0, 'all/first',
                   'capabilities.txt goes before any other file',
                   'download_all() changes the folder (%r) while '
                   'capabilities.txt still says that it is complete' %
                   (seq[eff[0]][0],))
        wr = at(seq, lambda e: (file_effect(e) or ' ')[0] == 'write' and
                is_caps(file_effect(e)[1]))
        jn = at(seq, is_join)
        st = at(seq, is_start)
        if p.kind == 'raise':
            ck.req(not wr or bool(jn) and wr[0] > jn[0], 'all/raise',
                   'a download that fails leaves no capabilities.txt',
                   'download_all() writes capabilities.txt although it '
                   'raises %s' % (p.exc.cls if p.exc else ''))
            continue
        # 2. nothing stays from before
        i, ok = cleaned(p)
        if ok is None:
            left = at(seq, lambda e: (file_effect(e) or ' ')[0] == 'remove'
                      and not is_caps(file_effect(e)[1]))
            ck.req(None if left else False, 'all/clean', 'files of the '
                   'previous download are removed', 'download_all() keeps '
                   'the files of the previous download')
        else:
            ck.req(ok is True, 'all/clean', 'files of the previous download '
                   'are removed', 'download_all(): %s' % ok)
            k = [j for j, e in enumerate(p.events)
                 if any(is_start(x) for x in events(_P([e])))]
            ck.req(not k or i < k[0], 'all/cleanfirst', 'old files go before '
                   'new ones come', 'download_all() removes files after '
                   'workers were started')
        # 3. the mark comes last
        for w in wr:
            ck.req(bool(jn) and jn[-1] < w, 'all/last', 'capabilities.txt '
                   'is written after the last schema', 'download_all() '
                   'writes capabilities.txt before all schemas have been '
                   'downloaded')
        facts = [(a, v) for a, v in p.newfacts]
        if flags:
            clear = [f for f in flags if fine(facts, f)]
            if wr:
                ck.req(bool(clear), 'all/failed', 'capabilities.txt is '
                       'written only if no schema is missing',
                       'download_all() writes capabilities.txt whether or '
                       'not %s says that a schema could not be downloaded' %
                       ' or '.join('self.' + f for f in sorted(flags)))
            else:
                ck.req(not clear or len(facts) > 6 and None, 'all/mark',
                       'a complete download is marked', 'download_all() '
                       'writes no capabilities.txt although nothing failed: '
                       'when %s' % facts_text(p, 4)[:200])
            reset = at(seq, lambda e: e.kind == 'setattr' and
                       e.recv == SELF and e.name in flags)
            old = [i for i in reset if contains(
                seq[i][0].args[0], ('attr', SELF, seq[i][0].name))]
            ck.req(bool(reset) and (not st or reset[0] < st[0]) and
                   not old, 'all/reset', 'failures of an earlier download are '
                   'forgotten', 'download_all() does not reset %s before '
                   'workers are started' % ', '.join(
                       'self.' + f for f in sorted(flags)))
        if wr:
            said = [y for e, d in seq if e.kind == 'call' and short(e) in (
                'write', 'write_text', 'write_bytes') and e.args and
                contains(e.args[0], SERVER) for y in [e.args[0]]]
            ck.req(bool(said) or None, 'all/text', 'the capabilities of the '
                   'device are written')
            for y in said:
                while y[0] == 'call' and y[1] == 'encode':
                    y = y[2][0]
                ck.req(any(same(y, t) for t in texts) or (
                    None if whole(y) else False), 'all/same',
                    'what is written is what need_download looks for',
                    'download_all() writes %s, need_download compares with '
                    '%s' % (show(y)[:100],
                            show(texts[0])[:100] if texts else '?'))
    ck.req(n > 0, 'all/any', 'download_all downloads', 'download_all() '
           'never downloads')


def fine(facts, f):
    """the facts say that attribute f has recorded no failure"""
    t = ('attr', SELF, f)
    for a, v in facts:
        if a == ('truthy', t) and not v:
            return True
        if a[0] == 'eq' and t in a[1:] and v and any(
                is_c(x) and not cv(x) for x in a[1:]):
            return True
        if a[0] == 'eq' and t in a[1:] and not v and TRUE in a[1:]:
            return True
        if a[0] == 'len>=' and a[1] == t and a[2] == 1 and not v:
            return True
        if a[0] == 'truthy' and not v and a[1][0] == 'call' and \
                a[1][1] in ('is_set', 'len', 'any') and contains(a[1], t):
            return True
    return False


@once
def _rebuild(ck, prog):
    """A file of the folder that is damaged counts as missing."""
    fn = modfn(prog, 'read_xml')
    eng = Engine(prog, may_raise=lambda n: {
        'parse': '*', 'getroot': None, 'fromstring': '*'}.get(n))
    ps = eng.run(fn)
    ck.used(eng)
    seen = 0
    for p in ps:
        if p.kind == 'raise':
            ck.fail('rebuild/damaged', 'read_xml() raises %s when a file of '
                    'the folder is damaged: an interrupted write cannot be '
                    'recovered from' % (p.exc.cls if p.exc else ''))
            continue
        o = [x for x in origin(p) if x[0] in ('parse', 'fromstring')]
        if o:
            seen += 1
            ck.req(p.value == NONE, 'rebuild/none', 'a damaged file counts '
                   'as missing', 'read_xml() gives %s for a damaged file' %
                   show(p.value)[:60])
    ck.req(seen > 0 or None, 'rebuild/seen', 'damaged files are considered')
    fn = prog.method('ModelCompiler', 'build_dependencies')
    eng = Engine(prog, opaque={'read_xml', 'model.read_xml',
                               CX + 'load_context', CX + '__init__'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind == 'raise':
            continue
        load = any(e.kind == 'call' and short(e) == 'load_context'
                   for e in events(p))
        read = [a for a, v in p.newfacts if a[0] == 'eq' and NONE in a[1:]
                and any(prims(x, 'read_xml') for x in a[1:])]
        if read:
            missing = dict(p.newfacts)[read[0]]
        elif load or not any(e.kind == 'call' and short(e) == 'read_xml'
                             for e in events(p)):
            continue
        else:
            missing = True
        if True:
            ck.req(load == missing, 'rebuild/deps', 'dependencies are '
                   'worked out again when there are none (missing: %s)' %
                   missing, 'build_dependencies() %s the YANG files when '
                   'the dependencies file is %s' % (
                       'parses' if load else 'does not parse',
                       'missing or damaged' if missing else 'there'))


# ----------------------------------------------------------------------
# C18


def new_modules(loop, deps):
    """How the loop singles out the modules not known yet: 'minus' (it goes
    through the difference), 'test' (each is looked up), None."""
    r, x, g = over(loop)
    if r[0] == 'bin' and r[1] == '-' and prims(r[2], deps) and \
            contains(r[3], ('attr', SELF, 'to_be_downloaded')):
        return 'minus', x
    if r[0] == 'call' and r[1] == 'difference' and contains(
            r, ('attr', SELF, 'to_be_downloaded')) and prims(r[2][0], deps):
        return 'minus', x
    if prims(r, deps):
        known = known_fact(flatguard(g), x)
        if known is False:
            return 'minus', x
        return 'test', x
    return None, x


def known_fact(facts, x):
    """is x among the modules asked for already?"""
    for a, v in facts:
        if a[0] == 'in' and a[1] == x and contains(
                a[2], ('attr', SELF, 'to_be_downloaded')):
            return v
    return None


def grows(e, x, whole_, p=None):
    """event adds module x to what is asked for already"""
    if e.kind not in ('mut', 'call', 'setattr', 'augassign'):
        return False
    T = ('attr', SELF, 'to_be_downloaded')
    if e.kind == 'setattr':
        return e.recv == SELF and e.name == 'to_be_downloaded' and \
            any(contains(a, x) or whole_ is not None and contains(a, whole_)
                for a in e.args)
    if e.recv != T or short(e) not in ('add', 'update', '|=', '__ior__',
                                       'union_update'):
        return False
    return any(a == x or whole_ is not None and same(undo(a), whole_) or
               contains(a, x) or p is not None and any(
                   v == x for v, g in _entries(p, a) or ())
               for a in e.args)


@once
def _download(ck, prog):
    fn, ps = download_paths(prog, ck)
    mod = params(fn)[0]
    done = 0
    for p in ps:
        ex = [e for e in events(p) if e.kind == 'call' and
              short(e) == 'execute']
        ask = [e for e in ex if any('GetSchema' in repr(a) for a in e.args)]
        ck.req(bool(ask) or None if murky(p) else bool(ask), 'get/ask',
               'the schema is asked for', 'download() sends no <get-schema> '
               'when %s' % facts_text(p, 3)[:150])
        if not ask:
            continue
        ck.req(any(contains(a, mod) for a in list(ask[0].args) + list(
            ask[0].kw.values())), 'get/name', 'the module asked for is the '
            'one wanted', 'download() asks for %r' % ask[0])
        if origin(p) or p.kind == 'raise':
            continue
        data = ('attr', ask[0].res, 'data')
        ok = [v for a, v in p.newfacts if a == (
            'truthy', ('attr', ask[0].res, 'ok'))]
        w = [file_effect(e) for e in events(p) if file_effect(e)]
        if ok == [False]:
            ck.req(not w, 'get/bad', 'nothing is saved when the reply is an '
                   'error', 'download() writes %s although the reply is not '
                   'ok' % (show(w[0][1])[:60] if w else ''))
            continue
        done += 1
        f = [t for k, t in w if k == 'write']
        ck.req(any(contains(t, DIR) and contains(t, mod) and '.yang' in
                   repr(t) for t in f), 'get/file', 'the schema is saved in '
               'the folder under its name', 'download() does not save the '
               'schema as <folder>/<module>.yang when %s' %
               facts_text(p, 3)[:150])
        ws = [e for e in events(p) if e.kind == 'call' and short(e) in (
            'write', 'write_text', 'write_bytes') and e.args]
        ck.req(any(text_of(e.args[0], data) for e in ws) or
               (None if not ws else False), 'get/text', 'all of the schema '
               'is saved', 'download() saves %s' % (
                   show(ws[0].args[0])[:80] if ws else ''))
        for e in ws:
            for x in subterms(e.args[0]):
                if x and x[0] == 'call' and x[1] == 'encode':
                    enc = [a for a in x[2][1:]] or [C('utf-8')]
                    ck.req(is_c(enc[0]) and str(cv(enc[0])).lower().replace(
                        '-', '') == 'utf8', 'get/utf8', 'schemas are saved '
                        'in UTF-8', 'download() saves the schema as %s' %
                        show(enc[0]))
        am = [e for e in events(p) if e.kind == 'call' and
              short(e) == 'add_module']
        ck.req(any(contains(x, data) for e in am for x in list(e.args) +
                   list(e.kw.values())), 'get/parse', 'the schema is '
               'parsed', 'download() does not parse the schema when %s' %
               facts_text(p, 3)[:150])
        ud = [e for e in events(p) if e.kind == 'call' and
              short(e) == 'update_dependencies']
        if am and not ud:
            r = am[0].res
            lost = dict(p.newfacts).get(('eq', r, NONE)) or dict(
                p.newfacts).get(('truthy', r)) is False
            ck.req(bool(lost), 'get/deps', 'dependencies are recorded',
                   'download() does not record the dependencies of the '
                   'schema when %s' % facts_text(p, 3)[:150])
            continue
        if not ud:
            continue
        ck.req(am and any(a == am[0].res for a in ud[0].args) or None,
               'get/deps', 'dependencies are recorded')
        _closure(ck, p, ud[0])
    ck.req(done > 0, 'get/any', 'schemas are downloaded', 'download() never '
           'saves a schema')


def text_of(t, data):
    while t != data and t[0] == 'call' and t[1] in ('encode', 'str',
                                                    'bytes'):
        t = t[2][0]
    return t == data


def _closure(ck, p, ud):
    """Modules the schema requires are queued unless they are already."""
    deps = 'update_dependencies'
    at_loop = [(i, e) for i, e in enumerate(p.events) if e.kind == 'loop'
               and any(is_put(x) for x in events(_P([e])))]
    if not at_loop:
        # nothing is new: the path has to say so
        empty = any(nothing_new(a, v, deps) for a, v in p.newfacts)
        ck.req(empty or (None if murky(p) else False), 'closure/queue',
               'modules required by a schema are queued', 'download() does '
               'not queue the modules that a schema requires when %s' %
               facts_text(p, 3)[:200])
        return
    for i, l in at_loop:
        how, x = new_modules(l, deps)
        if how is None:
            ck.req(None, 'closure/what', 'what is queued: %s' %
                   show(l.recv)[:80])
            continue
        if how == 'minus':
            wholeset = undo(l.recv)
            ok = all(must(b, lambda e: is_put(e) and e.args and
                          e.args[0] == x) for b in l.bodies) and l.exh
            ck.req(bool(ok), 'closure/each', 'each module required and not '
                   'asked for yet is queued', 'download() leaves out '
                   'modules that a schema requires')
            g = any(grows(e, x, wholeset, p) for e in events(p))
            ck.req(g, 'closure/once', 'modules are asked for once',
                   'download() queues required modules without adding them '
                   'to to_be_downloaded: they are downloaded again and '
                   'again')
        else:
            for b in list(l.bodies) + [
                    b for b in l.exits if b.kind != 'raise']:
                k = known_fact(b.newfacts, x)
                put = must(b, lambda e: is_put(e) and e.args and
                           e.args[0] == x)
                if k:
                    ck.req(not put, 'closure/again', 'modules are asked for '
                           'once', 'download() queues a module that has '
                           'been queued already: modules that import each '
                           'other are downloaded forever')
                elif k is False:
                    ck.req(put, 'closure/each', 'each module required and '
                           'not asked for yet is queued', 'download() '
                           'leaves out a module that a schema requires '
                           'when %s' % facts_text(b, 3)[:150])
                    ck.req(any(grows(e, x, None) for e in events(b)) or
                           any(grows(e, x, undo(l.recv))
                               for e in p.events), 'closure/once',
                           'modules are asked for once', 'download() '
                           'queues required modules without adding them to '
                           'to_be_downloaded')
                elif put:
                    ck.fail('closure/again', 'download() queues required '
                            'modules whether or not they have been queued '
                            'already: modules that import each other are '
                            'downloaded forever')
                else:
                    ck.fail('closure/each', 'download() leaves out a module '
                            'that a schema requires when %s' %
                            facts_text(b, 3)[:150])


def nothing_new(a, v, deps):
    t = None
    if a[0] == 'truthy' and not v or a[0] == 'len>=' and a[2] == 1 and \
            not v:
        t = a[1]
    if t is None:
        return False
    t = undo(t)
    return bool(prims(t, deps))


@once
def _queue_all(ck, prog):
    fn, ps = all_paths(ck, prog)
    n = 0
    for p in ps:
        if p.kind == 'raise':
            continue
        seq = list(sequence(p))
        st, jn, pt = at(seq, is_start), at(seq, is_join), at(seq, is_put)
        if not at(seq, file_effect) and not st and not pt:
            continue
        n += 1
        ok = None
        for e in p.events:
            if e.kind != 'loop' or not any(
                    is_put(x) for x in events(_P([e]))):
                continue
            r, x, g = over(e)
            src = [y for y in subterms(e.recv) if y and y[0] == 'prim' and
                   y[1].endswith('models_loadable')]
            if not src and not any(
                    y == ('attr', SELF, 'to_be_downloaded')
                    for y in subterms(e.recv)):
                continue
            full = not g and whole(e.recv) and not [
                b for b in e.exits if b.kind != 'raise'] and all(
                    must(b, lambda z: is_put(z) and z.args and
                         each_of(z.args[0], e)) for b in e.bodies)
            ok = full
        ck.req(ok if ok is not None else (None if pt else False),
               'queue/all', 'every model of the device is queued',
               'download_all() does not queue every model in '
               'models_loadable')
        tb = [e for e, d in seq if e.kind == 'setattr' and e.recv == SELF and
              e.name == 'to_be_downloaded']
        ck.req(bool(tb) and any(prims(a, 'models_loadable')
                                for e in tb for a in e.args) or
               (None if tb else False), 'queue/known', 'queued models are '
               'remembered', 'download_all() does not set to_be_downloaded '
               'to what it queues')
        ck.req(bool(st), 'queue/workers', 'workers are started',
               'download_all() starts no worker when %s' %
               facts_text(p, 3)[:150])
        if not st:
            continue
        ck.req(all(i < st[0] for i in pt if top_put(seq, i)), 'queue/first',
               'models are queued before workers start (they end when the '
               'queue is empty)', 'download_all() starts a worker before '
               'the models are queued: it may end at once')
        ck.req(bool(jn) and jn[-1] > st[-1], 'queue/join', 'the end of the '
               'download is waited for', 'download_all() does not wait for '
               'the queue to be worked off')
        q = {noep(seq[i][0].recv) for i in pt}
        js = [seq[i][0].recv for i in jn]
        ck.req(any(noep(j) in q for j in js) or None, 'queue/same', 'the '
               'queue waited for is the one that is filled')
        wd = at(seq, lambda e: e.kind == 'call' and
                short(e) == 'write_dependencies')
        for i in wd:
            ck.req(bool(jn) and jn[-1] < i, 'queue/deps', 'dependencies are '
                   'written when all schemas are there', 'download_all() '
                   'writes dependencies before all schemas have been '
                   'downloaded')
        dp = at(seq, lambda e: e.kind == 'setattr' and
                e.name == 'dependencies')
        ck.req(bool(dp) and dp[0] < st[0], 'queue/fresh', 'dependencies of '
               'an earlier download are forgotten before workers start',
               'download_all() does not begin with empty dependencies '
               'before workers are started')
        _workers(ck, prog, 'ModelDownloader', p, 'download_all()')
    ck.req(n > 0, 'queue/any', 'download_all downloads', 'download_all() '
           'never downloads')


def top_put(seq, i):
    return True


def each_of(t, loop):
    r, x, g = over(loop)
    return t == x or t[0] == 'each' and (
        undo(t[1]) == r or contains(t, r)) or contains(
            t, x) and t[0] in ('str',) or t[0] == 'each' and \
        undo(t[1]) == undo(loop.recv)


def _workers(ck, prog, cls, p, who):
    """at least one worker is started"""
    for e in p.events:
        if is_start(e):
            ck.req(True, 'workers/some', 'at least one worker is started')
            return
    for e in p.events:
        if e.kind != 'loop' or not any(is_start(x)
                                       for x in events(_P([e]))):
            continue
        if not all(must(b, is_start) for b in e.bodies):
            ck.req(None, 'workers/some', 'whether a worker is started')
            return
        ns = [x for x in subterms(e.recv) if x and x[0] == 'attr' and
              x[1] == SELF]
        cs = [x for x in subterms(e.recv) if x and is_c(x) and isinstance(
            cv(x), int) and not isinstance(cv(x), bool)]
        if ns:
            vals = stored_consts(prog, cls, ns[0][2])
            bad = [v for v in vals if not (isinstance(v, int) and v > 0)]
            ck.req(None if not vals or any(v is None for v in vals) else
                   not bad, 'workers/some', 'at least one worker is '
                   'started', '%s starts self.%s workers, which can be %s'
                   % (who, ns[0][2], bad))
        elif cs and e.recv[0] == 'range' or e.recv[0] == 'call' and \
                e.recv[1] == 'range':
            ck.req(max(cv(x) for x in cs) > 0, 'workers/some', 'at least '
                   'one worker is started', '%s starts no worker' % who)
        return


def stored_consts(prog, cls, name):
    import ast
    out = []
    for c in prog.mro(cls):
        for n in ast.walk(c.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Attribute) and t.attr == name
                    for t in n.targets):
                out.append(n.value.value if isinstance(n.value, ast.Constant)
                           else None)
        if name in c.attrs:
            v = c.attrs[name]
            out.append(v.value if isinstance(v, ast.Constant) else None)
    return out


def _worker(ck, prog, cls, opaque, raises, jobs, what):
    fn = prog.lookup(cls, 'run')
    if fn is None:
        ck.open('%s.run is not there' % cls)
        return
    r = {'get': 'Empty', 'get_nowait': 'Empty'}
    r.update(raises)
    eng = Engine(prog, opaque=opaque, may_raise=lambda n: r.get(n))
    ps = eng.run(fn)
    ck.used(eng)
    seen = 0
    steps = []
    for l in distinct_loops(ps):
        steps += [(b, True) for b in l.bodies] + [
            (b, False) for b in l.exits]
    for b, again in steps:
        ev = [e for e in events(b) if e.kind != 'loop']
        gets = [i for i, e in enumerate(ev) if e.kind == 'call' and
                short(e) in ('get', 'get_nowait') and is_queue(e)]
        if not gets and b.kind not in ('raise',):
            continue
        o = origin(b)
        failed = sum(1 for n, c in o if n in ('get', 'get_nowait'))
        got = len(gets) - failed
        dones = [i for i, e in enumerate(ev) if e.kind == 'call' and
                 short(e) == 'task_done']
        when = 'an exception of %s()' % o[-1][0] if o and \
            o[-1][0] not in ('get', 'get_nowait') else \
            'an empty queue' if failed else 'no exception'
        ck.req(len(dones) == got, '%s/done' % what, 'each item is marked as '
               'done once (%s)' % when, '%s.run: %d items taken, %d marked '
               'as done with %s: %s' % (
                   cls, got, len(dones), when,
                   'join() never returns' if len(dones) < got else
                   'task_done() is called too often'))
        if b.kind == 'raise':
            ck.fail('%s/alive' % what, '%s.run ends with %s: the remaining '
                    'items are not worked off and join() never returns' %
                    (cls, when))
            continue
        if not got:
            continue
        seen += 1
        js = [i for i, e in enumerate(ev) if e.kind == 'call' and
              short(e) in jobs]
        if not o:
            item = ev[gets[-1]].res
            ck.req(any(contains(a, item) for i in js for a in
                       list(ev[i].args) + list(ev[i].kw.values())) or
                   (None if murky(b) else False), '%s/work' % what,
                   'each item is worked on', '%s.run does not work on an '
                   'item it has taken when %s' % (cls,
                                                  facts_text(b, 3)[:120]))
        ck.req(not js or not dones or dones[0] > js[-1], '%s/order' % what,
               'an item is marked as done after it has been worked on',
               '%s.run marks an item as done before it has been worked on: '
               'join() returns too early' % cls)
        if not again and b.kind in ('break', 'return'):
            ck.fail('%s/stops' % what, '%s.run stops after an item with '
                    '%s while others may be in the queue' % (cls, when))
    for l in distinct_loops(ps):
        if not any(short(e) in ('get', 'get_nowait') and is_queue(e)
                   for e in events(_P([l])) if e.kind == 'call'):
            continue
        for p in ps:
            if p.kind != 'return':
                continue
            ck.req(ended(p, l), '%s/empty' % what, 'a worker ends when the '
                   'queue is empty', '%s.run ends when %s' % (
                       cls, facts_text(p, 3)[:150]))
    ck.req(seen > 0, '%s/takes' % what, 'workers take items',
           '%s.run takes no item from its queue' % cls)
    return ps


def is_queue(e):
    r = e.recv
    return r is not None and (r[0] == 'attr' and 'queue' in str(r[2]).lower()
                              or r[0] == 'call' and 'Queue' in str(r[1]) or
                              not e.args or not is_c(e.args[0]))


def ended(p, loop):
    """the path says that the queue was empty"""
    for a, v in p.newfacts:
        if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == 'empty':
            return bool(v)
        if any(x and x[0] == 'call' and x[1] == 'qsize'
               for x in subterms(a)):
            return True
    for b in loop.exits:
        if b.kind in ('break', 'return'):
            if not any(n in ('get', 'get_nowait') for n, c in origin(b)):
                f = [v for a, v in b.newfacts if a[0] == 'truthy' and
                     a[1][0] == 'call' and a[1][1] == 'empty']
                if not f or not f[0]:
                    return False
    if any(b.kind in ('break', 'return') for b in loop.exits):
        return True
    return None


@once
def _worker_dl(ck, prog):
    _worker(ck, prog, 'DownloadWorker', {DL + 'download'},
            {'download': '*'}, ('download',), 'download worker')


@once
def _worker_cx(ck, prog):
    ps = _worker(ck, prog, 'ContextWorker', {CX + 'update_dependencies'},
                 {'open': 'OSError', 'read': 'UnicodeDecodeError',
                  'add_module': '*', 'update_dependencies': '*'},
                 ('open', 'add_module', 'update_dependencies'),
                 'context worker')
    for l in distinct_loops(ps or []):
        for b in l.bodies:
            if origin(b):
                continue
            am = [e for e in events(b) if e.kind == 'call' and
                  short(e) == 'add_module']
            if not am:
                continue
            r = am[0].res
            f = dict(b.newfacts)
            lost = f.get(('eq', r, NONE)) or f.get(('truthy', r)) is False
            ud = [e for e in events(b) if e.kind == 'call' and
                  short(e) == 'update_dependencies']
            ck.req(bool(lost) or any(a == r for e in ud for a in e.args),
                   'context worker/record', 'dependencies of each file are '
                   'recorded', 'ContextWorker.run does not record the '
                   'dependencies of a file when %s' %
                   facts_text(b, 3)[:150])
            ck.req(any(x and x[0] == 'call' and x[1] in (
                'read', 'read_text') for k in list(am[0].kw.values()) +
                list(am[0].args) for x in subterms(k)) or None,
                'context worker/text', 'files are parsed')


@once
def _load_context(ck, prog):
    fn = prog.method('CompilerContext', 'load_context')
    eng = Engine(prog, opaque={CX + 'write_dependencies'})
    ps = eng.run(fn)
    ck.used(eng)
    for p in ps:
        if p.kind == 'raise':
            continue
        seq = list(sequence(p))
        st, jn, pt = at(seq, is_start), at(seq, is_join), at(seq, is_put)
        ck.req(bool(st), 'context/workers', 'workers are started',
               'load_context() starts no worker')
        ck.req(bool(pt), 'context/queue', 'files are queued',
               'load_context() queues nothing')
        if not st or not pt:
            continue
        ck.req(pt[-1] < st[0], 'context/first', 'files are queued before '
               'workers start (they end when the queue is empty)',
               'load_context() starts a worker before files are queued: it '
               'may end at once')
        ck.req(bool(jn) and jn[-1] > st[-1], 'context/join', 'the end of '
               'the parsing is waited for', 'load_context() does not wait '
               'for the queue to be worked off')
        dp = at(seq, lambda e: e.kind == 'setattr' and
                e.name == 'dependencies')
        ck.req(bool(dp) and dp[0] < st[0], 'context/tree', 'the dependency '
               'tree is there before workers start', 'load_context() does '
               'not create the dependency tree before workers start')
        wd = at(seq, lambda e: e.kind == 'call' and
                short(e) == 'write_dependencies')
        ck.req(bool(wd) and bool(jn) and wd[0] > jn[-1], 'context/write',
               'dependencies are written when all files are parsed',
               'load_context() writes the dependencies before all files '
               'are parsed, or not at all')
        _workers(ck, prog, 'CompilerContext', p, 'load_context()')
        for l in p.events:
            if l.kind != 'loop' or not any(is_put(x)
                                           for x in events(_P([l]))):
                continue
            r, x, g = over(l)
            if not any(y and y[0] == 'call' and str(y[1]).split('.')[-1] in (
                    'listdir', 'scandir', 'walk', 'glob', 'iglob')
                    for y in subterms(l.recv)):
                ck.req(None, 'context/files', 'which files are queued')
                continue
            bad = [b for b in l.exits if b.kind != 'raise']
            ck.req(not bad, 'context/all', 'all files are considered',
                   'load_context() stops before the last file when %s' %
                   (facts_text(bad[0], 2)[:100] if bad else ''))
            for b in l.bodies:
                puts = [e for e in events(b) if is_put(e)]
                yang = [v for a, v in list(b.newfacts) + flatguard(g)
                        if '.yang' in repr(a)]
                other = [a for a, v in list(b.newfacts) + flatguard(g)
                         if '.yang' not in repr(a)]
                if puts:
                    ck.req(contains(puts[0].args[0], x), 'context/put',
                           'each file itself is queued', 'load_context() '
                           'queues %s' % show(puts[0].args[0])[:80])
                    ck.req(not other or None, 'context/any', 'all YANG '
                           'files are queued')
                else:
                    ck.req(yang == [False] or not yang and None,
                           'context/all', 'all YANG files are queued',
                           'load_context() leaves out a YANG file when %s' %
                           facts_text(b, 3)[:150])


RECORD = [('includes', 'include', 'module'), ('imports', 'import', 'module'),
          ('revisions', 'revision', 'date'),
          ('augments', 'augment', 'xpath'),
          ('deviations', 'deviation', 'xpath')]


@once
def _record(ck, prog):
    fn = prog.method('CompilerContext', 'update_dependencies')
    eng = Engine(prog)
    ps = eng.run(fn)
    ck.used(eng)
    M = params(fn)[0]
    seen = set()
    for p in ps:
        if p.kind == 'raise':
            continue
        _record_path(ck, p, M, seen)


def kids_of(evs, parent, tag=None):
    return [e.recv for e in evs if e.kind == 'newelem' and
            e.recv is not None and e.args and e.args[0] == parent and
            (tag is None or e.recv[2] == C(tag))]


def attr_of(evs, node, name):
    v = [e.args[1] if e.kind == 'attrset' else None for e in evs
         if e.kind in ('attrset', 'attrdel') and e.recv == node and
         e.args[0] == C(name)]
    return v[-1] if v else None


def _record_path(ck, p, M, seen):
    evs = [e for e in p.events if e.kind != 'loop']
    ids = [e.recv for e in evs if e.kind == 'attrset' and
           e.args[0] == C('id')]
    if not ids:
        ck.req(None if murky(p) else False, 'record/id', 'each module has a '
               'record', 'update_dependencies() makes no record when %s' %
               facts_text(p, 3)[:150])
        return
    n = ids[-1]
    f = p.facts

    def want(name, val, cell, txt, node=n):
        if not consistent(p, cell) or not all(f.test(a) == v
                                              for a, v in cell):
            return
        got = attr_of(evs, node, name)
        ck.req(got == val or got is not None and f.test(
            ('eq', got, val)) or (None if got is not None and not decided_(
                got) else False), 'record/' + name, txt,
            'update_dependencies(): %s is %s, expected %s' % (
                name, 'not set' if got is None else show(got)[:60],
                show(val)[:60]))
    want('id', arg(M), (), 'records carry the name of the module')
    want('type', ('attr', M, 'keyword'), (), 'records tell modules from '
         'submodules')
    mod = (('eq', ('attr', M, 'keyword'), C('module')), True)
    px = so(M, 'prefix')
    want('prefix', arg(px), (mod, (('eq', px, NONE), False)),
         'records carry the prefix of the module')
    ns = so(M, 'namespace')
    if f.test(mod[0]) and f.test(('eq', ns, NONE)) is False:
        k = kids_of(evs, n, 'namespace')
        t = [e for e in evs if e.kind in ('settext', 'setattr') and
             e.recv in k and arg(ns) in e.args]
        ck.req(bool(k) and (bool(t) or any(
            (x, '#text') in p.st.eattr and
            p.st.eattr[(x, '#text')] == arg(ns) for x in k)),
            'record/namespace', 'records carry the namespace of the module',
            'update_dependencies() does not record the namespace of a '
            'module when %s' % facts_text(p, 3)[:100])
    sub = (('eq', ('attr', M, 'keyword'), C('submodule')), True)
    bt = so(M, 'belongs-to')
    if f.test(sub[0]) and f.test(('eq', bt, NONE)) is False:
        k = kids_of(evs, n, 'belongs-to')
        ck.req(bool(k) and attr_of(evs, k[0], 'module') == arg(bt),
               'record/belongs', 'records say what a submodule belongs to',
               'update_dependencies() does not record what a submodule '
               'belongs to')
    # the earlier record of the module goes
    rm = [l for l in p.events if l.kind == 'loop' and any(
        e.kind == 'mut' and short(e) == 'remove' for e in events(_P([l])))]
    ck.req(bool(rm) or None, 'record/replace', 'a record replaces the '
           'earlier one of the module')
    deps = _entries(p, p.value) if p.value is not None else None
    for parent, child, attr in RECORD:
        s = sall(M, child)
        some = f.test(there(s)[0]) if False else truth(p, s)
        ls = [l for l in p.events if l.kind == 'loop' and
              undo(l.recv) == s and any(
                  e.kind == 'newelem' for e in events(_P([l])))]
        if some is False:
            continue
        if not ls:
            if some:
                ck.req(None if murky(p) else False, 'record/' + child,
                       'each %s statement is recorded' % child,
                       'update_dependencies() does not record %s statements'
                       % child)
            continue
        x = ('each', s, 0)
        for l in ls:
            for b in l.bodies:
                bev = list(events(b))
                up = kids_of(evs, n, parent)
                k = [y for u in up for y in kids_of(bev, u, child)]
                ck.req(bool(k), 'record/' + child, 'each %s statement is '
                       'recorded' % child, 'update_dependencies() does not '
                       'record a %s statement under <%s> when %s' % (
                           child, parent, facts_text(b, 2)[:100]))
                if not k:
                    continue
                ck.req(attr_of(bev, k[0], attr) == arg(x), 'record/' +
                       attr, '%s statements are recorded by %s' % (
                           child, attr), 'update_dependencies(): %s of '
                       '<%s> is %s' % (attr, child, show(attr_of(
                           bev, k[0], attr) or NONE)[:60]))
    if deps is None:
        ck.req(None, 'record/result', 'what is returned: %s' %
               show(p.value or NONE)[:60])
        return
    for child in ('include', 'import'):
        s = sall(M, child)
        some = truth(p, s)
        if some is False:
            continue
        x = arg(('each', s, 0))
        el = ('each', s, 0)
        only = [g for v, g in deps if v == x]
        ck.req(any(not g for g in only) or (
            None if not only and any(contains(v, s) for v, g in deps) or
            only and not all(any(contains(a, el) for a, b in flatguard(g))
                             for g in only) or len(only) > 1 else False),
            'record/requires', 'what a module %ss is returned' % child,
            'update_dependencies() does not return the modules of %s '
            'statements when %s' % (child, facts_text(p, 3)[:100]))
    for v, g in deps:
        src = [c for c in ('revision', 'augment', 'deviation') if contains(
            v, sall(M, c))]
        ck.req(not src, 'record/only', 'only modules are returned',
               'update_dependencies() returns %s statements as modules' %
               ', '.join(src))


def decided_(t):
    return not any(x and x[0] in ('?', 'unk', 'phi', 'havoc')
                   for x in subterms(t))


def truth(p, s):
    r = p.facts.test(('truthy', s))
    if r is None:
        r = p.facts.test(('len>=', s, 1))
    return r
