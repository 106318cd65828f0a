"""Check runner: evidence, known findings, exit status."""
import json
import os
import sys
import time

from .load import AnalysisBroken, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('NCDIFF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Check(object):
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []      # (key, text)
        self.samples = []
        self.functions = set()
        self.stats = {}
        self.minimum = 1

    def ok(self, what):
        self.obligations += 1
        self.discharged += 1
        if len(self.samples) < 12 or self.obligations % 37 == 0 and \
                len(self.samples) < 30:
            self.samples.append(what)

    def fail(self, key, text):
        """key: stable identification of rule and construct (no line
        numbers)."""
        self.obligations += 1
        if not any(k == key for k, t in self.violations):
            self.violations.append((key, text))

    def open(self, what):
        """Obligation the analysis could not resolve: reported, no alarm."""
        self.obligations += 1
        self.undecided.append(what)

    def req(self, cond, key, okmsg, text=None):
        if cond is None:
            self.open(okmsg)
        elif cond:
            self.ok(okmsg)
        else:
            self.fail(key, text or ('not satisfied: ' + okmsg))

    def part(self, fn, *args):
        """Run one group of obligations; a group the engine cannot
        interpret is undecided and does not silence the others."""
        try:
            return fn(*args)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.open('%s: analysis gave up: %s: %s' % (
                getattr(fn, '__name__', '?'), type(e).__name__,
                str(e)[:200]))

    def used(self, engine):
        self.functions |= engine.inlined
        self.stats['abstract_paths'] = self.stats.get('abstract_paths', 0) + \
            engine.npaths
        self.stats['loop_summaries'] = self.stats.get('loop_summaries', 0) + \
            engine.nloops


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=<id> key=<key> :: description
                head, _, desc = line[7:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                out.append((d['property'], d['key'], desc))
    return out


def main(pid, title, rule, fn, minimum):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(pid, rule)
    try:
        import warnings
        warnings.simplefilter('ignore')
        prog = Program()
        fn(ck, prog, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except RecursionError:
        ck.open('analysis gave up: recursion limit')
    except Exception as e:
        # a construct the engine cannot interpret: what was decided so far
        # stands, the rest is reported as undecided
        if os.environ.get('SA_DEBUG'):
            raise
        ck.open('analysis gave up: %s: %s' % (type(e).__name__, e))
    gave_up = any('analysis gave up' in u for u in ck.undecided)
    if ck.obligations < minimum and not ck.violations and not gave_up:
        print('ANALYSIS-BROKEN property=%s only %d obligations found, %d '
              'confirmed by hand: %s' % (pid, ck.obligations, minimum,
                                         ck.undecided[-1:]))
        return 2
    known = load_known()
    new = []
    for k, t in ck.violations:
        hit = [d for p, kk, d in known if p == pid and kk == k]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else:
            new.append((k, t))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source tree; '
                           'rule: ' + rule,
            'obligations': ck.obligations,
            'discharged': ck.discharged,
            'undecided': ck.undecided[:50],
            'functions_analysed': sorted(ck.functions),
            'modules_parsed': sorted(m.path for m in prog.mods.values()),
            'functions_parsed': prog.nfuncs,
            'samples': ck.samples,
        },
        'assumptions': [
            'lxml/ncclient/pyang calls behave as modelled in sa/engine.py',
            'no monkey patching of the analysed classes at run time'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    ev['coverage'].update(ck.stats)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d '
          'violation(s), %d function(s), %.1fs' % (
              pid, title, ck.obligations, ck.discharged, len(ck.undecided),
              len(new), len(ck.functions), time.time() - t0))
    for u in ck.undecided[:20]:
        print('  undecided: ' + u)
    rp = os.path.join(EVID, pid + '.violations.txt')
    if new:
        with open(rp, 'w') as f:
            for k, t in new:
                f.write('%s\n    %s\n' % (k, t))
        for k, t in new:
            print('  [%s] %s' % (k, t if len(t) < 900 else
                                 t[:900] + ' ...'))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0
