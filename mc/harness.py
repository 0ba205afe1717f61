"""
Bounded explicit-state exploration of the real code.

A check is a module checks/<id>.py that exposes FAMILIES, a list of Family objects.  A family is a finite, completely
enumerated set of cases (operation sequences, environment scripts, schedules, configurations ...).  Running a case
drives the REAL code of /repo through the case, step by step, and compares every observable with a reference model;
a disagreement, an exception or a hang is a violation.  Every case is a JSON value, so that it can be replayed alone.
"""
import itertools
import json
import os
import hashlib
import signal
import sys
import time
import traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = float(os.environ.get('VERIF_CASE_TIMEOUT', '60'))


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Stats:
    """What a run covered: measured, never a constant."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.outcomes = set()
        self.samples = []

    def state(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(hash(key))

    def dump(self):
        return self.states, self.transitions, self.traces, self.cases, self.outcomes

    def merge(self, d):
        self.states |= d[0]
        self.transitions += d[1]
        self.traces += d[2]
        self.cases += d[3]
        self.outcomes |= d[4]


class Family:
    """
    name: identifier; cases(tier): iterable of JSON-able cases, the complete enumeration within the bound;
    run(case, st): drives the real code; raises on any disagreement with the model.
    bound: text describing the bound for the evidence file.
    """

    def __init__(self, name, cases, run, bound='', chunk=None):
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound
        self.chunk = chunk


def expect(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def _run_one(fam, case, st):
    """None if the case holds, otherwise a text describing the violation."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT, 10)
    try:
        st.cases += 1
        fam.run(case, st)
        return None
    except CaseTimeout:
        return 'hang: the case did not finish in %.0f s' % CASE_TIMEOUT
    except Violation as e:
        return 'disagreement: ' + str(e)
    except Exception as e:
        return 'exception: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_FAMS = None
_KNOWN = {}


def _worker(args):
    fi, cases = args
    fam = _FAMS[fi]
    st = Stats()
    bad = []
    for case in cases:
        msg = _run_one(fam, case, st)
        if msg is not None:
            bad.append((case, msg))
            if sum((fam.name, _canon(c)) not in _KNOWN for c, _ in bad) >= 3 or msg.startswith('hang'):
                break
    return fi, st.dump(), bad, cases[0] if cases else None


def _chunks(families, tier):
    for fi, fam in enumerate(families):
        it = iter(fam.cases(tier))
        n = fam.chunk or 64
        while True:
            c = list(itertools.islice(it, n))
            if not c:
                break
            yield fi, c


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == pid]


def _canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def run_check(pid, module, tier, seed, replay=None):
    global _FAMS, _KNOWN
    t0 = time.time()
    families = module.FAMILIES
    only = os.environ.get('VERIF_FAMILY')       # for development: one family alone
    if only:
        families = [f for f in families if f.name == only]
    _FAMS = families
    known = _KNOWN = {(k['family'], _canon(k['case'])): k for k in load_known(pid)}

    if replay is not None:
        with open(replay) as f:
            r = json.load(f)
        fam = [f_ for f_ in families if f_.name == r['family']][0]
        msg = _run_one(fam, r['case'], Stats())
        print('family', fam.name, 'case', _canon(r['case']))
        print(msg or 'the case holds')
        return 0 if msg is None else 1

    total = Stats()
    per_fam = {f.name: Stats() for f in families}
    violations = []
    found_known = []
    samples = []
    nproc = int(os.environ.get('VERIF_PROCS', str(min(8, os.cpu_count() or 1))))
    stop = False

    def handle(res):
        fi, d, bad, first = res
        fam = families[fi]
        per_fam[fam.name].merge(d)
        total.merge(d)
        if first is not None and sum(1 for s in samples if s['family'] == fam.name) < 2:
            samples.append({'family': fam.name, 'case': first})
        for case, msg in bad:
            k = known.get((fam.name, _canon(case)))
            if k is not None:
                found_known.append((k, msg))
            else:
                violations.append((fam, case, msg))

    serial = nproc == 1 or getattr(module, 'SERIAL', False)
    if serial:
        for ch in _chunks(families, tier):
            handle(_worker(ch))
            if len(violations) >= 5:
                break
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc) as pool:
            for res in pool.imap_unordered(_worker, _chunks(families, tier)):
                handle(res)
                if len(violations) >= 5:
                    pool.terminate()
                    break

    for k, msg in found_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    wall = time.time() - t0
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': len(total.states),
            'transitions': total.transitions,
            'traces_validated_against_impl': total.traces,
            'cases': total.cases,
            'distinct_outcomes': len(total.outcomes),
            'exhaustive': not violations,
            'rule': 'every case of every family below is enumerated; the real code is driven through it and every '
                    'observable is compared with the reference model after each step',
            'families': [
                {'name': f.name, 'bound': f.bound(tier) if callable(f.bound) else f.bound,
                 'cases': per_fam[f.name].cases,
                 'states': len(per_fam[f.name].states), 'transitions': per_fam[f.name].transitions,
                 'traces': per_fam[f.name].traces, 'distinct_outcomes': len(per_fam[f.name].outcomes)}
                for f in families],
            'samples': samples[:20],
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s: cases=%d states=%d transitions=%d traces=%d outcomes=%d violations=%d wall=%.1fs' % (
        pid, total.cases, len(total.states), total.transitions, total.traces, len(total.outcomes),
        len(violations), wall))
    for f in families:
        s = per_fam[f.name]
        print('  %-28s cases=%d states=%d transitions=%d traces=%d outcomes=%d' % (
            f.name, s.cases, len(s.states), s.transitions, s.traces, len(s.outcomes)))
        if s.cases == 0 and not violations:
            print('  WARNING: empty family')

    if violations:
        for fam, case, msg in violations[:5]:
            h = hashlib.sha1((fam.name + _canon(case)).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, 'replays', '%s-%s.json' % (pid, h))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'family': fam.name, 'case': case, 'message': msg}, f, indent=1,
                          default=str)
            print('--- family %s case %s\n%s' % (fam.name, _canon(case)[:600], msg[:1800]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
