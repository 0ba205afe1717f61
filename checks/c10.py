"""C10: loggers (data files, best agents, console log) and video recordings, over sequences of operations and restarts."""
import contextlib
import io
import itertools
import logging
import os
import pickle
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

from mushroom_rl.core import Logger, Serializable
from mushroom_rl.core.logger.console_logger import ConsoleLogger
from mushroom_rl.utils.record import VideoRecorder
from mc.harness import Family, expect

ASSUMPTIONS = ['agents with equal scores: either may be the one kept as the best',
               'the console log file is always continued; append concerns the logged data',
               'the best score is that of the current logger object, it is not read back from an earlier run']

SEEDS = [None, 1, 11]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-c10-')
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Thing(Serializable):
    def __init__(self, v):
        self._v = v
        self._w = -v
        self._add_save_attr(_v='primitive', _w='primitive!')


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and np.array_equal(a, b)


# ---------------------------------------------------------------- data
VAL = {'s': lambda k: k + 1, 'f': lambda k: .5 * k, 'v': lambda k: np.array([k, -k])}


def run_data(case, st):
    with scratch() as d:
        files = {}          # file name -> content
        slots = [None, None]  # (logger, seed, its series)
        for k, op in enumerate(case['ops']):
            if op[0] == 'new':
                _, i, seed, append = op
                series = {}
                suffix = '' if seed is None else '-%d' % seed
                if append:
                    for f, c in files.items():
                        stem = f[:-4]
                        name = stem[:len(stem) - len(suffix)]
                        if stem.endswith(suffix) and name in ('a', 'b', 'c') and f.endswith('.npy'):
                            series[name] = [x for x in np.asarray(c).tolist()]
                kw = {} if seed is None else {'seed': seed}
                if append:
                    kw['append'] = True
                slots[i] = (Logger('run', results_dir=str(d), **kw), suffix, series)
                expect(Path(slots[i][0].path) == d / 'run', 'path of the logger')
            else:
                i = op[1]
                if slots[i] is None:
                    return
                lg, suffix, series = slots[i]
                if op[0] == 'n':
                    vals = {name: VAL[kind](k) for name, kind in op[2]}
                    lg.log_numpy(**vals)
                    for name, v in vals.items():
                        series.setdefault(name, []).append(np.array(v).tolist())
                        if isinstance(v, np.ndarray):
                            v += 50         # what was logged stays as it was logged
                        files[name + suffix + '.npy'] = np.array(series[name])
                elif op[0] == 'arr':
                    v = np.arange(6.).reshape(2, 3) + k
                    lg.log_numpy_array(c=v)
                    files['c' + suffix + '.npy'] = v.copy()
                    v += 50
                elif op[0] == 'ds':
                    lg.log_dataset([('x', k)])
                    files['dataset' + suffix + '.pkl'] = [('x', k)]
            got = sorted(p.name for p in (d / 'run').iterdir()) if (d / 'run').exists() else []
            expect(got == sorted(files), 'files', got, 'expected', sorted(files))
            for f, c in files.items():
                if f.endswith('.pkl'):
                    with open(d / 'run' / f, 'rb') as h:
                        expect(pickle.load(h) == c, 'dataset file')
                else:
                    g = np.load(str(d / 'run' / f))
                    expect(same(g, c), 'file', f, g.tolist(), 'expected', np.asarray(c).tolist())
            st.step()
            st.state(repr(sorted((f, np.asarray(c, dtype=object).tolist() if f.endswith('.npy') else c) for f, c in files.items())), k)
        st.outcome(tuple(sorted(files)))
        st.trace()


def data_cases(tier):
    D = 4 if tier == 'quick' else 5
    logs = [('n', [('a', 's')]), ('n', [('a', 'f'), ('b', 'v')]), ('arr', None), ('ds', None)]
    seeds = SEEDS
    # one logger slot replaced by restarts, and two loggers side by side
    news = [['new', i, s, a] for i in (0, 1) for s in seeds for a in (False, True)]
    acts = [[l[0], i] + ([l[1]] if l[1] else []) for i in (0, 1) for l in logs[:3]]
    for s in seeds:
        for pre in itertools.product([a for a in acts if a[1] == 0] + [['ds', 0]], repeat=2):
            for n2 in news:
                for post in itertools.product(acts, repeat=D - 2):
                    if n2[1] == 0 and any(p[1] == 1 for p in post):
                        continue
                    yield {'ops': [['new', 0, s, False]] + list(pre) + [n2] + list(post)}


# ---------------------------------------------------------------- agents
def run_agents(case, st):
    with scratch() as d:
        kw = {} if case['seed'] is None else {'seed': case['seed']}
        suffix = '' if case['seed'] is None else '-%d' % case['seed']
        lg = Logger('run', results_dir=d, **kw)
        other = Logger('run', results_dir=d, seed=7)
        best, tied = -np.inf, []
        files = {}
        for k, op in enumerate(case['ops']):
            agent = Thing(k + 1)
            full = bool(k % 2)
            if op[0] == 'best':
                lg.log_best_agent(agent, op[1], full_save=full)
                if op[1] > best:
                    best, tied = op[1], [(k + 1, full)]
                elif op[1] == best:
                    tied.append((k + 1, full))
                files['agent%s-best.msh' % suffix] = tied
            elif op[0] == 'other':
                other.log_best_agent(agent, 100., full_save=full)
                files['agent-7-best.msh'] = [(k + 1, full)] + files.get('agent-7-best.msh', [])
            else:
                lg.log_agent(agent, full_save=full, **({} if op[1] is None else {'epoch': op[1]}))
                files['agent%s%s.msh' % (suffix, '' if op[1] is None else '-%d' % op[1])] = [(k + 1, full)]
            got = sorted(p.name for p in (d / 'run').iterdir())
            expect(got == sorted(files), 'files', got, 'expected', sorted(files))
            for f, c in files.items():
                a = Serializable.load(d / 'run' / f)
                v = (a._v, a._w is not None)
                expect(v in c, 'agent in', f, 'is', v, 'expected one of', c)
                expect(a._w in (None, -a._v), 'content of the agent')
            st.step()
            st.state(k, repr(sorted(files.items())))
        st.outcome(repr(sorted(files.items())))
        st.trace()


def agent_cases(tier):
    D = 4 if tier == 'quick' else 5
    for seed in (None, 3):
        for ops in itertools.product([('best', -1.), ('best', 0.), ('best', 2.5), ('other',), ('agent', None), ('agent', 2)], repeat=D):
            yield {'seed': seed, 'ops': [list(o) for o in ops]}
    for ops in itertools.product([('best', -3.), ('best', -2), ('best', -1.), ('best', 0), ('best', -1e9), ('best', 1e-12)], repeat=D):
        yield {'seed': None, 'ops': [list(o) for o in ops]}


# ---------------------------------------------------------------- console
LEVELS = {'debug': logging.DEBUG, 'info': logging.INFO, 'warning': logging.WARNING, 'error': logging.ERROR, 'critical': logging.CRITICAL}


def parse(text):
    out = []
    for line in text.splitlines():
        m = re.match(r'^\d\d/\d\d/\d{4} \d\d:\d\d:\d\d \[(\w+)\] (.*)$', line)
        expect(m is not None, 'line of the log', line)
        out.append((m.group(1).lower(), m.group(2)))
    return out


def run_console(case, st):
    with scratch() as d:
        files, console = {}, []
        slots = [None, None]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            for k, op in enumerate(case['ops']):
                if op[0] == 'new':
                    _, i, conf = op
                    name, seed, sub, tofile, cl, fl = CONFS[conf]
                    kw = {}
                    if seed is not None:
                        kw['seed'] = seed
                    if cl:
                        kw['console_log_level'] = LEVELS[cl]
                    if fl:
                        kw['file_log_level'] = LEVELS[fl]
                    lg = Logger(name, results_dir=d / sub, log_console=tofile, **kw)
                    slots[i] = None
                    fname = str(Path(sub) / name / (name + ('' if seed is None else '-%d' % seed) + '.log'))
                    slots[i] = (lg, fname if tofile else None, LEVELS[cl or 'debug'], LEVELS[fl or 'debug'])
                    if tofile:
                        files.setdefault(fname, [])
                elif op[0] == 'del':
                    slots[op[1]] = None
                    lg = None
                else:
                    i = op[1]
                    if slots[i] is None:
                        return
                    lg, fname, cl, fl = slots[i]
                    if op[0] == 'epoch':
                        lg.epoch_info(k, J=.5, R=k)
                        rec = ('info', 'Epoch %d | J: 0.5 R: %d' % (k, k))
                    elif op[0] == 'line':
                        lg.strong_line()
                        lg.weak_line()
                        rec = None
                    else:
                        getattr(lg, op[0])('message %d' % k)
                        rec = (op[0], 'message %d' % k)
                    lg = None
                    recs = [rec] if rec else [('info', '#' * 99), ('info', '-' * 99)]
                    for r in recs:
                        if LEVELS[r[0]] >= cl:
                            console.append(r)
                        if fname is not None and LEVELS[r[0]] >= fl:
                            files[fname].append(r)
                got = parse(buf.getvalue())
                expect(got == console, 'console', got, 'expected', console)
                found = sorted(str(p.relative_to(d)) for p in d.rglob('*.log'))
                expect(found == sorted(files), 'log files', found, 'expected', sorted(files))
                for f, c in files.items():
                    g = parse((d / f).read_text())
                    expect(g == c, 'log file', f, g, 'expected', c)
                st.step()
                st.state(k, repr(console), repr(sorted(files.items())))
        st.outcome(repr(console))
        st.trace()
        slots[0] = slots[1] = None


CONFS = {'A': ('x', None, 'd1', True, None, None), 'B': ('x', None, 'd2', True, None, None), 'C': ('x', 1, 'd1', True, 'warning', None),
         'D': ('x', None, 'd1', False, None, None), 'E': ('y', None, 'd1', True, None, 'error'), 'F': ('x', 2, 'd1', True, 'info', 'info')}


def console_cases(tier):
    D = 3 if tier == 'quick' else 4
    acts = [['debug', 0], ['error', 1], ['info', 0], ['epoch', 1], ['del', 0], ['line', 0]]
    for c1 in CONFS:
        for c2 in CONFS:
            for i in (0, 1):
                for pre in ([], [['info', 0]]):
                    for post in itertools.product(acts, repeat=D):
                        if i == 0 and any(p[1] == 1 for p in post):
                            continue
                        yield {'ops': [['new', 0, c1]] + pre + [['new', i, c2]] + list(post)}
    for c in CONFS:
        for ops in itertools.product(list(LEVELS) + ['epoch', 'line'], repeat=2):
            yield {'ops': [['new', 0, c]] + [[o, 0] for o in ops]}


# ---------------------------------------------------------------- video
def run_video(case, st):
    import cv2
    log = {}

    class Writer:
        def __init__(self, path, fourcc, fps, size):
            expect(path not in log, 'a recording overwrites another')
            self.path = path
            log[path] = [fps, tuple(size), [], False]

        def write(self, frame):
            expect(not log[self.path][3], 'a frame written after the recording was closed')
            log[self.path][2].append(frame.copy())

        def release(self):
            log[self.path][3] = True

    saved = cv2.VideoWriter, cv2.destroyAllWindows
    with scratch() as d:
        try:
            cv2.VideoWriter, cv2.destroyAllWindows = Writer, lambda: None
            kw = {'video_name': case['name']} if case['name'] else {}
            rec = VideoRecorder(path=str(d), tag='t', fps=case['fps'], **kw)
            v = 0
            ref = []
            for n in case['runs']:
                frames = []
                for _ in range(n):
                    v += 1
                    f = np.zeros((4, 6, 3), dtype=np.uint8)
                    f[..., 0], f[..., 1], f[..., 2] = v, v + 50, v + 100
                    keep = f.copy()
                    rec(f)
                    expect(np.array_equal(f, keep), 'the frame was changed')
                    frames.append(v)
                rec.stop()
                ref.append(frames)
                st.step(n)
            base = case['name'] or 'recording'
            names = [base + '.mp4'] + ['%s-%d.mp4' % (base, i) for i in range(1, len(ref))]
            expect([Path(p).name for p in log] == names and all(Path(p).parent == d / 't' for p in log), 'files', list(log))
            for (fps, size, frames, closed), r in zip(log.values(), ref):
                expect(fps == case['fps'] and size == (6, 4) and closed, 'parameters of the recording')
                expect([(int(f[0, 0, 2]), int(f[0, 0, 1]), int(f[0, 0, 0])) for f in frames] == [(v, v + 50, v + 100) for v in r], 'frames')
            st.state(repr(case))
            st.trace()
        finally:
            cv2.VideoWriter, cv2.destroyAllWindows = saved


def video_cases(tier):
    for name in (None, 'clip'):
        for fps in (30, 60):
            for r in (1, 2, 3):
                for runs in itertools.product((1, 2, 3), repeat=r):
                    yield {'name': name, 'fps': fps, 'runs': list(runs)}


FAMILIES = [
    Family('data', data_cases, run_data, lambda t: 'a first run of 2 records, then a second logger (same or other seed, appending or not, instead of or beside the first) and %d records, every combination of 3-4 record kinds' % (2 if t == 'quick' else 3)),
    Family('agents', agent_cases, run_agents, lambda t: 'all sequences of %d agent records over a lattice of scores, two seeds' % (4 if t == 'quick' else 5)),
    Family('console', console_cases, run_console, lambda t: 'all pairs of 6 logger configurations, side by side or replacing, all sequences of %d messages or deletions' % (3 if t == 'quick' else 4)),
    Family('video', video_cases, run_video, 'up to 3 recordings of up to 3 frames'),
]
