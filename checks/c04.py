"""C04: step information stays aligned with its transition."""
import itertools
import math

import numpy as np
import torch

from mushroom_rl.core import ExtraInfo
from mc.harness import Family, expect

ASSUMPTIONS = ['values are exactly representable in single precision',
               'an entry that lacks a key known from other entries reads as not-a-number there']


def arrv(vals, backend):
    return torch.tensor(vals, dtype=torch.float32) if backend == 'torch' else np.array(vals, dtype=float)


def env_dict(i, e, backend, shape):
    """The dictionary of environment e at entry i, and its flat meaning."""
    x = 100. * e + i
    if shape == 3:
        # the same names on several levels, arrays of one and of several axes
        return {'a': x, 'b': {'a': x + .5, 'm': arrv([[x, x + 1.], [x + 2., x + .25]], backend)},
                'd': {'a': {'a': x + .125}, 'b': arrv([x + .75], backend)}}, \
            {'a': [x], 'b_a': [x + .5], 'b_m': [x, x + 1., x + 2., x + .25], 'd_a_a': [x + .125], 'd_b': [x + .75]}
    if shape == 4:
        # an entry may carry no key at all
        return ({'a': x}, {'a': [x]}) if (i + e) % 2 else ({}, {})
    d = {'a': x}
    flat = {'a': [x]}
    if shape >= 1:
        d['b'] = {'c': arrv([x + .25, x + .5], backend), 'd': {'e': x + .125}}
        flat['b_c'] = [x + .25, x + .5]
        flat['b_d_e'] = [x + .125]
    if shape >= 2 and i % 2 == 1:
        d['z'] = x + .75
        flat['z'] = [x + .75]
    return d, flat


def entry(i, cfg):
    """(what is appended, [flat dict per environment])."""
    n, backend, shape = cfg['n_envs'], cfg['backend'], cfg['shape']
    if n == 1:
        d, f = env_dict(i, 0, backend, shape)
        return d, [f]
    ds = [env_dict(i, e, backend, shape) for e in range(n)]
    flats = [f for _, f in ds]
    if cfg['form'] == 'list':
        return [d for d, _ in ds], flats
    if shape == 4:
        ds = [env_dict(i, 0, backend, shape)] + [env_dict(i, 2 * e, backend, shape) for e in range(1, n)]
        flats = [f for _, f in ds]
        return {'a': arrv([f['a'][0] for f in flats], backend)} if flats[0] else {}, flats
    if shape == 3:
        def col(k, *sh):
            return arrv(np.array([f[k] for f in flats]).reshape(n, *sh).tolist(), backend)
        return {'a': col('a'), 'b': {'a': col('b_a'), 'm': col('b_m', 2, 2)},
                'd': {'a': {'a': col('d_a_a')}, 'b': col('d_b', 1)}}, flats
    out = {'a': arrv([f['a'][0] for f in flats], backend)}
    if shape >= 1:
        out['b'] = {'c': arrv([f['b_c'] for f in flats], backend),
                    'd': {'e': arrv([f['b_d_e'][0] for f in flats], backend)}}
    if shape >= 2 and i % 2 == 1:
        out['z'] = arrv([f['z'][0] for f in flats], backend)
    return out, flats


SHAPES = {'b_c': (2,), 'b_m': (2, 2), 'd_b': (1,)}


def np_(x):
    return x.detach().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def check(info, model, cfg, what, flat=False, backend=None):
    """model: list over entries of lists over environments of flat dicts (flat: list of flat dicts)."""
    n = cfg['n_envs']
    keys = sorted({k for row in model for f in ([row] if flat else row) for k in f})
    for k in keys:
        expect(k in info, what, 'key', k, 'is missing; present:', list(info.keys()))
    for k in info.keys():
        x = info[k]
        if backend is not None and len(model):
            expect(isinstance(x, torch.Tensor) == (backend == 'torch'), what, 'wrong backend for', k)
        x = np_(x)
        expect(x.shape[0] == len(model), what, 'key', k, 'has', x.shape[0], 'entries, expected', len(model))
        for i, row in enumerate(model):
            for e, f in enumerate([row] if flat else row):
                v = x[i] if flat or n == 1 else x[i][e]
                expect(v.shape == SHAPES.get(k, ()), what, 'key', k, 'has entries of shape', v.shape)
                got = [float(y) for y in np.asarray(v).reshape(-1)]
                if k in f:
                    expect(got == f[k], what, 'entry', i, 'environment', e, 'key', k, ':', got, 'expected', f[k])
                else:
                    expect(all(math.isnan(y) for y in got), what, 'entry', i, 'environment', e, 'key', k,
                           'was never given but reads', got)
    if n > 1 and not flat and keys:
        for k in keys:
            expect(np_(info[k]).shape[1] == n, what, 'environments of', k)


OPS = ['append', 'parse', 'head', 'tail', 'pick', 'copyview', 'copy', 'add_raw', 'add_parsed', 'radd', 'clear']


def run(case, st):
    cfg = case['cfg']
    info = ExtraInfo(cfg['n_envs'], cfg['backend'])
    model = []
    i = 0
    old = []

    def fresh(k, parsed):
        nonlocal i
        o = ExtraInfo(cfg['n_envs'], cfg['backend'])
        m = []
        for _ in range(k):
            x, f = entry(i, cfg)
            o.append(x)
            m.append(f)
            i += 1
        if parsed:
            o.parse()
        return o, m

    for op in case['ops']:
        if op == 'append':
            x, f = entry(i, cfg)
            i += 1
            info.append(x)
            model = model + [f]
        elif op == 'parse':
            info.parse()
            check(info, model, cfg, 'parsed', backend=cfg['backend'])
        elif op in ('head', 'tail', 'pick', 'copyview'):
            n = len(model)
            if op == 'head':
                idx, m = slice(0, 2), model[:2]
            elif op == 'tail':
                idx, m = slice(-2, None), model[-2:]
            elif op == 'copyview':
                idx, m = slice(1, None), model[1:]
            else:
                sel = list(range(n - 1, -1, -1))
                idx, m = np.array(sel, dtype=int), [model[j] for j in sel]
                if cfg['backend'] == 'torch':
                    idx = torch.as_tensor(idx)
            v = info.get_view(idx, copy=op == 'copyview')
            check(v, m, cfg, op)
            check(info, model, cfg, 'source of ' + op)
            if op == 'copyview':
                w = info.get_view(idx, copy=True)
                for k in w.keys():
                    w[k][...] = -777.
                check(info, model, cfg, 'source after writing to a copied view')
            old.append((info, model))
            info, model = v, m
        elif op == 'copy':
            c = info.copy()
            old.append((info, model))
            info = c
        elif op in ('add_raw', 'add_parsed', 'radd'):
            o, m = fresh(2, op != 'add_raw')
            old.append((info, model))
            old.append((o, m))
            if op == 'radd':
                info, model = o + info, m + model
            else:
                info, model = info + o, model + m
        elif op == 'clear':
            info.clear()
            model = []
            expect(len(info) == 0, 'clear leaves', dict(info))
        st.step()
        st.state(str(cfg), str(model), op)
    other = 'torch' if cfg['backend'] == 'numpy' else 'numpy'
    c = info.copy()
    c.parse()
    check(c, model, cfg, 'final copy', backend=cfg['backend'])
    info.parse()
    check(info, model, cfg, 'final', backend=cfg['backend'])
    if cfg['n_envs'] > 1 and model:
        fl = info.flatten()
        T = len(model)
        check(fl, [model[t][e] for e in range(cfg['n_envs']) for t in range(T)], cfg, 'flatten', flat=True)
        bits = T * cfg['n_envs']
        masks = range(1, 2 ** bits) if bits <= 6 else [1, 2, 2 ** bits - 1, 2 ** (bits - 1), 0b1010110, 0b0110101]
        for mk in masks:
            mask = np.array([[bool(mk >> (t * cfg['n_envs'] + e) & 1) for e in range(cfg['n_envs'])]
                             for t in range(T)])
            fl = info.flatten(torch.as_tensor(mask) if cfg['backend'] == 'torch' else mask)
            exp = [model[t][e] for e in range(cfg['n_envs']) for t in range(T) if mask[t, e]]
            check(fl, exp, cfg, 'flatten with mask', flat=True)
            fl.parse()
            check(fl, exp, cfg, 'flattened, parsed again', flat=True)
            cp = fl.copy()
            cp.parse()
            check(cp, exp, cfg, 'flattened, copied, parsed', flat=True)
            st.step()
    for d, m in old:
        d.parse()
        check(d, m, cfg, 'a source after the whole sequence')
    info.parse(to=other)
    check(info, model, cfg, 'converted', backend=other)
    v = info.get_view(slice(0, 1))
    check(v, model[:1], cfg, 'view after conversion')
    st.outcome(str(model))
    st.trace()


def cfgs():
    for b in ('numpy', 'torch'):
        for shape in (0, 1, 2, 3, 4):
            yield {'backend': b, 'n_envs': 1, 'form': 'dict', 'shape': shape}
        for form in ('dict', 'list'):
            for shape in (1, 2, 3, 4):
                yield {'backend': b, 'n_envs': 2, 'form': form, 'shape': shape}


def cases(tier):
    D = 4 if tier == 'quick' else 5
    for cfg in cfgs():
        for n in range(1, D):
            for ops in itertools.product(OPS, repeat=n):
                yield {'cfg': cfg, 'ops': ['append'] + list(ops)}
    if tier == 'quick':
        sub = ['append', 'parse', 'tail', 'add_raw', 'add_parsed']
        for cfg in cfgs():
            if cfg['shape'] in (2, 4):
                for ops in itertools.product(sub, repeat=4):
                    yield {'cfg': cfg, 'ops': ['append'] + list(ops)}


FAMILIES = [Family('operation-sequences', cases, run,
                   'all sequences of up to 3 (thorough: 4) operations after a first append out of 11, one or two '
                   'environments, dict of arrays or list of dicts, five dictionary shapes (one with entries that carry no key), both backends; '
                   'every activity mask of up to 6 cells when flattening')]
