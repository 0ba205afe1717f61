"""
Stateless exhaustive exploration of nondeterministic choices.

`explore(fn)` runs fn(ch) once for every complete sequence of answers that ch.choose() can give (depth-first over the
choice tree, replaying the prefix) and yields (path, probability, result).  `controlled_random(ch)` puts numpy's global
random functions behind such a chooser: every draw of the code under test becomes an enumerated choice.
"""
import contextlib
import itertools
import numpy as np
import torch


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.path = []
        self.widths = []
        self.weights = []
        self.prob = 1.0

    def choose(self, n, weights=None):
        """Returns an index in range(n); every index (of positive weight) is explored."""
        k = len(self.path)
        if k < len(self.prefix):
            c = self.prefix[k]
            if c >= n:
                raise AssertionError('divergence while replaying a prefix')
        else:
            c = 0
        if weights is not None:
            w = weights[c]
        else:
            w = 1.0 / n
        self.path.append(c)
        self.widths.append(n)
        self.prob *= w
        return c


def explore(fn, max_paths=None):
    prefix = []
    n = 0
    while True:
        ch = Chooser(prefix)
        res = fn(ch)
        yield tuple(ch.path), ch.prob, res
        n += 1
        if max_paths is not None and n > max_paths:
            raise AssertionError('choice tree larger than the declared bound (%d)' % max_paths)
        path, widths = ch.path, ch.widths
        i = len(path) - 1
        while i >= 0 and path[i] + 1 >= widths[i]:
            i -= 1
        if i < 0:
            return
        prefix = path[:i] + [path[i] + 1]


class ControlledRandom:
    """
    Replacement of the functions of numpy.random (and of the torch ones in use).  Uniform reals are drawn from the
    midpoints of `lattice` equal cells, so that any threshold that is a multiple of 1/lattice is decided exactly.
    """

    def __init__(self, ch, lattice=4, normals=(-1.0, 0.5, 2.0)):
        self.ch = ch
        self.lattice = lattice
        self.normals = list(normals)
        self.calls = 0

    # scalar draws
    def _u(self):
        self.calls += 1
        return (self.ch.choose(self.lattice) + .5) / self.lattice

    def _n(self):
        self.calls += 1
        return self.normals[self.ch.choose(len(self.normals))]

    def _i(self, n):
        self.calls += 1
        return self.ch.choose(int(n)) if n > 1 else 0

    def _pick(self, p):
        self.calls += 1
        p = np.asarray(p, dtype=float)
        if not (np.all(p >= -1e-9) and abs(p.sum() - 1) < 1e-6):
            raise ValueError('probabilities do not sum to 1 (or are negative): %s' % p)
        sup = [i for i in range(len(p)) if p[i] > 0]
        return sup[self.ch.choose(len(sup), [p[i] for i in sup])]

    def _many(self, f, size, dtype=float):
        if size is None:
            return f()
        if np.isscalar(size):
            size = (int(size),)
        out = np.empty(size, dtype=dtype)
        flat = out.reshape(-1)
        for k in range(flat.size):
            flat[k] = f()
        return flat.reshape(size)

    # numpy API
    def rand(self, *dims):
        return self._many(self._u, dims if dims else None)

    def random(self, size=None):
        return self._many(self._u, size)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        low = np.asarray(low, dtype=float)
        high = np.asarray(high, dtype=float)
        if size is None and (low.ndim or high.ndim):
            size = np.broadcast(low, high).shape
        u = self._many(self._u, size)
        r = low + (high - low) * u
        return float(r) if np.ndim(r) == 0 else r

    def randn(self, *dims):
        return self._many(self._n, dims if dims else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc = np.asarray(loc, dtype=float)
        scale = np.asarray(scale, dtype=float)
        if size is None and (loc.ndim or scale.ndim):
            size = np.broadcast(loc, scale).shape
        r = loc + scale * self._many(self._n, size)
        return float(r) if np.ndim(r) == 0 else r

    def standard_normal(self, size=None):
        return self._many(self._n, size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._many(lambda: int(low) + self._i(int(high) - int(low)), size, int)

    def choice(self, a, size=None, replace=True, p=None):
        if np.ndim(a) == 0:
            vals = np.arange(int(a))
        else:
            vals = np.asarray(a)
        n = len(vals)
        if p is not None and len(np.asarray(p)) != n:
            raise ValueError("'a' and 'p' must have same size")
        if n == 0:
            raise ValueError('a must be non-empty')
        if size is None:
            i = self._pick(p) if p is not None else self._i(n)
            return vals[i]
        shape = (int(size),) if np.isscalar(size) else tuple(size)
        k = int(np.prod(shape))
        if replace:
            idx = [self._pick(p) if p is not None else self._i(n) for _ in range(k)]
        else:
            if k > n:
                raise ValueError('Cannot take a larger sample than population when replace=False')
            left = list(range(n))
            idx = []
            for _ in range(k):
                if p is not None:
                    q = np.array([p[j] for j in left], dtype=float)
                    j = self._pick(q / q.sum())
                else:
                    j = self._i(len(left))
                idx.append(left.pop(j))
        return vals[np.array(idx, dtype=int).reshape(shape)]

    def permutation(self, x):
        vals = np.arange(int(x)) if np.ndim(x) == 0 else np.array(x)
        return vals[self._perm(len(vals))]

    def shuffle(self, x):
        idx = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[idx].copy()
        else:
            x[:] = [x[i] for i in idx]

    def _perm(self, n):
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(self._i(len(left))))
        return np.array(out, dtype=int)

    def binomial(self, n, p, size=None):
        return self._many(lambda: sum(self._pick([1 - p, p]) for _ in range(int(n))), size, int)

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean = np.asarray(mean, dtype=float)
        L = np.linalg.cholesky(np.asarray(cov, dtype=float) + 1e-15 * np.eye(len(mean)))
        if size is None:
            z = self._many(self._n, (len(mean),))
            return mean + L @ z
        shape = (int(size),) if np.isscalar(size) else tuple(size)
        z = self._many(self._n, shape + (len(mean),))
        return mean + z @ L.T


_NP = ['rand', 'random', 'random_sample', 'uniform', 'randn', 'normal', 'standard_normal', 'randint', 'choice',
       'permutation', 'shuffle', 'multivariate_normal', 'binomial']


@contextlib.contextmanager
def controlled_random(ch, lattice=4, normals=(-1.0, 0.5, 2.0), patch_torch=False):
    r = ControlledRandom(ch, lattice, normals)
    saved = {n: getattr(np.random, n) for n in _NP}
    tsaved = {}
    try:
        for n in _NP:
            setattr(np.random, n, getattr(r, n))
        if patch_torch:
            def t_rand(*size, **kw):
                size = tuple(size[0]) if len(size) == 1 and not np.isscalar(size[0]) else size
                return torch.as_tensor(np.asarray(r._many(r._u, size), dtype=np.float32))

            def t_randint(low, high=None, size=None, **kw):
                if size is None:
                    low, high, size = 0, low, high
                return torch.as_tensor(np.asarray(r.randint(low, high, tuple(size))))

            def t_randperm(n, **kw):
                return torch.as_tensor(r._perm(n))

            tsaved = {'rand': torch.rand, 'randint': torch.randint, 'randperm': torch.randperm}
            torch.rand, torch.randint, torch.randperm = t_rand, t_randint, t_randperm
        yield r
    finally:
        for n in _NP:
            setattr(np.random, n, saved[n])
        for n, f in tsaved.items():
            setattr(torch, n, f)


def all_permutations(n):
    return list(itertools.permutations(range(n)))


@contextlib.contextmanager
def controlled_torch(ch, normals=(-1.0, 0.5, 2.0), lattice=4):
    """Normal, uniform and categorical draws of torch (functions, in-place methods and torch.distributions)."""
    r = ControlledRandom(ch, lattice, normals)

    def fill(shape, f, dtype=None):
        dtype = dtype if dtype is not None and dtype.is_floating_point else torch.get_default_dtype()
        shape = tuple(int(x) for x in shape)
        n = int(np.prod(shape)) if len(shape) else 1
        return torch.tensor([f() for _ in range(n)], dtype=torch.float64).reshape(shape).to(dtype)

    def size_of(a, size):
        if size is None:
            size = a[0] if len(a) == 1 and not isinstance(a[0], int) else a
        return size

    def randn(*a, size=None, dtype=None, **k):
        return fill(size_of(a, size), r._n, dtype)

    def rand(*a, size=None, dtype=None, **k):
        return fill(size_of(a, size), r._u, dtype)

    def normal(mean, std=1., size=None, **k):
        if size is None:
            m, s = torch.as_tensor(mean), torch.as_tensor(std)
            shape = torch.broadcast_shapes(m.shape, s.shape)
            return m + s * fill(shape, r._n, m.dtype)
        return mean + std * fill(size, r._n)

    def normal_(self, mean=0., std=1., **k):
        with torch.no_grad():
            return self.copy_(mean + std * fill(self.shape, r._n, self.dtype))

    def uniform_(self, a=0., b=1., **k):
        with torch.no_grad():
            return self.copy_(a + (b - a) * fill(self.shape, r._u, self.dtype))

    def multinomial(p, num_samples, replacement=False, **k):
        q = p.detach().double().reshape(-1, p.shape[-1]).numpy()
        assert replacement or num_samples == 1
        out = [[r._pick(row / row.sum()) for _ in range(num_samples)] for row in q]
        return torch.tensor(out).reshape(p.shape[:-1] + (num_samples,))

    names = {'randn': randn, 'rand': rand, 'normal': normal, 'multinomial': multinomial,
             'randn_like': lambda t, **k: fill(t.shape, r._n, t.dtype), 'rand_like': lambda t, **k: fill(t.shape, r._u, t.dtype)}
    saved = {n: getattr(torch, n) for n in names}
    base = {n: torch.Tensor.__dict__.get(n) for n in ('normal_', 'uniform_')}
    try:
        for n, f in names.items():
            setattr(torch, n, f)
        torch.Tensor.normal_, torch.Tensor.uniform_ = normal_, uniform_
        yield r
    finally:
        for n, f in saved.items():
            setattr(torch, n, f)
        for n, f in base.items():
            if f is None:
                delattr(torch.Tensor, n)
            else:
                setattr(torch.Tensor, n, f)
