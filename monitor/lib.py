"""Concrete contract monitor (bounded): random cases on the real code in /repo.

Run under the repository's own interpreter.  Every case draws its
configuration from an rng seeded by (seed, property, case name, index), so a
failing case can be replayed exactly.
"""
import sys, os, warnings, copy, math, zlib, io, contextlib, itertools
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
INF = float('inf')


class Violation(Exception):
    pass


class Skip(Exception):
    """The numerical oracle is not accurate enough on this case."""


CASES = {}      # property -> list of (name, fun, weight)


def case(prop, weight=1):
    def deco(fun):
        CASES.setdefault(prop, []).append((fun.__name__, fun, weight))
        return fun
    return deco


class Rng(object):
    """Deterministic generator with a few helpers."""
    def __init__(self, seed, prop, name, index):
        h = zlib.crc32(('%s|%s|%s|%s' % (seed, prop, name, index)).encode())
        self.r = np.random.RandomState(h & 0x7fffffff)
        self.log = []
        self.extra = {'C07': 2, 'C08': 1}.get(prop, 4)

    def note(self, **kw):
        self.log.append(kw)

    def dim(self, hi):
        """a size: mostly 1..hi, now and then larger"""
        if self.int(0, 11) == 0:
            return hi + self.int(1, self.extra)
        return self.int(1, hi)

    def int(self, lo, hi):
        return int(self.r.randint(lo, hi + 1))

    def choice(self, seq):
        return seq[int(self.r.randint(len(seq)))]

    def flag(self, p=0.5):
        return bool(self.r.rand() < p)

    def normal(self, *shape, **kw):
        s = kw.get('scale', 1.0)
        if not shape:
            return float(self.r.randn() * s)
        return self.r.randn(*shape) * s

    def pt(self, n, scale=1.0):
        """a point: mostly generic, now and then with special values"""
        x = self.r.randn(n) * scale
        k = self.int(0, 19)
        if k == 0:
            x = x * 0.0
        elif k == 1:
            x = x * 0.0 + self.choice([1.0, -1.0, 0.5, self.normal() * scale])
        elif k == 2:
            x[self.r.rand(n) < 0.5] = 0.0
        elif k == 3:
            x = np.round(x)
        elif k == 4 and n > 1:
            x[self.int(0, n - 1)] = x[self.int(0, n - 1)]
        elif k == 5:
            x[self.r.rand(n) < 0.5] *= 1e-9
        elif k == 6 and n > 1:
            # almost equal entries
            x[self.int(0, n - 1)] = x[self.int(0, n - 1)] * (1 + 1e-6) + 1e-9
        return x

    def unif(self, lo, hi, *shape):
        if not shape:
            return float(self.r.uniform(lo, hi))
        v = self.r.uniform(lo, hi, size=shape)
        if hi - lo > 1 and self.int(0, 19) == 0:
            w = np.round(v)             # special values
            v = np.where((w > lo) & (w < hi), w, v)
        return v

    def posdef(self, n, cond=1.0):
        a = self.r.randn(n, n)
        m = a.dot(a.T) + (0.3 + self.r.rand()) * np.eye(n)
        m = m * cond
        return 0.5 * (m + m.T)


def fail(msg, **kw):
    raise Violation(msg + ' ' + ' '.join('%s=%s' % (k, _s(v)) for k, v in kw.items()))


def _s(v):
    try:
        if isinstance(v, np.ndarray):
            return 'array(%s)' % (np.array2string(v, threshold=60).replace('\n', ' '),)
        return repr(v)[:600]
    except Exception as e:       # noqa
        return '<unprintable %s>' % type(v)


def is_plain(v):
    """A plain numeric value: no automatic-differentiation boxes anywhere."""
    if hasattr(v, '_node') or hasattr(v, '_trace'):
        return False
    if isinstance(v, np.ndarray) and v.dtype == object:
        return all(is_plain(e) for e in v.ravel())
    return True


def req(cond, msg, **kw):
    if not bool(cond):
        fail(msg, **kw)


def same(got, want, msg, tol=1e-8, atol=None, shape=True, **kw):
    if not is_plain(got):
        fail(msg + ': automatic-differentiation value', got=got, **kw)
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if shape and g.shape != w.shape:
        fail(msg + ': wrong shape', got_shape=g.shape, want_shape=w.shape, **kw)
    if g.size != w.size:
        fail(msg + ': wrong size', got_shape=g.shape, want_shape=w.shape, **kw)
    if g.size == 0:
        return
    if not np.all(np.isfinite(w)):
        return
    if not np.all(np.isfinite(g)):
        fail(msg + ': not finite', got=g, want=w, **kw)
    scale = 1.0 + np.max(np.abs(w))
    a = tol * scale if atol is None else atol
    d = np.max(np.abs(g.reshape(w.shape) - w))
    if not d <= a:
        fail(msg, got=g, want=w, maxdiff=d, **kw)


def exact(got, want, msg, **kw):
    if not is_plain(got):
        fail(msg + ': automatic-differentiation value', got=got, **kw)
    g = np.asarray(got); w = np.asarray(want)
    if g.shape != w.shape or not np.all(g == w):
        fail(msg, got=g, want=w, **kw)


def raises(exc, f, msg, **kw):
    try:
        with quiet():
            f()
    except exc:
        return
    except Exception as e:
        fail(msg + ': raised %s instead of %s' % (type(e).__name__, exc.__name__), error=str(e), **kw)
    fail(msg + ': no exception', **kw)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def dense(m):
    import scipy.sparse as ss
    if ss.issparse(m):
        return np.asarray(m.todense())
    return np.asarray(m)


def close(got, want, msg, rel=1e-6, tiny=1e-13, **kw):
    """entry by entry, for values of very different sizes"""
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        fail(msg + ': wrong shape', got_shape=g.shape, want_shape=w.shape, **kw)
    bad = ~(np.abs(g - w) <= rel * np.abs(w) + tiny)
    if np.any(bad):
        fail(msg, got=g[bad][:4], want=w[bad][:4], at=np.argwhere(bad)[:4].tolist(), **kw)


def num_jac(f, x, h=1e-4):
    a = _num_jac(f, x, h)
    if a.size:
        b = _num_jac(f, x, 1.7 * h)
        if not np.max(np.abs(a - b)) <= 5e-8 * (1 + np.max(np.abs(a))):
            raise Skip()
    return a


def num_hess(f, x, h=2e-3):
    a = _num_hess(f, x, h)
    if a.size:
        b = _num_hess(f, x, 1.7 * h)
        if not np.max(np.abs(a - b)) <= 4e-6 * (1 + np.max(np.abs(a))):
            raise Skip()
    return a


def num_quad(f, x, d, h=2e-3):
    """second derivative of each output along the direction d"""
    x = np.asarray(x, dtype=float)
    d = np.asarray(d, dtype=float)

    def at(t):
        return np.asarray(f(x + t * d), dtype=float).ravel()
    f0 = at(0.0)

    def one(h):
        return (-at(2 * h) + 16 * at(h) - 30 * f0 + 16 * at(-h) - at(-2 * h)) / (12 * h * h)
    a, b = one(h), one(1.7 * h)
    if a.size and not np.max(np.abs(a - b)) <= 4e-6 * (1 + np.max(np.abs(a))):
        raise Skip()
    return a


def _num_jac(f, x, h=1e-4):
    """5-point central differences: rows = outputs."""
    x = np.asarray(x, dtype=float)
    cols = []
    for j in range(x.size):
        e = np.zeros(x.size); e[j] = h
        e = e.reshape(x.shape)
        d = (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h)
        cols.append(np.asarray(d, dtype=float).ravel())
    if not cols:
        return np.zeros((np.asarray(f(x)).size, 0))
    return np.array(cols).T


def _num_hess(f, x, h=2e-3):
    """Second derivatives of each output: (out, j, k)."""
    x = np.asarray(x, dtype=float)
    n = x.size
    f0 = np.asarray(f(x), dtype=float).ravel()
    out = np.zeros((f0.size, n, n))

    def fd(dx):
        return np.asarray(f(x + dx), dtype=float).ravel()
    for j in range(n):
        ej = np.zeros(n); ej[j] = h
        out[:, j, j] = (-fd(2 * ej) + 16 * fd(ej) - 30 * f0 + 16 * fd(-ej) - fd(-2 * ej)) / (12 * h * h)
        for k in range(j):
            ek = np.zeros(n); ek[k] = h
            def mixed(s):
                return (fd(s * (ej + ek)) - fd(s * (ej - ek)) - fd(s * (-ej + ek)) + fd(-s * (ej + ek))) / (4 * s * s * h * h)
            v = (4 * mixed(1.0) - mixed(2.0)) / 3
            out[:, j, k] = v
            out[:, k, j] = v
    return out


# ---------------------------------------------------------------------------
# Parameter specifications, independent of the repository's code.

class PSpec(object):
    kind = ''

    def get(self):
        v = self.par.get()
        return v

    def cur_vector(self, value):
        return self.to_vector(value)


def rand_bounds(rng):
    k = rng.int(0, 4)
    lo = rng.choice([-3.0, -0.7, 0.0, 0.4, 2.0, 10.0])
    w = rng.choice([0.3, 1.0, 2.5, 7.0])
    if k == 0:
        return -INF, INF
    if k == 1:
        return lo, INF
    if k == 2:
        return -INF, lo
    if k == 3 and rng.flag(0.5):
        return -w, w
    return lo, lo + w


def bounded(x, lb, ub):
    x = np.asarray(x, dtype=float)
    if lb == -INF and ub == INF:
        return x + 0.0
    if ub == INF:
        return lb + np.exp(x)
    if lb == -INF:
        return ub - np.exp(-x)
    return lb + (ub - lb) / (1.0 + np.exp(-x))


def in_bounds(rng, lb, ub, *shape):
    if lb == -INF and ub == INF:
        return rng.normal(*shape, scale=2.0)
    if ub == INF:
        return lb + rng.unif(0.05, 6.0, *shape)
    if lb == -INF:
        return ub - rng.unif(0.05, 6.0, *shape)
    return lb + (ub - lb) * rng.unif(0.03, 0.97, *shape)


class SScalar(PSpec):
    kind = 'scalar'

    def __init__(self, rng, vb, name='p'):
        self.lb, self.ub = rand_bounds(rng)
        self.rng = rng
        kw = {}
        if rng.flag():
            self.val0 = in_bounds(rng, self.lb, self.ub)
            kw['val'] = self.val0
        else:
            self.val0 = None
        self.desc = 'ScalarParam(lb=%r, ub=%r, %r)' % (self.lb, self.ub, kw)
        self.par = vb.ScalarParam(name, lb=self.lb, ub=self.ub, **kw)
        self.free_size = self.vec_size = 1

    def rand_free(self):
        return self.rng.pt(1, 1.5)

    def rand_value(self):
        return in_bounds(self.rng, self.lb, self.ub)

    def free_to_value(self, x):
        return bounded(x, self.lb, self.ub)

    def to_vector(self, v):
        return np.reshape(np.asarray(v, dtype=float), 1)

    def from_vector(self, v):
        return np.asarray(v, dtype=float)

    def ok(self, v):
        return bool(np.all(v > self.lb) and np.all(v < self.ub))

    def wrong_values(self):
        return [np.zeros(2) + 0.5, np.zeros(0), np.zeros((2, 2)) + 0.5]
    wrong_free = wrong_vector = wrong_values


class SVector(SScalar):
    kind = 'vector'

    def __init__(self, rng, vb, name='p', size=None):
        self.lb, self.ub = rand_bounds(rng)
        self.rng = rng
        self.n = rng.dim(6) if size is None else size
        kw = {}
        self.val0 = None
        if rng.flag():
            self.val0 = in_bounds(rng, self.lb, self.ub, self.n)
            kw['val'] = self.val0.copy()
        self.desc = 'VectorParam(size=%r, lb=%r, ub=%r, %r)' % (self.n, self.lb, self.ub, kw)
        self.par = vb.VectorParam(name, size=self.n, lb=self.lb, ub=self.ub, **kw)
        self.free_size = self.vec_size = self.n

    def rand_free(self):
        return self.rng.pt(self.n, 1.5)

    def rand_value(self):
        return in_bounds(self.rng, self.lb, self.ub, self.n)

    def to_vector(self, v):
        return np.asarray(v, dtype=float).reshape(self.n)

    def wrong_values(self):
        return [np.zeros(self.n + 1) + 0.5, np.zeros(max(self.n - 1, 0)), np.zeros(2 * self.n)]
    wrong_free = wrong_vector = wrong_values


class SArray(SScalar):
    kind = 'array'

    def __init__(self, rng, vb, name='p', shape=None):
        self.lb, self.ub = rand_bounds(rng)
        self.rng = rng
        self.shape = tuple(rng.dim(3) for _ in range(rng.int(1, 3))) if shape is None else shape
        kw = {}
        self.val0 = None
        if rng.flag():
            self.val0 = in_bounds(rng, self.lb, self.ub, *self.shape)
            kw['val'] = self.val0.copy()
        self.desc = 'ArrayParam(shape=%r, lb=%r, ub=%r, %r)' % (self.shape, self.lb, self.ub, kw)
        self.par = vb.ArrayParam(name, shape=self.shape, lb=self.lb, ub=self.ub, **kw)
        self.n = int(np.prod(self.shape))
        self.free_size = self.vec_size = self.n

    def rand_free(self):
        return self.rng.pt(self.n, 1.5)

    def rand_value(self):
        return in_bounds(self.rng, self.lb, self.ub, *self.shape)

    def free_to_value(self, x):
        return bounded(x, self.lb, self.ub).reshape(self.shape)

    def to_vector(self, v):
        return np.asarray(v, dtype=float).reshape(self.n)

    def from_vector(self, v):
        return np.asarray(v, dtype=float).reshape(self.shape)

    def wrong_values(self):
        s = self.shape
        out = [np.zeros(s + (1,)), np.zeros((s[0] + 1,) + s[1:]), np.zeros(s[:-1] + (s[-1] + 2,))]
        if len(s) > 1:
            out.append(np.zeros(self.n))
            if s[::-1] != s:
                out.append(np.zeros(s[::-1]))
        return out

    def wrong_free(self):
        return [np.zeros(self.n + 1), np.zeros(max(self.n - 1, 0)), np.zeros(self.n * 2)]
    wrong_vector = wrong_free


def ld_index(n):
    return [(i, j) for i in range(n) for j in range(i + 1)]


def posdef_from_free(x, n, lb):
    L = np.zeros((n, n))
    for k, (i, j) in enumerate(ld_index(n)):
        L[i, j] = math.exp(x[k]) if i == j else x[k]
    return L.dot(L.T) + lb * np.eye(n)


def sym_to_vec(m):
    return np.array([m[i, j] for (i, j) in ld_index(m.shape[0])], dtype=float)


def vec_to_sym(v, n):
    m = np.zeros((n, n))
    for k, (i, j) in enumerate(ld_index(n)):
        m[i, j] = v[k]; m[j, i] = v[k]
    return m


class SPosDef(PSpec):
    kind = 'posdef'

    def __init__(self, rng, vb, name='p', size=None):
        self.rng = rng
        self.n = rng.dim(4) if size is None else size
        self.lb = rng.choice([0.0, 0.0, 0.5, 2.0])
        self.vs = self.n * (self.n + 1) // 2
        kw = {}
        self.val0 = None
        if rng.flag():
            self.val0 = self.rand_value(); kw['val'] = self.val0.copy()
        self.desc = 'PosDefMatrixParam(size=%r, diag_lb=%r, %r)' % (self.n, self.lb, kw)
        self.par = vb.PosDefMatrixParam(name, size=self.n, diag_lb=self.lb, **kw)
        self.free_size = self.vec_size = self.vs

    def rand_free(self):
        return self.rng.pt(self.vs, 0.7) * min(1.0, 3.0 / self.n)

    def rand_value(self):
        return self.rng.posdef(self.n) + self.lb * np.eye(self.n)

    def free_to_value(self, x):
        return posdef_from_free(x, self.n, self.lb)

    def to_vector(self, v):
        return sym_to_vec(np.asarray(v))

    def from_vector(self, v):
        return vec_to_sym(np.asarray(v), self.n)

    def ok(self, v):
        ex = np.asarray(v) - self.lb * np.eye(self.n)
        return bool(np.allclose(v, np.asarray(v).T, atol=1e-10) and np.min(np.linalg.eigvalsh(ex)) > 0)

    def wrong_values(self):
        n = self.n
        asym = np.eye(n); out = [np.eye(n + 1), np.zeros((n, n + 1)), np.zeros((n + 1, n))]
        if n > 1:
            asym[n - 1, 0] = 0.25
            out += [asym, np.eye(n - 1), np.zeros((n, n - 1))]
            a2 = np.eye(n); a2[0, 1] = -0.1; out.append(a2)
        return out

    def wrong_free(self):
        out = [np.zeros(self.vs + 1), np.zeros(self.vs + self.n + 1)]
        if self.vs > 1:
            out += [np.zeros(self.vs - 1)]
        return out
    wrong_vector = wrong_free


class SPosDefVector(PSpec):
    kind = 'posdefvector'

    def __init__(self, rng, vb, name='p'):
        self.rng = rng
        self.n = rng.dim(3)
        self.len = rng.dim(3)
        self.ashape = (self.len,)
        self.lb = rng.choice([0.0, 0.0, 0.5, 2.0])
        self.setup()
        kw = {}
        self.val0 = None
        if rng.flag():
            self.val0 = self.rand_value(); kw['val'] = self.val0.copy()
        self.desc = 'PosDefMatrixParamVector(length=%r, matrix_size=%r, diag_lb=%r, %r)' % (self.len, self.n, self.lb, kw)
        self.par = vb.PosDefMatrixParamVector(name, length=self.len, matrix_size=self.n, diag_lb=self.lb, **kw)

    def setup(self):
        self.vs = self.n * (self.n + 1) // 2
        self.len = int(np.prod(self.ashape))
        self.shape = tuple(self.ashape) + (self.n, self.n)
        self.free_size = self.vec_size = self.vs * self.len

    def rand_free(self):
        return self.rng.pt(self.free_size, 0.7) * min(1.0, 3.0 / self.n)

    def rand_value(self):
        return np.array([self.rng.posdef(self.n) + self.lb * np.eye(self.n) for _ in range(self.len)]).reshape(self.shape)

    def free_to_value(self, x):
        x = np.asarray(x, dtype=float)
        return np.array([posdef_from_free(x[i * self.vs:(i + 1) * self.vs], self.n, self.lb)
                         for i in range(self.len)]).reshape(self.shape)

    def to_vector(self, v):
        v = np.asarray(v).reshape((self.len, self.n, self.n))
        return np.concatenate([sym_to_vec(m) for m in v])

    def from_vector(self, v):
        v = np.asarray(v, dtype=float)
        return np.array([vec_to_sym(v[i * self.vs:(i + 1) * self.vs], self.n)
                         for i in range(self.len)]).reshape(self.shape)

    def ok(self, v):
        v = np.asarray(v).reshape((self.len, self.n, self.n))
        return all(np.allclose(m, m.T, atol=1e-10) and
                   np.min(np.linalg.eigvalsh(m - self.lb * np.eye(self.n))) > 0 for m in v)

    def wrong_values(self):
        s = self.shape
        out = [np.zeros(s + (1,)), np.zeros((s[0] + 1,) + s[1:]), np.zeros(s[:-1] + (s[-1] + 1,)),
               np.zeros(s[:-2] + (s[-2] + 1, s[-1])), np.zeros(s[:-2] + (s[-2] + 1, s[-1] + 1)), np.zeros(s[1:])]
        return out

    def wrong_free(self):
        return [np.zeros(self.free_size + 1), np.zeros(self.free_size - 1), np.zeros(2 * self.free_size)]
    wrong_vector = wrong_free


class SPosDefArray(SPosDefVector):
    kind = 'posdefarray'

    def __init__(self, rng, vb, name='p'):
        self.rng = rng
        self.n = rng.dim(3)
        self.ashape = tuple(rng.dim(3) for _ in range(rng.int(1, 2)))
        if int(np.prod(self.ashape)) > 4:
            self.ashape = (2, 2) if len(self.ashape) > 1 else (4,)
        self.lb = rng.choice([0.0, 0.0, 0.5, 2.0])
        self.setup()
        kw = {}
        self.val0 = None
        if rng.flag():
            self.val0 = self.rand_value(); kw['val'] = self.val0.copy()
        self.desc = 'PosDefMatrixParamArray(array_shape=%r, matrix_size=%r, diag_lb=%r, %r)' % (self.ashape, self.n, self.lb, kw)
        self.par = vb.PosDefMatrixParamArray(name, array_shape=self.ashape, matrix_size=self.n, diag_lb=self.lb, **kw)


class SSimplex(PSpec):
    kind = 'simplex'

    def __init__(self, rng, vb, name='p', shape=None):
        self.rng = rng
        self.shape = (rng.dim(4), 1 + rng.dim(3)) if shape is None else shape
        if shape is None and rng.int(0, 7) == 0:
            self.shape = (1, rng.int(5, 9))         # one long row
        kw = {}
        self.val0 = None
        if rng.flag():
            self.val0 = self.rand_value(); kw['val'] = self.val0.copy()
        self.desc = 'SimplexParam(shape=%r, %r)' % (self.shape, kw)
        self.par = vb.SimplexParam(name, shape=self.shape, **kw)
        self.free_size = self.shape[0] * (self.shape[1] - 1)
        self.vec_size = self.shape[0] * self.shape[1]

    def rand_free(self):
        return self.rng.pt(self.shape[0] * (self.shape[1] - 1), 1.2)

    def rand_value(self):
        p = np.exp(self.rng.normal(*self.shape))
        return p / p.sum(axis=1)[:, None]

    def free_to_value(self, x):
        n, m = self.shape
        x = np.asarray(x, dtype=float).reshape(n, m - 1)
        out = np.zeros((n, m))
        for i in range(n):
            e = np.exp(np.concatenate([[0.0], x[i]]))
            out[i] = e / e.sum()
        return out

    def to_vector(self, v):
        return np.asarray(v, dtype=float).reshape(self.vec_size)

    def from_vector(self, v):
        return np.asarray(v, dtype=float).reshape(self.shape)

    def ok(self, v):
        v = np.asarray(v)
        return bool(np.all(v > 0) and np.allclose(v.sum(axis=1), 1.0, atol=1e-10))

    def wrong_values(self):
        s = self.shape
        out = [np.zeros((s[0] + 1, s[1])), np.zeros((s[0], s[1] + 1)), np.zeros(s[0] * s[1]), np.zeros(s + (1,))]
        if s[0] != s[1]:
            out.append(np.zeros(s[::-1]))
        return out

    def wrong_free(self):
        return [np.zeros(self.free_size + 1), np.zeros(self.free_size - 1), np.zeros(2 * self.free_size)]

    def wrong_vector(self):
        return [np.zeros(self.vec_size + 1), np.zeros(self.vec_size - 1)]


class SSubspace(PSpec):
    kind = 'subspace'

    def __init__(self, rng, vb, name='p'):
        self.rng = rng
        self.dim = 1 + rng.dim(5)
        kw = {}
        if rng.flag(0.7):
            c = rng.int(1, self.dim - 1)
            self.x = rng.normal(c, self.dim)
            self.passed = self.x.copy()
            kw['perp_subspace'] = self.passed
        else:
            self.x = np.ones((1, self.dim))
            self.passed = None
        # orthonormal basis of the complement, independently of eigh
        q, _ = np.linalg.qr(np.concatenate([self.x.T, np.eye(self.dim)], axis=1))
        self.B = q[:, self.x.shape[0]:self.dim]
        self.P = np.eye(self.dim) - self.x.T.dot(np.linalg.solve(self.x.dot(self.x.T), self.x))
        self.val0 = None
        if rng.flag():
            self.val0 = self.rand_value(); kw['val'] = self.val0.copy()
        self.desc = 'SubspaceVectorParam(dim=%r, %r)' % (self.dim, kw)
        self.par = vb.SubspaceVectorParam(name, dim=self.dim, **kw)
        self.free_size = self.dim - self.x.shape[0]
        self.vec_size = self.dim

    def rand_free(self):
        return self.rng.pt(self.dim - self.x.shape[0])

    def rand_value(self):
        return self.P.dot(self.rng.normal(self.dim))

    def basis(self):
        """The linear map the object itself uses, read through its API."""
        p = copy.deepcopy(self.par)
        cols = []
        for j in range(self.free_size):
            e = np.zeros(self.free_size); e[j] = 1.0
            p.set_free(e); cols.append(np.array(p.get(), dtype=float))
        return np.array(cols).T

    def free_to_value(self, x):
        if not hasattr(self, '_basis'):
            self._basis = self.basis()
        return self._basis.dot(np.asarray(x, dtype=float))

    def to_vector(self, v):
        return np.asarray(v, dtype=float).reshape(self.dim)

    from_vector = to_vector

    def ok(self, v):
        return bool(np.max(np.abs(self.x.dot(v))) < 1e-8)

    def wrong_values(self):
        return [np.zeros(self.dim + 1), np.zeros(self.dim - 1)]
    wrong_vector = wrong_values

    def wrong_free(self):
        return [np.zeros(self.free_size + 1), np.zeros(self.free_size - 1), np.zeros(self.dim)] \
            if self.free_size != self.dim else []


ELEM = [SScalar, SVector, SArray, SPosDef, SPosDefVector, SPosDefArray, SSimplex, SSubspace]


class SDict(PSpec):
    kind = 'dict'

    def __init__(self, rng, vb, name='d', depth=0, kinds=None, nmax=4):
        self.rng = rng
        self.par = vb.ModelParamsDict(name)
        self.mem = []
        n = rng.int(1, nmax)
        names = ['a', 'b10', 'z', 'B', 'c2', 'mu', 'b2']
        rng.r.shuffle(names)
        for i in range(n):
            if depth < 2 and rng.flag(0.2):
                s = SDict(rng, vb, names[i], depth + 1, kinds=kinds, nmax=3)
            else:
                s = rng.choice(kinds or ELEM)(rng, vb, names[i])
            self.mem.append(s)
            self.par.push_param(s.par)
        self.names = names[:n]
        self.free_size = sum(s.free_size for s in self.mem)
        self.vec_size = sum(s.vec_size for s in self.mem)
        self.desc = 'ModelParamsDict[%s]' % ', '.join(s.desc for s in self.mem)

    def rand_free(self):
        return np.concatenate([s.rand_free() for s in self.mem])

    def rand_vector(self):
        return np.concatenate([s.rand_vector() if s.kind == 'dict' else s.to_vector(s.rand_value()) for s in self.mem])

    def free_to_vec(self, x):
        out = []; o = 0
        for s in self.mem:
            out.append(free_to_vec(s, x[o:o + s.free_size])); o += s.free_size
        return np.concatenate(out)

    def wrong_free(self):
        return [np.zeros(self.free_size + 1), np.zeros(max(self.free_size - 1, 0)), np.zeros(2 * self.free_size)]

    def wrong_vector(self):
        return [np.zeros(self.vec_size + 1), np.zeros(max(self.vec_size - 1, 0)), np.zeros(2 * self.vec_size)]


def free_to_vec(s, x):
    if s.kind == 'dict':
        return s.free_to_vec(x)
    return s.to_vector(s.free_to_value(x))


def rand_vector(s):
    if s.kind == 'dict':
        return s.rand_vector()
    return s.to_vector(s.rand_value())


def churn(rng, s, k=None):
    """An arbitrary legal history of operations on the parameter."""
    p = s.par
    for _ in range(rng.int(0, 3) if k is None else k):
        op = rng.int(0, 6)
        if op == 0:
            p.set_free(s.rand_free())
        elif op == 1:
            p.set_vector(rand_vector(s))
        elif op == 2 and s.kind != 'dict':
            p.set(s.rand_value())
        elif op == 3:
            p.get_vector()
        elif op == 4 and s.free_size <= 6:
            with quiet():
                x = s.rand_free()
                p.free_to_vector_jac(x)
                p.set_free(x)
        elif op == 5 and s.free_size <= 6:
            with quiet():
                x = s.rand_free()
                p.free_to_vector_hess(x)
                p.set_free(x)
        else:
            copy.deepcopy(p)
            str(p)


def snapshot_vec(p):
    return np.array(p.get_vector(), dtype=float).copy()
