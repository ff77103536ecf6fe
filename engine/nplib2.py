"""More of numpy and scipy, expressed through the functions of nplib: used by
code that computes the same thing in other words."""
from fractions import Fraction as Fr

from . import terms as T
from . import sym as S
from .sym import SV, SBool, SArr, VList, to_poly, asarr
from .terms import ZERO, ONE, const, Unsupported, CTX, app


def with_out(f, nargs):
    """f with numpy's out= (keyword, or after the operands)"""
    def g(*a, **kw):
        out = kw.pop('out', None)
        if len(a) == nargs + 1 and out is None:
            out, a = a[-1], a[:-1]
        if kw:
            raise Unsupported('%s keywords %s' % (
                getattr(f, '__name__', f), sorted(kw)))
        r = f(*a)
        if out is None:
            return r
        if not isinstance(out, SArr):
            raise Unsupported('out= of another kind')
        shp = asarr(r).shp
        if len(shp) != len(out.shp) or not all(
                S.same_dim(x, y) for x, y in zip(shp, out.shp)):
            raise Unsupported('out= of another shape')
        if out.dt == 'int' and asarr(r).dt == 'float':
            raise TypeError('Cannot cast ufunc output')
        S.setitem(out, Ellipsis, freeze(r))
        return out
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def freeze(r):
    """r with its present contents (the target may overlap an operand)"""
    if not isinstance(r, SArr):
        return r
    g = r.snap()
    return SArr(r.shp, lambda *i: g(list(i)), r.dt)


def cmp_fn(kind):
    if kind == 'ne':
        return lambda a, b: wrap_operand(a) != b
    if kind == 'eq':
        return lambda a, b: wrap_operand(a) == b
    if kind == 'lt':
        return lambda a, b: wrap_operand(a) < b
    if kind == 'le':
        return lambda a, b: wrap_operand(a) <= b
    if kind == 'gt':
        return lambda a, b: wrap_operand(a) > b
    return lambda a, b: wrap_operand(a) >= b


def wrap_operand(a):
    if isinstance(a, (VList, list, tuple)):
        return asarr(a)
    return a


def arr_or_num(a):
    return asarr(a) if isinstance(a, (VList, list, tuple)) else a


def extend_numpy(m, nl):
    d = m.__dict__
    for n in ('exp', 'log', 'sqrt', 'abs', 'absolute', 'square', 'negative',
              'logical_not', 'log1p', 'expm1', 'reciprocal', 'sign'):
        d[n] = with_out(d[n], 1)
    for n in ('add', 'subtract', 'multiply', 'divide', 'true_divide',
              'maximum', 'minimum', 'power', 'logical_and', 'logical_or',
              'matmul', 'dot'):
        d[n] = with_out(d[n], 2)
    for n, k in (('equal', 'eq'), ('not_equal', 'ne'), ('less', 'lt'),
                 ('less_equal', 'le'), ('greater', 'gt'),
                 ('greater_equal', 'ge')):
        d[n] = cmp_fn(k)

    def logaddexp(a, b):
        return d['log'](d['exp'](arr_or_num(a)) + d['exp'](arr_or_num(b)))
    d['logaddexp'] = logaddexp
    two = SV(const(2))
    d['log2'] = lambda a: d['log'](a) / d['log'](two)
    d['log10'] = lambda a: d['log'](a) / d['log'](SV(const(10)))
    d['exp2'] = lambda a: d['exp'](arr_or_num(a) * d['log'](two))
    d['fabs'] = d['abs']

    def tanh(a):
        a = arr_or_num(a)
        e = d['exp'](2 * a)
        return (e - 1) / (e + 1)
    d['tanh'] = tanh

    def never(a):
        a = asarr(arr_or_num(a))
        if not a.shp:
            return False
        return SArr(a.shp, lambda *i: ZERO, 'bool')
    nl.used     # numbers are real numbers: never nan
    d['isnan'] = never

    def var(a, axis=None, ddof=0, keepdims=False):
        if ddof != 0:
            raise Unsupported('ddof')
        a = asarr(a)
        e = a - S.np_mean(a, axis, True)
        return S.np_mean(e * e, axis, keepdims)
    d['var'] = var

    def std(a, axis=None):
        raise Unsupported('std')
    d['std'] = std

    def average(a, axis=None, weights=None):
        if weights is None:
            return S.np_mean(asarr(a), axis)
        a, w = asarr(a), asarr(weights)
        if len(a.shp) != len(w.shp):
            raise Unsupported('average weights')
        return S.np_sum(a * w, axis) / S.np_sum(w, axis)
    d['average'] = average

    def isclose(a, b, rtol=1e-05, atol=1e-08):
        a, b = arr_or_num(a), arr_or_num(b)
        return d['abs'](a - b) <= atol + rtol * d['abs'](b)
    d['isclose'] = isclose
    d['allclose'] = lambda a, b, rtol=1e-05, atol=1e-08: S.np_all(
        isclose(a, b, rtol, atol))

    def diag_indices(n, ndim=2):
        r = S.arange(n)
        return tuple(S.arange(n) for _ in range(ndim))
    d['diag_indices'] = diag_indices
    d['diag_indices_from'] = lambda a: diag_indices(
        SV(asarr(a).shp[0]) if not asarr(a).shp[0].is_const()
        else int(asarr(a).shp[0].const()), len(asarr(a).shp))

    def empty(shape, dtype=None, **kw):
        r = S.full(shape, 0.0, dtype)
        if r.dt != 'float':
            raise Unsupported('empty of %s' % r.dt)
        name = T.fresh_name('A:uninit')
        r.cell.set(lambda *i: T.app(name, *i))
        return r
    d['empty'] = empty
    d['empty_like'] = lambda a, dtype=None: empty(asarr(a).shape, dtype)

    def column_stack(xs):
        l = [asarr(x) for x in xs]
        return nl.np_concatenate([x[:, None] if len(x.shp) == 1 else x
                                  for x in l], axis=1)
    d['column_stack'] = column_stack
    d['atleast_2d'] = lambda a: atleast_2d(a)
    d['flip'] = flip
    d['float_'] = float
    d['int_'] = int
    d['float32'] = d['float64']
    d.pop('float32')

    more_numpy(d, nl)
    for n in ('add', 'multiply', 'maximum', 'minimum', 'logical_and',
              'logical_or', 'subtract'):
        ufunc_methods(d, d[n], n)

    la = m.linalg.__dict__

    def norm(a, ord=None, axis=None, keepdims=False):
        a = asarr(a)
        if axis is None and keepdims:
            raise Unsupported('norm keepdims')
        inf = isinstance(ord, float) and ord == float('inf')
        if axis is None and len(a.shp) == 1 or isinstance(axis, int):
            if ord is None or is_num(ord, 2):
                return d['sqrt'](S.np_sum(a * a, axis, keepdims))
            if is_num(ord, 1):
                return S.np_sum(d['abs'](a), axis, keepdims)
            if inf and not keepdims:
                return S.np_max(d['abs'](a), axis)
            raise Unsupported('norm order')
        if ord is None or ord == 'fro' and len(a.shp) == 2:
            return d['sqrt'](S.np_sum(a * a, axis, keepdims))
        raise Unsupported('matrix norm')
    la['norm'] = norm

    def multi_dot(xs):
        xs = list(xs)
        r = xs[0]
        for x in xs[1:]:
            r = S.np_dot(asarr(r), asarr(x))
        return r
    la['multi_dot'] = multi_dot

    def matrix_power(a, n):
        if not isinstance(n, int) or not 0 < n < 5:
            raise Unsupported('matrix_power')
        return multi_dot([a] * n)
    la['matrix_power'] = matrix_power


def reversed_shape_T(a):
    return S.transpose(a) if len(a.shp) > 1 else a


def more_numpy(d, nl):
    np_concat = nl.np_concatenate

    def reshape(a, shape, order='C'):
        if order in ('F',):
            a = asarr(a)
            shp = S.norm_shape(shape, S.prod_poly(a.shp))
            t = S.reshape(S.transpose(a).copy() if len(a.shp) > 1 else a,
                          tuple(SV(x) if not x.is_const() else
                                int(x.const()) for x in reversed(shp)))
            return S.transpose(t) if len(shp) > 1 else t
        return nl.np_reshape(a, shape, order)
    d['reshape'] = reshape

    def repeat(a, n, axis=None):
        a = asarr(a)
        if isinstance(n, SArr) and n.shp:
            raise Unsupported('repeat counts')
        k = S.dim_poly(n)
        if axis is None:
            a = S.reshape(S.atleast_1d(a), (-1,))
            axis = 0
        axis = axis % len(a.shp)
        g = a.snap()
        shp = list(a.shp)
        shp[axis] = shp[axis] * k

        def fn(*i):
            ix = list(i)
            ix[axis] = T.mk_idiv(ix[axis], k)
            return g(ix)
        return SArr(shp, fn, a.dt)
    d['repeat'] = repeat

    def roll(a, shift, axis=None):
        a = asarr(a)
        if len(a.shp) != 1 or not isinstance(shift, int):
            raise Unsupported('roll')
        g = a.snap()
        n = a.shp[0]
        return SArr(a.shp, lambda i: g([T.mk_imod(
            i - const(shift) + n * const(abs(shift)), n)]), a.dt)
    d['roll'] = roll

    def diff(a, n=1, axis=-1):
        a = asarr(a)
        if n != 1 or axis not in (-1, len(a.shp) - 1):
            raise Unsupported('diff')
        return a[..., 1:] - a[..., :-1]
    d['diff'] = diff
    d['fliplr'] = lambda a: flip(a, 1)
    d['flipud'] = lambda a: flip(a, 0)
    d['floor_divide'] = lambda a, b: arr_or_num(a) // b
    d['mod'] = d['remainder'] = lambda a, b: arr_or_num(a) % b
    d['hypot'] = lambda a, b: d['sqrt'](arr_or_num(a) ** 2 +
                                        arr_or_num(b) ** 2)
    d['sinh'] = lambda a: (d['exp'](arr_or_num(a)) -
                           d['exp'](-arr_or_num(a))) / 2
    d['cosh'] = lambda a: (d['exp'](arr_or_num(a)) +
                           d['exp'](-arr_or_num(a))) / 2
    d['ascontiguousarray'] = lambda a, dtype=None: (
        asarr(a) if asarr(a).contig else asarr(a).copy())
    d['asfortranarray'] = lambda a: asarr(a).copy()
    d['nan_to_num'] = lambda a, *k: asarr(a).copy() if isinstance(
        arr_or_num(a), SArr) else a

    def kron(a, b):
        a, b = asarr(a), asarr(b)
        if len(a.shp) != len(b.shp) or not a.shp:
            raise Unsupported('kron')
        ga, gb = a.snap(), b.snap()
        bs = b.shp
        return SArr([x * y for x, y in zip(a.shp, bs)],
                    lambda *i: ga([T.mk_idiv(x, y) for x, y in zip(i, bs)]) *
                    gb([T.mk_imod(x, y) for x, y in zip(i, bs)]))
    d['kron'] = kron

    def split(a, where, axis=0):
        a = asarr(a)
        if isinstance(where, (int, SV)):
            raise Unsupported('split into equal parts')
        cuts = list(S.as_vlist(where))
        lead = (slice(None),) * (axis % len(a.shp))
        out = []
        prev = None
        for c in cuts + [None]:
            out.append(a[lead + (slice(prev, c),)])
            prev = c
        return VList(out)
    d['split'] = split

    def meshgrid(a, b, indexing='xy'):
        a, b = asarr(a), asarr(b)
        ga, gb = a.snap(), b.snap()
        if indexing == 'ij':
            shp = (a.shp[0], b.shp[0])
            return VList([SArr(shp, lambda i, j: ga([i]), a.dt),
                          SArr(shp, lambda i, j: gb([j]), b.dt)])
        shp = (b.shp[0], a.shp[0])
        return VList([SArr(shp, lambda i, j: ga([j]), a.dt),
                      SArr(shp, lambda i, j: gb([i]), b.dt)])
    d['meshgrid'] = meshgrid

    def delete(a, k, axis=None):
        a = asarr(a)
        if not isinstance(k, int) or k < 0 or (axis is None and
                                               len(a.shp) != 1):
            raise Unsupported('delete')
        axis = (axis or 0) % len(a.shp)
        lead = (slice(None),) * axis
        a[lead + (k,)]          # (bounds)
        return np_concat([a[lead + (slice(None, k),)],
                          a[lead + (slice(k + 1, None),)]], axis)
    d['delete'] = delete

    def insert(a, k, v, axis=None):
        a = asarr(a)
        if len(a.shp) != 1 or not isinstance(k, (int, SV)) or \
                not isinstance(v, (int, float, SV)):
            raise Unsupported('insert')
        return np_concat([a[:k], S.atleast_1d(v), a[k:]])
    d['insert'] = insert

    def rollaxis(a, axis, start=0):
        n = len(asarr(a).shp)
        axis, start = axis % n, start if start >= 0 else start + n
        if axis < start:
            start -= 1
        return nl.np_moveaxis(a, axis, start)
    d['rollaxis'] = rollaxis

    class RClass(object):
        def __getitem__(self, key):
            if not isinstance(key, tuple):
                key = (key,)
            if any(isinstance(k, (slice, str)) for k in key):
                raise Unsupported('r_')
            ps = [S.atleast_1d(k) for k in key]
            return np_concat(ps, len(ps[0].shp) - 1 if False else 0)
    d['r_'] = RClass()

    class CClass(object):
        def __getitem__(self, key):
            if not isinstance(key, tuple):
                key = (key,)
            if any(isinstance(k, (slice, str)) for k in key):
                raise Unsupported('c_')
            return d['column_stack'](key)
    d['c_'] = CClass()

    def dstack(xs):
        xs = [asarr(x) for x in xs]
        if any(len(x.shp) != 2 for x in xs):
            raise Unsupported('dstack')
        return np_concat([x[:, :, None] for x in xs], axis=2)
    d['dstack'] = dstack

    def vectorize(f, *a, **k):
        if a or k:
            raise Unsupported('vectorize')

        def g(x):
            if not isinstance(arr_or_num(x), SArr):
                return f(x)
            x = asarr(x)
            h = x.snap()
            return SArr(x.shp, lambda *i: to_poly(f(S.mk_scalar(
                h(list(i)), x.dt))), 'float')
        return g
    d['vectorize'] = vectorize

    def block(rows):
        rows = list(rows)
        if not all(isinstance(r, (list, tuple, VList)) for r in rows):
            raise Unsupported('block')
        return np_concat([np_concat([atleast_2d(x) for x in r], axis=1)
                          for r in rows], axis=0)
    d['block'] = block

    def triu_indices(n, k=0, m=None):
        """the transposed positions of the lower triangle of the reversed
        matrix"""
        if k != 0 or m is not None:
            raise Unsupported('triu_indices offset')
        p = S.dim_poly(n)
        ln = (p * p + p).scale(Fr(1, 2))
        last = ln - ONE
        return (SArr((ln,), lambda t: p - ONE - app('trow', last - t), 'int'),
                SArr((ln,), lambda t: p - ONE - app('tcol', last - t), 'int'))
    d['triu_indices'] = triu_indices

    def inner(a, b):
        a, b = arr_or_num(a), arr_or_num(b)
        if not isinstance(a, SArr) or not isinstance(b, SArr) or \
                len(a.shp) < 2 and len(b.shp) < 2:
            return nl.np_inner(a, b)
        if len(b.shp) == 1:
            return S.matmul(a, b)
        if len(b.shp) == 2:
            return S.matmul(a, S.transpose(b))
        raise Unsupported('inner')
    d['inner'] = inner
    base_td = nl.tensordot

    def tensordot(a, b, axes=2):
        a, b = asarr(a), asarr(b)
        if isinstance(axes, int):
            if axes == len(b.shp):
                return base_td(a, b, axes)
            ia = list(range(len(a.shp) - axes, len(a.shp)))
            ib = list(range(axes))
        else:
            ia, ib = list(axes)
            ia = [ia] if isinstance(ia, int) else list(ia)
            ib = [ib] if isinstance(ib, int) else list(ib)
            ia = [x % len(a.shp) for x in ia]
            ib = [x % len(b.shp) for x in ib]
        for x, y in zip(ia, ib):
            if not S.same_dim(a.shp[x], b.shp[y]):
                raise ValueError('shape-mismatch for sum')
        ka = [i for i in range(len(a.shp)) if i not in ia]
        kb = [i for i in range(len(b.shp)) if i not in ib]
        ga, gb = a.snap(), b.snap()

        def fn(*i):
            def at(ix):
                xa, xb = [None] * len(a.shp), [None] * len(b.shp)
                for p, q in zip(ka, i):
                    xa[p] = q
                for p, q in zip(kb, i[len(ka):]):
                    xb[p] = q
                for p, q, r in zip(ia, ib, ix):
                    xa[p] = xb[q] = r
                return ga(xa) * gb(xb)
            return S.sum_over([a.shp[x] for x in ia], at)
        shp = [a.shp[x] for x in ka] + [b.shp[x] for x in kb]
        if not shp:
            return SV(fn())
        return SArr(shp, fn)
    d['tensordot'] = tensordot
    base_stack = nl.np_stack

    def stack(parts, axis=0):
        r = base_stack(parts)
        return r if axis == 0 else nl.np_moveaxis(r, 0, axis)
    d['stack'] = stack

    def fill_diagonal(a, v):
        v = arr_or_num(v)
        if isinstance(v, SArr) and v.shp:
            i = S.arange(a.shape[0])
            if len(a.shp) != 2 or not S.same_dim(a.shp[0], a.shp[1]):
                raise Unsupported('fill_diagonal')
            if not S.same_dim(v.shp[0], a.shp[0]):
                raise Unsupported('fill_diagonal repeats')
            a[i, i] = v
            return None
        return nl.np_fill_diagonal(a, v)
    d['fill_diagonal'] = fill_diagonal

    def cumsum(a, axis=None):
        a = asarr(a)
        if len(a.shp) != 1:
            raise Unsupported('cumsum')
        g = a.snap()
        n = a.shp[0]
        if n.is_const():
            vs = []
            t = ZERO
            for i in range(int(n.const())):
                t = t + g([const(i)])
                vs.append(SV(t))
            return S.asarr(vs)

        def fn(i):
            k = T.fresh('s')
            c = CTX()
            c.push()
            try:
                c.add_range(k, n)
                body = g([k]) * T.mk_ind('ge', i - k)
                return T.mk_sum(k, n, body)
            finally:
                c.pop()
        return SArr(a.shp, fn, a.dt)
    d['cumsum'] = cumsum

    def quant(name, f):
        def h(a, axis=None, keepdims=False):
            a = arr_or_num(a)
            if axis is None or not isinstance(a, SArr):
                return f(a)
            if not isinstance(axis, int):
                raise Unsupported(name)
            axis = axis % len(a.shp)
            d0 = a.shp[axis]
            g = a.snap()
            if a.dt != 'bool':
                raise Unsupported(name)
            rest = a.shp[:axis] + a.shp[axis + 1:]

            def fn(*i):
                def at(ix):
                    p = g(list(i[:axis]) + ix + list(i[axis:]))
                    return ONE - p if name == 'all' else p
                cnt = S.sum_over([d0], at)
                z = T.mk_ind('eq', cnt)
                return z if name == 'all' else ONE - z
            return SArr(rest, fn, 'bool')
        return h
    d['all'] = quant('all', S.np_all)
    d['any'] = quant('any', S.np_any)
    d['float64'] = nl.v_float
    d['float'] = nl.v_float


def ufunc_methods(d, f, name):
    def reduce(a, axis=0, **kw):
        if kw:
            raise Unsupported('reduce')
        if name == 'add':
            return S.np_sum(asarr(a), axis)
        if name == 'multiply' and axis == 0:
            pass
        a = S.as_vlist(a) if not isinstance(a, SArr) else a
        xs = list(a)
        if axis != 0 or not xs:
            raise Unsupported('reduce')
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    def outer(a, b):
        a, b = asarr(a), asarr(b)
        for _ in b.shp:
            a = a[..., None]
        return f(a, b)

    def at(a, ix, v):
        if name != 'add':
            raise Unsupported('ufunc.at')
        ks = S.norm_key(a, ix if isinstance(ix, tuple) else (ix,))
        rs = [asarr(k) for k in ks if not isinstance(k, slice)]
        if len(rs) != len(ks):
            raise Unsupported('add.at with slices')
        bs = ()
        for r in rs:
            bs = S.broadcast_shapes(bs, r.shp) if bs else r.shp
        rd = [S.reader(r, bs) for r in rs]
        for r, n in zip(rd, a.shp):
            S.engine().index_bounds(bs, r, n)
        vr = S.value_reader(v, bs)
        old = a.snap()
        S.assign_view(a, lambda *i: old(list(i)) + S.sum_over(
            list(bs), lambda ix: S.prod_poly([
                T.mk_ind('eq', x - r(ix)) for x, r in zip(i, rd)]) *
            vr(*ix)))
    f.reduce, f.outer, f.at = reduce, outer, at


def is_num(x, v):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and x == v


def atleast_2d(a):
    a = asarr(a)
    if len(a.shp) >= 2:
        return a
    if len(a.shp) == 1:
        return a[None, :]
    return a[None, None]


def flip(a, axis=None):
    a = asarr(a)
    n = len(a.shp)
    if axis is None:
        key = tuple(slice(None, None, -1) for _ in range(n))
    else:
        key = tuple(slice(None, None, -1) if i == axis % n else slice(None)
                    for i in range(n))
    return a[key]


def extend_special(sp, np_):
    d = sp.__dict__
    g = d['gammaln']

    def multigammaln(a, dim):
        if isinstance(a, SArr) and a.shp:
            raise Unsupported('multigammaln of an array')
        t = S.arange(dim)
        return Fr(1, 4) * (dim * (dim - 1)) * np_.log(np_.pi) + S.np_sum(
            g(a - t / 2))
    d['multigammaln'] = multigammaln
    d['logit'] = lambda p: np_.log(arr_or_num(p)) - np_.log(
        1 - arr_or_num(p))
    d['betaln'] = lambda a, b: g(arr_or_num(a)) + g(arr_or_num(b)) - g(
        arr_or_num(a) + arr_or_num(b))
    d['log1p'] = np_.log1p
    d['expm1'] = np_.expm1

    def xlogy(x, y):
        def f(p, q):
            return S.ite(T.mk_ind('eq', p), lambda: ZERO,
                         lambda: p * S.p_log(q))
        return S.elementwise(f, x, y)
    d['xlogy'] = xlogy

    def softmax(x, axis=None):
        x = asarr(x)
        e = np_.exp(x)
        return e / S.np_sum(e, axis, True)
    if 'softmax' in d:
        d['softmax'] = softmax


def extend_sparse(sparse, nl):
    d = sparse.__dict__
    SpMat = nl.SpMat

    def tri(sign):
        def f(a, k=0, format=None):
            if not isinstance(k, int):
                raise Unsupported('diagonal')
            m = a if isinstance(a, SpMat) else d['coo_matrix'](a)
            rd = m.rd
            nl.used('scipy.sparse.tril / triu: the entries on and below / '
                    'above the k-th diagonal, zero elsewhere')

            def r(i, j):
                c = T.mk_ind('ge', (i - j + const(k)) if sign > 0
                             else (j - i - const(k)))
                return S.ite(c, lambda: rd(i, j), lambda: ZERO)
            return SpMat(m.shp, r, format or 'coo')
        return f
    d['tril'] = tri(1)
    d['triu'] = tri(-1)

    def identity(n, dtype=None, format=None):
        return d['csr_matrix'](S.eye(n))
    d['identity'] = identity

    def diags(v, offsets=0, shape=None, format=None):
        if isinstance(offsets, (list, tuple, VList)):
            o = list(offsets)
            if len(o) != 1 or len(list(v)) != 1:
                raise Unsupported('diags')
            offsets, v = o[0], list(v)[0]
        v = asarr(v)
        if offsets != 0 or shape is not None or len(v.shp) != 1:
            raise Unsupported('diags')
        g = v.snap()
        n = v.shp[0]
        return SpMat((n, n), lambda i, j: S.ite(
            T.mk_ind('eq', i - j), lambda: g([i]), lambda: ZERO),
            format or 'coo')
    d['diags'] = diags

    def stack(axis):
        def f(blocks, format=None, dtype=None):
            vl = S.as_vlist(blocks)
            if not vl.concrete():
                raise Unsupported('sparse stack of a symbolic list')
            ms = [b if isinstance(b, SpMat) else d['coo_matrix'](b)
                  for b in vl]
            other = 1 - axis
            for m in ms[1:]:
                if not S.same_dim(m.shp[other], ms[0].shp[other]):
                    raise ValueError('incompatible dimensions')
            tot = ZERO
            offs = []
            for m in ms:
                offs.append((tot, m))
                tot = tot + m.shp[axis]
            shp = [tot, tot]
            shp[other] = ms[0].shp[other]

            def rd(i, j):
                out = ZERO
                for o, m in offs:
                    ix = [i, j]
                    ix[axis] = ix[axis] - o
                    c = T.mk_ind('ge', ix[axis]) * T.mk_ind(
                        'ge', m.shp[axis] - ONE - ix[axis])
                    out = out + S.ite(c, lambda: m.rd(*ix), lambda: ZERO)
                return out
            return SpMat(shp, rd, format or 'coo')
        return f
    d['vstack'] = stack(0)
    d['hstack'] = stack(1)

    def getitem(self, key):
        if self.format not in ('csr', 'csc'):
            raise TypeError("'%s_matrix' object has no attribute "
                            "'__getitem__'" % self.format)
        r = self.toarray()[key]
        if isinstance(r, SArr):
            if len(r.shp) == 1:         # a row or a column stays a matrix
                ks = key if isinstance(key, tuple) else (key,)
                if len(ks) == 2 and isinstance(ks[0], slice):
                    r = r[:, None]
                else:
                    r = r[None, :]
            if len(r.shp) != 2:
                raise Unsupported('sparse index')
            return SpMat(r.shp, r.snap_rd() if hasattr(r, 'snap_rd') else (
                lambda i, j: r.at([i, j])), self.format)
        return r
    SpMat.__getitem__ = getitem

    def multiply(self, o):
        a = self.rd
        if isinstance(o, SpMat):
            b = o.rd
            return SpMat(self.shp, lambda i, j: a(i, j) * b(i, j), 'csr')
        b = S.broadcast_to(asarr(o), tuple(self.shape)).snap()
        return SpMat(self.shp, lambda i, j: a(i, j) * b([i, j]), 'coo')
    SpMat.multiply = multiply

    def asformat(self, fmt, copy=False):
        return getattr(self, 'to' + fmt)()
    SpMat.asformat = asformat
    SpMat.getrow = lambda self, i: self.tocsr()[i, :]
    SpMat.getcol = lambda self, j: self.tocsc()[:, j]
    SpMat.get_shape = lambda self: self.shape


def extend_linalg(la, np_):
    d = la.__dict__

    def block_diag(*ms):
        ms = [atleast_2d(x) for x in ms]
        cols = [m.shp[1] for m in ms]
        rows = []
        for k, m in enumerate(ms):
            def z(c):
                return SArr((m.shp[0], c), lambda i, j: ZERO)
            rows.append(np_.concatenate(
                [z(c) if q != k else m for q, c in enumerate(cols)], axis=1))
        return np_.concatenate(rows, axis=0)
    d['block_diag'] = block_diag
