"""Contracts assumed for the dependencies (numpy, scipy, autograd, itertools,
math, json_tricks) in the shadow execution.  Everything in this file is
trusted."""
import builtins
import collections
import itertools as _it
import math as _math
import types
from fractions import Fraction as Fr

from . import terms as T
from . import sym as S
from . import vcrt as R
from .sym import (SV, SBool, SForall, SArr, SRange, VList, For, Eng, to_poly,
                  wrap, wrap_int, asarr, elementwise, mk_scalar)
from .terms import (ZERO, ONE, const, Unsupported, CTX, the_atom, app)


class Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s has no contract' % (self.__name__, name))


def used(what):
    e = Eng.cur
    if e is not None:
        e.assumptions.add(what)


# ------------------------------------------------------------ elementwise
def _ew(name, f):
    def g(x, *a, **kw):
        if kw:
            raise Unsupported('%s keywords' % name)
        return elementwise(f, S.asarr(x) if isinstance(
            x, (VList, list, tuple)) else x)
    g.__name__ = name
    return g


np_exp = _ew('exp', S.p_exp)
np_log = _ew('log', S.p_log)
np_sqrt = _ew('sqrt', S.p_sqrt)
np_abs = _ew('abs', S.p_abs)
np_log1p = _ew('log1p', lambda p: S.p_log(ONE + p))
np_expm1 = _ew('expm1', lambda p: S.p_exp(p) - ONE)
np_square = _ew('square', lambda p: p * p)


def p_gammaln(p):
    return app('gammaln', p)


def p_digamma(p):
    return app('digamma', p)


def p_expit(p):
    e = S.p_exp(p)
    return e * T.mk_pow(ONE + e, -1)


sp_gammaln = _ew('gammaln', p_gammaln)
sp_digamma = _ew('digamma', p_digamma)
sp_expit = _ew('expit', p_expit)


def logsumexp(a, axis=None, b=None, keepdims=False):
    if b is not None:
        raise Unsupported('logsumexp weights')
    used('scipy logsumexp(a) = log(sum(exp(a)))')
    return np_log(S.np_sum(np_exp(asarr(a)), axis, keepdims))


def np_maximum(a, b):
    return elementwise(S.p_max, a, b)


def np_minimum(a, b):
    return elementwise(S.p_min, a, b)


def np_clip(a, a_min=None, a_max=None, out=None):
    if out is not None:
        raise Unsupported('clip out')
    if a_min is None and a_max is None:
        raise ValueError('One of max or min must be given')
    if a_min is not None and not (isinstance(a_min, float) and
                                  a_min == -float('inf')):
        a = np_maximum(a, a_min)
    if a_max is not None and not (isinstance(a_max, float) and
                                  a_max == float('inf')):
        a = np_minimum(a, a_max)
    return np_array(a)


def np_sign(a):
    return elementwise(lambda p: T.mk_ind('gt', p) - T.mk_ind('gt', -p), a)


def np_count_nonzero(a):
    a = asarr(a)
    return np_sum(a if a.dt == 'bool' else a != 0)


def np_inner(a, b):
    a, b = asarr(a), asarr(b)
    if len(a.shp) != 1 or len(b.shp) != 1:
        raise Unsupported('inner of nd arrays')
    return S.np_dot(a, b)


def np_vdot(a, b):
    return S.np_dot(asarr(a).ravel(), asarr(b).ravel())


def np_moveaxis(a, i, j):
    a = asarr(a)
    n = len(a.shp)
    if not isinstance(i, int) or not isinstance(j, int):
        raise Unsupported('moveaxis')
    i, j = i % n, j % n
    order = [x for x in range(n) if x != i]
    order.insert(j, i)
    return S.transpose(a, tuple(order))


def np_fill_diagonal(a, v):
    if len(a.shp) != 2 or not S.same_dim(a.shp[0], a.shp[1]):
        raise Unsupported('fill_diagonal')
    p = to_poly(v)
    g = a.snap()
    S.assign_view(a, lambda i, j: S.ite(T.mk_ind('eq', i - j), lambda: p,
                                        lambda: g([i, j])))


def np_power(a, b):
    return a ** b


def np_logical_and(a, b):
    return elementwise(lambda x, y: x * y, _b(a), _b(b), dtype='bool')


def np_logical_or(a, b):
    return elementwise(lambda x, y: x + y - x * y, _b(a), _b(b), dtype='bool')


def np_logical_xor(a, b):
    return elementwise(lambda x, y: x + y - (x * y).scale(2), _b(a), _b(b),
                       dtype='bool')


def np_logical_not(a):
    return elementwise(lambda x: ONE - x, _b(a), dtype='bool')


def _b(a):
    a = asarr(a)
    if a.dt != 'bool':
        return a != 0
    return a


# ----------------------------------------------------------------- linalg
def is_lower_posdiag(m):
    """is the array a lower triangular matrix with positive diagonal?"""
    e = Eng.cur
    c = CTX()
    n = m.shp[0]
    i, j = T.fresh('q'), T.fresh('q')
    c.push()
    try:
        c.add_range(i, n)
        c.add_range(j, n)
        c.add_fact('gt', j - i)
        if not is_zero(m.at([i, j])):
            return False
    finally:
        c.pop()
    c.push()
    try:
        c.add_range(i, n)
        return e.prove_rel('gt', m.at([i, i]))
    finally:
        c.pop()


def is_zero(p):
    p = T.resolve_inds(p)
    if p.is_zero():
        return True
    q = T.expand_polys(p)
    if q.is_zero():
        return True
    from . import prove
    ok, _, _ = prove.zero(p, depth=2)
    return ok


def arrays_equal(a, b):
    if len(a.shp) != len(b.shp):
        return False
    for x, y in zip(a.shp, b.shp):
        if x != y and CTX().int_decide('eq', x - y) is not True:
            return False
    c = CTX()
    c.push()
    try:
        ivs = []
        for d in a.shp:
            iv = T.fresh('q')
            c.add_range(iv, d)
            ivs.append(iv)
        return is_zero(a.at(ivs) - b.at(ivs))
    finally:
        c.pop()


def transposed_pair(a, b):
    """b is the transpose of a?"""
    if b.tag.get('T_of') is a or a.tag.get('T_of') is b:
        return True
    return arrays_equal(S.transpose(a), b)


def cholesky(a):
    a = asarr(a)
    if len(a.shp) != 2:
        raise Unsupported('stacked cholesky')
    used('numpy.linalg.cholesky: the unique lower triangular factor with '
         'positive diagonal')
    e = Eng.cur
    d = diagonal_factor(a)
    if d is not None:
        return d
    cur = [f.k for f in e.frames]
    for x, y, r, ks in reversed(e.matmuls):
        if len(x.shp) < 2 or len(x.shp) != len(y.shp):
            continue
        for mp in frame_maps(ks, cur):
            if mp:
                x1, y1, r1 = [S.subst_arr(z, mp) for z in (x, y, r)]
            else:
                x1, y1, r1 = x, y, r
            if len(x.shp) > 2:
                lead = lead_index(a, x1)
                if lead is None:
                    continue
                x1, y1, r1 = [z[lead] for z in (x1, y1, r1)]
            if x1.shp[0] != a.shp[0] or x1.shp[0] != x1.shp[1]:
                continue
            try:
                if arrays_equal(a, r1) and transposed_pair(x1, y1) and \
                        is_lower_posdiag(x1):
                    return x1.copy()
            except Unsupported:
                continue
    raise Unsupported('cholesky of a matrix without a known factor')


def frame_maps(ks, cur):
    """loop variables of a recorded product -> current loop variables"""
    yield {}
    if ks and len(ks) <= len(cur):
        for combo in _it.permutations(cur, len(ks)):
            mp = {k: v for k, v in zip(ks, combo) if the_atom(v) is not k}
            if mp:
                yield mp


def lead_index(a, x):
    """leading indices o such that a looks like a slice [o] of a product of
    the stack x (found from the applications of the symbol of x)"""
    c = CTX()
    nl = len(x.shp) - 2
    c.push()
    try:
        ivs = []
        for d in x.shp:
            iv = T.fresh('q')
            c.add_range(iv, d)
            ivs.append(iv)
        heads = {}
        seen = set()
        for at in x.at(ivs).atoms():
            R.collect_apps(at, seen)
        for at in seen:
            pos = []
            for iv in ivs[:nl]:
                p = [i for i, z in enumerate(at.a[1:]) if z == iv]
                if len(p) != 1:
                    break
                pos.append(p[0])
            else:
                heads[at.a[0]] = pos
        if not heads:
            return None
        i, j = T.fresh('q'), T.fresh('q')
        c.add_range(i, a.shp[0])
        c.add_range(j, a.shp[1])
        seen = set()
        for at in a.at([i, j]).atoms():
            R.collect_apps(at, seen)
        for at in seen:
            pos = heads.get(at.a[0])
            if pos is None:
                continue
            idx = [at.a[1 + p] for p in pos]
            if any(v.k == 'bv' for z in idx for v in z.fv()
                   if isinstance(v, T.Atom)):
                continue
            if any(the_atom(v) in z.fv() for z in idx for v in (i, j)):
                continue
            return tuple(SV(z) for z in idx)
        return None
    finally:
        c.pop()


def diagonal_factor(a):
    """the factor of a diagonal matrix with positive diagonal, or None"""
    c = CTX()
    n = a.shp[0]
    if a.shp[1] != n:
        return None
    c.push()
    try:
        i, j = T.fresh('q'), T.fresh('q')
        c.add_range(i, n)
        c.add_range(j, n)
        c.push()
        try:
            c.add_fact('ne', i - j)
            if not T.resolve_inds(a.at([i, j])).is_zero():
                return None
        finally:
            c.pop()
        if not Eng.cur.prove_rel('gt', a.at([i, i])):
            return None
    finally:
        c.pop()
    g = a.snap()
    return SArr(a.shp, lambda i, j: S.ite(
        T.mk_ind('eq', i - j), lambda: S.p_sqrt(g([i, i])), lambda: ZERO))


def _lam(a, nd=2):
    g = a.snap()
    return canon_lam(T.mk_lam(a.shp, lambda ix: g(ix)))


def canon_lam(lam):
    """the first matrix met on this path that is provably equal to lam entry
    by entry (extensionality), so that its inverse, determinant, ... are
    written with one symbol"""
    c = CTX()
    reg = c.__dict__.setdefault('lams', [])
    memo = c.__dict__.setdefault('lam_memo', {})
    r = memo.get(lam)
    if r is not None:
        return r
    for old in reg:
        if old.dims == lam.dims and lam_equal(old, lam):
            memo[lam] = old
            return old
    memo[lam] = lam
    if len(reg) < 12:
        reg.append(lam)
    return lam


def lam_equal(a, b):
    from . import prove
    if a is b or a == b:
        return True
    c = CTX()
    ivs, x = a.open()
    y = b.at(ivs)
    d = x - y
    if d.is_zero():
        return True
    # different symbols: not worth a proof
    if _heads(x) != _heads(y):
        return False
    c.push()
    try:
        for iv, n in zip(ivs, a.dims):
            c.add_range(iv, n)
        return prove.zero(d, 3, prove.Budget(25))[0]
    finally:
        c.pop()


def _heads(p):
    from . import prove
    return {a.a[0] for a in prove._all_atoms(p) if a.k == 'f'} | \
        {a for a in prove._all_atoms(p) if a.k == 'v' and
         not isinstance(a.a[0], int) and '!' not in str(a.a[0])}


def _mat_fn(head):
    def f(a):
        a = asarr(a)
        if len(a.shp) < 2:
            raise Unsupported(head)
        if not S.same_dim(a.shp[-1], a.shp[-2]):
            raise ValueError('Last 2 dimensions of the array must be square')
        lead = len(a.shp) - 2
        g = a.snap()

        def fn(*idx):
            lam = T.mk_lam(a.shp[-2:], lambda ix: g(list(idx[:lead]) + ix))
            return mat_entry(head, lam, idx[-2], idx[-1])
        r = SArr(a.shp, fn)
        return r
    return f


def mat_entry(head, lam, i, j):
    """entry of the inverse of a matrix, with the scaling of the argument
    normalized: inv(c A) = inv(A)/c for a constant c"""
    lam = canon_lam(lam)
    b = lam.body
    if b.d and not b.is_const():
        m0 = min(b.d, key=lambda m: T.Poly({m: T.ONE_F}).key())
        c = b.d[m0]
        if c != 1:
            lam = T.Lam(lam.dims, b.scale(1 / c), lam.d)
            return mat_entry(head, lam, i, j).scale(1 / c)
    if head == 'M:inv':
        if lam.dims[0] == ONE:
            return T.mk_pow(lam.at([ZERO, ZERO]), T.Fr(-1))
        if lam_symmetric(lam):
            head = 'M:invS'
    return app(head, lam, i, j)


np_inv0 = _mat_fn('M:inv')


def lam_symmetric(lam):
    c = CTX()
    memo = c.__dict__.setdefault('lam_symm', {})
    r = memo.get(lam)
    if r is None:
        sw = T.mk_lam(lam.dims, lambda ix: lam.at([ix[1], ix[0]]))
        r = memo[lam] = lam.dims[0] == lam.dims[1] and lam_equal(lam, sw)
    return r


def np_inv(a):
    used('numpy.linalg.inv: the two-sided inverse of an invertible matrix')
    return np_inv0(a)


def np_solve(a, b):
    """solve(A, B) = inv(A) B"""
    used('numpy.linalg.solve(A, b) = inv(A) b')
    return _solve(asarr(a), asarr(b))


def _solve(a, b):
    if getattr(Eng.cur, 'opaque_solve', False) and len(a.shp) == 2 and \
            len(b.shp) == 1:
        return opaque_solve(a, b)
    return S.matmul(np_inv0(a), b)


def opaque_solve(a, b):
    """inv(A) b written with one symbol per pair (A, b) up to a constant
    factor; expand_solve writes it out"""
    if not S.same_dim(a.shp[0], a.shp[1]) or not S.same_dim(a.shp[1],
                                                            b.shp[0]):
        raise ValueError('solve: shapes do not match')
    la = _lam(a)
    g = b.snap()
    lb = T.mk_lam(b.shp, g)
    p = lb.body
    if p.is_zero():
        return SArr((b.shp[0],), lambda i: ZERO)
    f = p.d[min(p.d, key=lambda m: tuple((x.id, e) for x, e in m))]
    lb = T.Lam(lb.dims, p.scale(1 / Fr(f)), lb.d)
    return SArr((b.shp[0],), lambda i: app('M:solve', la, lb, i).scale(f))


def expand_solve(p):
    def fn(la, lb, i):
        a = SArr(la.dims, lambda r, s: la.at([r, s]))
        iv = np_inv0(a)
        return S.sum_over([lb.dims[0]], lambda ix: iv.at([i, ix[0]]) *
                          lb.at(ix))
    for _ in range(20):
        q = T.subst(p, {}, heads={'M:solve': fn})
        if q == p:
            break
        p = q
    return p


class CholFactor(object):
    def __init__(self, a):
        self.a = a.copy()

    def __iter__(self):
        return iter((self, True))

    def __getitem__(self, i):
        return (self, True)[i]


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    used('scipy cho_factor / cho_solve solve A x = b for the (symmetric '
         'positive definite) matrix passed')
    if overwrite_a:
        raise Unsupported('cho_factor(overwrite_a=True)')
    return CholFactor(asarr(a).copy())


def cho_solve(c, b, overwrite_b=False, check_finite=True):
    if isinstance(c, tuple):
        c = c[0]
    if not isinstance(c, CholFactor):
        raise Unsupported('cho_solve')
    return _solve(c.a, asarr(b))


def slogdet(a):
    used('numpy.linalg.slogdet: sign and log |det| of the matrix')
    a = asarr(a)
    if len(a.shp) != 2:
        raise Unsupported('slogdet of a stack')
    if not S.same_dim(a.shp[0], a.shp[1]):
        raise ValueError('Last 2 dimensions of the array must be square')
    lam = _lam(a)
    b = lam.body
    shift = ZERO
    sgn = ONE
    return (SV(app('M:detsign', lam)), SV(app('M:logdet', lam)))


def np_det(a):
    a = asarr(a)
    return SV(app('M:det', _lam(a)))


def eigh(a):
    used('numpy.linalg.eigh: A = V diag(w) V^T with V orthogonal (A '
         'symmetric)')
    a = asarr(a)
    if len(a.shp) != 2:
        raise Unsupported('eigh of a stack')
    lam = _lam(a)
    n = a.shp[0]
    r = projection_rank(lam)
    if r is not None:
        # eigenvalues of a projection of rank r, in ascending order
        w = SArr((n,), lambda i: T.mk_ind('ge', i - n + r))
    else:
        w = SArr((n,), lambda i: app('M:eigval', lam, i))
    v = SArr((n, n), lambda i, j: app('M:eigvec', lam, i, j))
    return (w, v)


def projection_rank(lam):
    """trace of the matrix if it is symmetric and idempotent, else None.
    (Then the eigenvalues are 0 and 1, 1 with multiplicity the trace.)"""
    from . import prove
    c = CTX()
    key = (c.ver, 'projection', lam)
    if key in c.cache:
        return c.cache[key]
    c.cache[key] = None
    if not lam_symmetric(lam):
        return None
    n = lam.dims[0]
    ivs, body = lam.open()
    k = T.fresh('k')
    c.push()
    try:
        for iv in ivs + [k]:
            c.add_range(iv, n)
        i, j = ivs
        sq = T.mk_sum(k, n, lam.at([i, k]) * lam.at([k, j]))
        if not prove.zero(sq - body)[0]:
            return None
    finally:
        c.pop()
    c.push()
    try:
        c.add_range(k, n)
        tr = T.mk_sum(k, n, lam.at([k, k]))
        tr = prove.simplify(tr)
    finally:
        c.pop()
    if not T.poly_is_int(tr) or any(a.k == 'sum' for a in tr.atoms()):
        return None
    used('a symmetric idempotent matrix has eigenvalues 0 and 1, the latter '
         'with multiplicity its trace; eigh lists eigenvalues in ascending '
         'order')
    c.projections[lam] = tr
    c.cache[key] = tr
    return tr


def norm(a, ord=None, axis=None):
    if ord is not None or axis is not None:
        raise Unsupported('norm')
    a = asarr(a)
    return np_sqrt(S.np_sum(a * a))


# ----------------------------------------------------------------- sparse
class SpMat(S.NumLike):
    is_sparse = True

    def __init__(self, shp, rd, fmt='coo', coo=None, token=None):
        self.shp = tuple(shp)
        self.rd = rd
        self.format = fmt
        self.coo = coo
        self.token = token if token is not None else object()

    @property
    def shape(self):
        return tuple(wrap_int(d) for d in self.shp)

    ndim = 2

    def at(self, idx):
        return self.rd(*idx)

    def toarray(self):
        rd = self.rd
        return SArr(self.shp, lambda i, j: rd(i, j))

    def todense(self):
        r = self.toarray()
        r.tag['matrix'] = True
        return r

    @property
    def A(self):
        return self.toarray()

    @property
    def T(self):
        return self.transpose()

    def transpose(self):
        rd = self.rd
        fmt = {'csr': 'csc', 'csc': 'csr'}.get(self.format, self.format)
        return SpMat((self.shp[1], self.shp[0]), lambda i, j: rd(j, i), fmt)

    def tocsr(self):
        return SpMat(self.shp, self.rd, 'csr', None, self.token)

    def tocsc(self):
        return SpMat(self.shp, self.rd, 'csc', None, self.token)

    def tocoo(self):
        return SpMat(self.shp, self.rd, 'coo', self.coo, self.token)

    def copy(self):
        return SpMat(self.shp, self.rd, self.format, self.coo, self.token)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def vc_subst(self, mp):
        rd = self.rd
        a = S.subst_arr(self.toarray(), mp)
        r = SpMat(a.shp, lambda i, j: a.at([i, j]), self.format)
        if self.coo is not None:
            r.coo = tuple(S.subst_val(x, mp) for x in self.coo)
        return r

    # --- coordinate access
    def _coo(self):
        if self.coo is None:
            if self.format != 'coo':
                raise Unsupported('coordinates of a %s matrix' % self.format)
            # stored row by row; entries that are zero do not change any sum
            n, m = self.shp
            rd = self.rd
            used('coo_matrix(dense): entries stored row by row; explicit '
                 'zeros are immaterial')
            if n == ZERO or m == ZERO:
                e = lambda: SArr((ZERO,), lambda i: ZERO)
                self.coo = (e(), e(), e())
                return self.coo
            i, j = T.fresh('k'), T.fresh('k')
            c = CTX()
            c.push()
            try:
                c.add_range(i, n)
                c.add_range(j, m)
                body = rd(i, j)
            finally:
                c.pop()
            nest = lambda leaf: S.stack_struct(VList(
                [For(i, n, [For(j, m, [leaf])])]))
            self.coo = (nest(SV(body)), nest(wrap_int(i)), nest(wrap_int(j)))
        return self.coo

    @property
    def data(self):
        if self.format == 'coo':
            return self._coo()[0]
        return CsrPart(self, 'data')

    @property
    def row(self):
        return self._coo()[1]

    @property
    def col(self):
        return self._coo()[2]

    @property
    def indices(self):
        if self.format != 'csr':
            raise Unsupported('indices')
        return CsrPart(self, 'indices')

    @property
    def indptr(self):
        if self.format != 'csr':
            raise Unsupported('indptr')
        return CsrPart(self, 'indptr')

    # --- algebra
    def __mul__(self, o):
        if S.is_num(o) or isinstance(o, SV):
            p = to_poly(o)
            rd = self.rd
            return SpMat(self.shp, lambda i, j: rd(i, j) * p, self.format)
        if isinstance(o, SpMat):
            r = S.matmul(self.toarray(), o.toarray())
            return SpMat(r.shp, lambda i, j: r.at([i, j]), 'csr')
        return S.matmul(self.toarray(), asarr(o))

    def __rmul__(self, o):
        if S.is_num(o) or isinstance(o, SV):
            return self.__mul__(o)
        return S.matmul(asarr(o), self.toarray())

    def dot(self, o):
        return self.__mul__(o)

    def __matmul__(self, o):
        if S.is_num(o) or isinstance(o, SV):
            raise ValueError('Scalar operands are not allowed')
        return self.__mul__(o)

    def __rmatmul__(self, o):
        return self.__rmul__(o)

    def __add__(self, o):
        if isinstance(o, SpMat):
            for x, y in zip(self.shp, o.shp):
                if not S.same_dim(x, y):
                    raise ValueError('inconsistent shapes')
            a, b = self.rd, o.rd
            return SpMat(self.shp, lambda i, j: a(i, j) + b(i, j), 'csr')
        if isinstance(o, SArr):
            r = self.toarray() + o
            r.tag['matrix'] = True
            return r
        raise Unsupported('sparse + scalar')

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-1 * o)

    def __neg__(self):
        return self * (-1)

    def __truediv__(self, o):
        return self * (1 / o)

    def sum(self, axis=None):
        return S.np_sum(self.toarray(), axis)

    def diagonal(self):
        return S.np_diagonal(self.toarray())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('sparse attribute ' + n)

    def __eq__(self, o):
        raise Unsupported('sparse comparison')

    __hash__ = object.__hash__


class CsrPart(object):
    """One of the three arrays of a csr matrix (opaque)."""

    def __init__(self, mat, part):
        self.mat, self.part = mat, part

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


def shape_arg(shape):
    return S.norm_shape(shape)


def coo_dense(data, row, col):
    """(i, j) -> sum of the data at coordinate (i, j)"""
    def rd(i, j):
        return S.struct_sum((data, row, col), lambda d, r, c: d * T.mk_ind(
            'eq', r - i) * T.mk_ind('eq', c - j))
    return rd


def make_sparse(fmt):
    def ctor(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SpMat):
            r = SpMat(arg.shp, arg.rd, fmt, arg.coo if fmt == 'coo' else None,
                      arg.token)
            return r
        if isinstance(arg, (tuple,)) and len(arg) == 2 and \
                isinstance(arg[1], (tuple, VList)):
            data, (row, col) = arg
            used('sparse constructors add up duplicate coordinates')
            data, row, col = [S.as_struct(x) for x in (data, row, col)]
            if shape is None:
                raise Unsupported('sparse shape inference')
            shp = shape_arg(shape)
            if len(shp) != 2:
                raise ValueError('invalid shape')
            check_coords(row, shp[0], 'row')
            check_coords(col, shp[1], 'column')
            n1, n2, n3 = [S.struct_len(x) for x in (data, row, col)]
            if not (S.same_dim(n1, n2) and S.same_dim(n1, n3)):
                raise ValueError('row, column, and data array must all be '
                                 'the same size')
            return SpMat(shp, coo_dense(data, row, col), fmt,
                         (S.struct_arr(data), S.struct_arr(row),
                          S.struct_arr(col)) if fmt == 'coo' else None)
        if isinstance(arg, (tuple, VList)) and len(arg) == 2 and \
                all(isinstance(x, (int, SV)) for x in arg):
            shp = shape_arg(arg)
            z = None
            if fmt == 'coo':
                e = lambda: SArr((ZERO,), lambda i: ZERO)
                z = (e(), e(), e())
            return SpMat(shp, lambda i, j: ZERO, fmt, z)
        if isinstance(arg, tuple) and len(arg) == 3 and \
                all(isinstance(x, CsrPart) for x in arg):
            ms = [x.mat for x in arg]
            if [x.part for x in arg] != ['data', 'indices', 'indptr'] or \
                    fmt != 'csr':
                raise Unsupported('csr from parts')
            if not (ms[0].token is ms[1].token is ms[2].token):
                raise Unsupported('csr parts of different matrices')
            if shape is None:
                # the width is the largest stored column plus one
                m = ms[0]
                w = T.fresh('w')
                CTX().add_fact('ge', w)
                CTX().add_fact('ge', m.shp[1] - w)
                return SpMat((m.shp[0], w), m.rd, 'csr', None, m.token)
            shp = shape_arg(shape)
            used('csr_matrix((data, indices, indptr)) of the three arrays of '
                 'a csr matrix is that matrix')
            m = ms[0]
            if not S.same_dim(shp[0], m.shp[0]):
                raise ValueError('index pointer size')
            if not S.same_dim(shp[1], m.shp[1]):
                raise Unsupported('csr with another width')
            return SpMat(shp, m.rd, 'csr', None, m.token)
        if isinstance(arg, (tuple,)):
            raise Unsupported('sparse constructor')
        a = asarr(arg)
        if len(a.shp) == 0:
            a = S.reshape(a, (1, 1))
        elif len(a.shp) == 1:
            a = a[None, :]
        elif len(a.shp) != 2:
            raise TypeError('expected dimension <= 2 array or matrix')
        if shape is not None:
            shp = shape_arg(shape)
            for x, y in zip(shp, a.shp):
                if not S.same_dim(x, y):
                    raise ValueError('inconsistent shapes')
        g = a.snap()
        return SpMat(a.shp, lambda i, j: g([i, j]), fmt)
    ctor.__name__ = fmt + '_matrix'
    return ctor


def check_coords(st, dim, what):
    e = Eng.cur
    ok = S.struct_all(st, lambda p: T.mk_ind('ge', p) *
                      T.mk_ind('ge', dim - ONE - p))
    if ok is not True:
        raise Unsupported('sparse %s indices not provably in range' % what)


def block_diag(mats, format=None):
    used('scipy.sparse.block_diag: the blocks along the diagonal, zero '
         'elsewhere')
    vl = S.as_vlist(mats)
    if not vl.concrete():
        raise Unsupported('symbolic block_diag')
    ms = []
    for m in vl:
        if not isinstance(m, SpMat):
            m = make_sparse('coo')(m)
        ms.append(m)
    rows = cols = ZERO
    offs = []
    for m in ms:
        offs.append((rows, cols, m))
        rows = rows + m.shp[0]
        cols = cols + m.shp[1]

    def rd(i, j):
        out = ZERO
        for r, c, m in offs:
            ii, jj = i - r, j - c
            cond = T.mk_ind('ge', ii) * T.mk_ind('ge', m.shp[0] - ONE - ii) \
                * T.mk_ind('ge', jj) * T.mk_ind('ge', m.shp[1] - ONE - jj)
            out = out + S.ite(cond, lambda: m.rd(ii, jj), lambda: ZERO)
        return out
    return SpMat((rows, cols), rd, 'coo')


def issparse(x):
    return isinstance(x, SpMat)


# ---------------------------------------------------------------- autograd
class Box(object):
    """An active differentiation variable: array symbol or scalar symbol."""

    def __init__(self, eng, x):
        self.eng = eng
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            x = SV(to_poly(x))
        if isinstance(x, SBool) or not isinstance(x, (SV, SArr)):
            raise Unsupported('differentiation with respect to %r' % type(x))
        self.x = x
        n = eng.fresh_head('A:xi')
        if isinstance(x, SV):
            self.scalar = True
            self.head = T.atom('v', n, 'r')
            self.val = SV(T.of_atom(self.head))
            self.dims = ()
            eng.boxes.append((self.head, x.p, True))
        else:
            self.scalar = False
            self.head = n
            self.dims = x.shp
            h = n
            self.val = SArr(x.shp, lambda *i: app(h, *i), x.dt)
            g = x.snap()
            self.rd = g
            eng.boxes.append((self.head, lambda *i: g(list(i)), False))

    def diff(self, p, idx):
        if self.scalar:
            d = T.diff(p, self.head, None)
            return T.subst(d, {self.head: self.x.p})
        d = T.diff(p, self.head, list(idx))
        g = self.rd
        return T.subst(d, {}, heads={self.head: lambda *i: g(list(i))})

    def unbox(self, p):
        if self.scalar:
            return T.subst(p, {self.head: self.x.p})
        g = self.rd
        return T.subst(p, {}, heads={self.head: lambda *i: g(list(i))})


def _subargs(args, argnum, x):
    a = list(args)
    a[argnum] = x
    return a


def traced(f, b):
    """f evaluated while the box is being differentiated"""
    eng = b.eng
    eng.live.append(b.head)
    try:
        return f(b.val)
    finally:
        eng.live.pop()


def _outshape(y):
    if isinstance(y, (int, float)):
        return SV(to_poly(y)), ()
    if isinstance(y, SV):
        return y, ()
    if isinstance(y, SArr):
        return y, y.shp
    raise Unsupported('differentiation of a function returning %r' % type(y))


def ag_jac(f, x):
    """Jacobian array of the unary function f at x"""
    eng = Eng.cur
    used('autograd.grad / jacobian / hessian / hessian_vector_product / '
         'make_jvp return the exact derivative of the composed primitives')
    b = Box(eng, x)
    y = traced(f, b)
    y, ysh = _outshape(y)
    if isinstance(y, SArr):
        g = y.snap()
    else:
        g = lambda ix: y.p
    ny = len(ysh)
    shp = tuple(ysh) + tuple(b.dims)
    if not shp:
        return SV(b.diff(g([]), ()))

    def fn(*idx):
        # differentiate at generic indices, then substitute
        ivs = []
        c = CTX()
        c.push()
        try:
            for d in shp:
                iv = T.fresh('l')
                c.add_range(iv, d)
                ivs.append(iv)
            d = b.diff(g(ivs[:ny]), ivs[ny:])
        finally:
            c.pop()
        return T.subst(d, {the_atom(iv): i for iv, i in zip(ivs, idx)})
    memo = {}
    return SArr(shp, fn)


def _name(f):
    return getattr(f, '__name__', 'f')


def _check_argnum(argnum):
    if isinstance(argnum, tuple):
        raise Unsupported('several argnums')
    if not isinstance(argnum, int):
        raise AssertionError(argnum)


def ag_jacobian(fun, argnum=0):
    _check_argnum(argnum)

    def jac(*args, **kw):
        return ag_jac(lambda x: fun(*_subargs(args, argnum, x), **kw),
                      args[argnum])
    return jac


def ag_grad(fun, argnum=0):
    _check_argnum(argnum)

    def grad(*args, **kw):
        def f(x):
            y = fun(*_subargs(args, argnum, x), **kw)
            if isinstance(y, SArr):
                n = S.prod_poly(y.shp)
                if n != ONE and not S.same_dim(n, ONE):
                    raise TypeError('Grad only applies to real scalar-output '
                                    'functions.')
                return y.item()
            return y
        return ag_jac(f, args[argnum])
    return grad


def ag_hessian(fun, argnum=0):
    return ag_jacobian(ag_jacobian(fun, argnum), argnum)


def ag_hvp(fun, argnum=0):
    g = ag_grad(fun, argnum)

    def vector_dot_grad(*args, **kw):
        args, vec = args[:-1], args[-1]
        gr = g(*args, **kw)
        return tensordot(gr, vec)
    h = ag_grad(vector_dot_grad, argnum)
    return h


def tensordot(a, b, *k):
    a, b = asarr(a), asarr(b)
    if len(a.shp) < len(b.shp):
        raise ValueError('shape-mismatch for sum')
    nb = len(b.shp)
    lead = len(a.shp) - nb
    for x, y in zip(a.shp[lead:], b.shp):
        if not S.same_dim(x, y):
            raise ValueError('shape-mismatch for sum')
    ga, gb = a.snap(), b.snap()
    if lead == 0:
        return SV(S.sum_over(list(b.shp), lambda ix: ga(ix) * gb(ix)))
    return SArr(a.shp[:lead], lambda *i: S.sum_over(
        list(b.shp), lambda ix: ga(list(i) + ix) * gb(ix)))


def ag_make_jvp(fun, argnum=0):
    _check_argnum(argnum)

    def at(*args, **kw):
        x = args[argnum]

        def jvp(v):
            eng = Eng.cur
            f = lambda z: fun(*_subargs(args, argnum, z), **kw)
            b = Box(eng, x)
            y = traced(f, b)
            y, ysh = _outshape(y)
            g = y.snap() if isinstance(y, SArr) else (lambda ix: y.p)
            if b.scalar:
                vp = to_poly(v)

                def one(idx):
                    return b.diff(g(list(idx)), ()) * vp
            else:
                va = asarr(v)
                for p, q in zip(va.shp, b.dims):
                    if not S.same_dim(p, q):
                        raise ValueError('shape mismatch in jvp')
                gv = va.snap()

                def one(idx):
                    return S.sum_over(list(b.dims), lambda ix: b.diff(
                        g(list(idx)), ix) * gv(ix))
            if not ysh:
                return SV(b.unbox(y.p)) if isinstance(y, SV) else \
                    SV(b.unbox(g([]))), SV(one(()))
            return (SArr(ysh, lambda *i: b.unbox(g(list(i)))),
                    SArr(ysh, lambda *i: one(i)))
        return jvp
    return at


class Primitive(object):
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', 'primitive')
        self.vjps = None
        self.jvps = None
        Eng.cur.world_primitives.append(self)

    def __call__(self, *a, **k):
        # the body runs on plain values
        eng = Eng.cur
        live, eng.live = eng.live, []
        try:
            return self.f(*a, **k)
        finally:
            eng.live = live

    def __deepcopy__(self, memo):
        return self


def ag_primitive(f):
    return Primitive(f)


def ag_defvjp(fun, *vjps, **kw):
    fun.vjps = vjps


def ag_defjvp(fun, *jvps, **kw):
    fun.jvps = jvps


# ------------------------------------------------------------------ numpy
def np_array(x, dtype=None, copy=True, **kw):
    if getattr(x, 'is_sparse', False) or isinstance(x, R.VDict):
        raise Unsupported('object array')
    if isinstance(x, SArr):
        r = x.copy()
        for k, v in x.tag.items():
            if k not in ('T_of', 'struct', 'matrix'):
                r.tag[k] = v
    elif isinstance(x, (SV, SBool, int, float)):
        r = asarr(x)
    elif isinstance(x, R.SymIter):
        r = asarr(x.as_list())
    else:
        r = asarr(x)
        if isinstance(x, VList) and isinstance(r, SArr) and len(r.shp) == 1:
            r.set_struct(x.copy())
    if dtype is not None:
        r = r.astype(dtype)
    return r


def np_asarray(x, dtype=None):
    if isinstance(x, SArr):
        if 'matrix' in x.tag:
            return np_array(x)
        return x
    return np_array(x, dtype)


def np_shape(x):
    if isinstance(x, (SArr, SV)) or hasattr(x, 'shape'):
        return x.shape
    if isinstance(x, (int, float)):
        return ()
    return asarr(x).shape


def np_ndim(x):
    return len(np_shape(x))


def np_size(x):
    return asarr(x).size


def np_zeros(shape, dtype=None, **kw):
    return S.full(shape, 0.0, dtype)


def np_ones(shape, dtype=None, **kw):
    return S.full(shape, 1.0, dtype)


def np_zeros_like(a, dtype=None):
    return S.full(np_shape(a), 0.0, dtype)


def np_ones_like(a, dtype=None):
    return S.full(np_shape(a), 1.0, dtype)


def np_full(shape, v, dtype=None):
    return S.full(shape, v, dtype)


def np_full_like(a, v):
    return S.full(np_shape(a), v)


def np_append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is None:
        return S.concat(VList([S.reshape(S.atleast_1d(a), (-1,)),
                               S.reshape(S.atleast_1d(b), (-1,))]))
    return S.concat(VList([a, b]), axis)


def np_concatenate(parts, axis=0):
    if axis is None:
        raise Unsupported('concatenate axis None')
    return S.concat(S.as_vlist(parts), axis)


def np_vstack(parts):
    vl = S.as_vlist(parts)
    vl = VList(S.map_segs(vl.segs, lambda a: (
        S.asarr(a) if len(asarr(a).shp) > 1 else S.atleast_1d(a)[None, :])))
    return S.concat(vl, 0)


def np_stack(parts, axis=0):
    if axis != 0:
        raise Unsupported('stack axis')
    return S.stack_list(S.as_vlist(parts))


def np_transpose(a, axes=None):
    return S.transpose(a, axes)


def np_reshape(a, shape, order='C'):
    if order != 'C':
        raise Unsupported('order')
    return S.reshape(a, shape)


def np_squeeze(a, axis=None):
    if getattr(a, 'is_sparse', False):
        raise Unsupported('squeeze of sparse')
    if isinstance(a, SV):
        return a
    if S.is_matrix(a):
        # a np.matrix keeps two dimensions
        return a
    return S.squeeze(a, axis)


def np_sum(a, axis=None, keepdims=False, dtype=None, **kw):
    return S.np_sum(a, axis, keepdims)


def np_isscalar(x):
    return isinstance(x, (SV, int, float, str)) and not isinstance(x, SArr)


def np_ix_(*arrs):
    out = []
    n = len(arrs)
    for k, a in enumerate(arrs):
        a = asarr(a)
        shp = [ONE] * n
        g = a.snap()
        shp[k] = a.shp[0]
        out.append(SArr(tuple(shp), (lambda g, k: lambda *i: g([i[k]]))(g, k),
                        'int'))
    return tuple(out)


def np_isfinite(x):
    if isinstance(x, float):
        return x == x and abs(x) != float('inf')
    if isinstance(x, (int, SV)):
        return True
    x = asarr(x)
    return SArr(x.shp, lambda *i: ONE, 'bool')


def np_array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if len(a.shp) != len(b.shp):
        return False
    for x, y in zip(a.shp, b.shp):
        if not S.same_dim(x, y):
            return False
    return bool(S.np_all(a == b))


def np_matrix(a):
    return asarr(a)


def np_cumsum(a):
    raise Unsupported('cumsum')


def np_logspace(*a, **k):
    raise Unsupported('logspace')


def np_swapaxes(a, i, j):
    a = asarr(a)
    ax = list(range(len(a.shp)))
    ax[i], ax[j] = ax[j], ax[i]
    return S.transpose(a, tuple(ax))


def np_vectorize(*a, **k):
    raise Unsupported('vectorize')


def _pi():
    return SV(app('pi'))


def make_numpy(eng, name, ag):
    m = Stub(name)
    d = dict(
        exp=np_exp, log=np_log, sqrt=np_sqrt, abs=np_abs, absolute=np_abs,
        log1p=np_log1p, expm1=np_expm1, square=np_square,
        maximum=np_maximum, minimum=np_minimum, power=np_power,
        logical_and=np_logical_and, logical_or=np_logical_or,
        logical_xor=np_logical_xor, logical_not=np_logical_not,
        array=np_array, asarray=np_asarray, shape=np_shape, ndim=np_ndim,
        size=np_size, zeros=np_zeros, ones=np_ones, zeros_like=np_zeros_like,
        ones_like=np_ones_like, full=np_full, full_like=np_full_like,
        append=np_append, concatenate=np_concatenate, hstack=S.np_hstack,
        vstack=np_vstack, stack=np_stack, transpose=np_transpose,
        reshape=np_reshape, squeeze=np_squeeze, sum=np_sum, mean=S.np_mean,
        prod=S.np_prod, product=S.np_prod, max=S.np_max, amax=S.np_max,
        min=S.np_min, amin=S.np_min, all=S.np_all, any=S.np_any,
        matmul=S.matmul, dot=S.np_dot, einsum=S.einsum, outer=S.outer,
        diag=S.np_diag, diagonal=S.np_diagonal, trace=S.np_trace,
        tril_indices=S.tril_indices, tril=S.tril, triu=S.triu,
        expand_dims=S.expand_dims, broadcast_to=S.broadcast_to, tile=S.tile,
        eye=S.eye, identity=S.eye, arange=S.arange, linspace=S.linspace,
        ravel_multi_index=S.ravel_multi_index, atleast_1d=S.atleast_1d,
        unravel_index=S.unravel_index, where=S.where, nonzero=S.np_nonzero,
        argwhere=S.np_argwhere, flatnonzero=lambda a: S.np_nonzero(
            S.asarr(a))[0], isscalar=np_isscalar, ix_=np_ix_,
        isfinite=np_isfinite, array_equal=np_array_equal, matrix=np_matrix,
        tensordot=tensordot, swapaxes=np_swapaxes, cumsum=np_cumsum,
        pi=_pi(), newaxis=None, inf=float('inf'), nan=float('nan'),
        float64=float, int64=int, bool_=bool, float=float, int=int,
        bool=bool, ndarray=SArr, Inf=float('inf'),
        ravel=lambda a: asarr(a).ravel(),
        copy=lambda a: np_array(a),
        subtract=lambda a, b: a - b, add=lambda a, b: a + b,
        multiply=lambda a, b: a * b, divide=lambda a, b: a / b,
        negative=lambda a: -a, clip=np_clip, sign=np_sign,
        count_nonzero=np_count_nonzero, inner=np_inner, vdot=np_vdot,
        moveaxis=np_moveaxis, fill_diagonal=np_fill_diagonal,
        true_divide=lambda a, b: a / b, reciprocal=lambda a: 1 / a)
    for k, v in d.items():
        setattr(m, k, v)
    if ag:
        m.make_diagonal = S.make_diagonal
    la = Stub(name + '.linalg')
    la.inv = np_inv
    la.solve = np_solve
    la.cholesky = cholesky
    la.slogdet = slogdet
    la.eigh = eigh
    la.norm = norm
    la.det = np_det
    la.LinAlgError = ArithmeticError
    m.linalg = la
    m.random = Stub(name + '.random')
    from . import nplib2
    import sys
    nplib2.extend_numpy(m, sys.modules[__name__])
    return m


# ------------------------------------------------------------------- math
def make_math():
    m = Stub('math')
    m.pi = _pi()
    m.inf = float('inf')

    def one(f, g):
        def h(x):
            if isinstance(x, (int, float)) and f is not None and \
                    not isinstance(x, bool) and False:
                return f(x)
            x = asarr(x)
            return SV(g(x.item().p if isinstance(x.item(), SV)
                        else to_poly(x.item())))
        return h
    m.sqrt = one(None, S.p_sqrt)
    m.log = one(None, S.p_log)
    m.exp = one(None, S.p_exp)
    m.fabs = one(None, S.p_abs)

    def factorial(n):
        if isinstance(n, int):
            return _math.factorial(n)
        raise Unsupported('factorial')
    m.factorial = factorial

    def floor(x):
        if isinstance(x, (int, float)):
            return _math.floor(x)
        p = to_poly(x)
        if T.poly_is_int(p):
            return wrap_int(p)
        if p.is_const():
            return _math.floor(p.const())
        return S.to_int(x)
    m.floor = floor

    def ceil(x):
        if isinstance(x, (int, float)):
            return _math.ceil(x)
        p = to_poly(x)
        if T.poly_is_int(p):
            return wrap_int(p)
        raise Unsupported('ceil')
    m.ceil = ceil
    m.isfinite = np_isfinite
    return m


# --------------------------------------------------------------- itertools
def it_product(*its, **kw):
    if kw:
        raise Unsupported('product repeat')
    syms = [R.sym_segments(x) for x in its]
    if all(s is None for s in syms):
        return _it.product(*its)
    dims, fns = [], []
    for x, s in zip(its, syms):
        if s is None:
            l = list(x)
            dims.append(const(len(l)))
            fns.append((lambda l: lambda j: S.seg_at(l, j))(l))
        else:
            if len(s) != 1:
                raise Unsupported('product of structured lists')
            dims.append(s[0][1])
            fns.append(s[0][2])
    n = S.prod_poly(dims)

    def item(t):
        idx = S.unravel(t, dims)
        return tuple(f(i) for f, i in zip(fns, idx))
    return R.SymIter(n, item)


def make_itertools():
    m = Stub('itertools')
    m.product = it_product
    m.chain = _it.chain
    m.repeat = _it.repeat
    m.count = _it.count
    m.permutations = _it.permutations
    m.combinations = _it.combinations
    return m


# ------------------------------------------------------------------- scipy
class DistFrozen(object):
    pass


def make_scipy(eng):
    m = Stub('scipy')
    special = Stub('scipy.special')
    special.gammaln = sp_gammaln
    special.digamma = sp_digamma
    special.psi = sp_digamma
    special.expit = sp_expit
    special.logsumexp = logsumexp
    misc = Stub('scipy.misc')
    misc.logsumexp = logsumexp
    sparse = Stub('scipy.sparse')
    sparse.coo_matrix = make_sparse('coo')
    sparse.csr_matrix = make_sparse('csr')
    sparse.csc_matrix = make_sparse('csc')
    sparse.block_diag = block_diag
    sparse.issparse = issparse
    sparse.isspmatrix = issparse
    sparse.isspmatrix_csr = lambda x: isinstance(x, SpMat) and \
        x.format == 'csr'
    sparse.eye = lambda n, **k: make_sparse('csr')(S.eye(n))
    from . import nplib2
    import sys
    np_ = make_numpy(eng, 'numpy', False)
    nplib2.extend_special(special, np_)
    nplib2.extend_sparse(sparse, sys.modules[__name__])
    splin = Stub('scipy.sparse.linalg')
    splin.LinearOperator = LinearOperator
    splin.cg = lambda *a, **k: eng.externals['cg'](*a, **k) \
        if 'cg' in eng.externals else _ext('cg')
    sparse.linalg = splin
    linalg = Stub('scipy.linalg')
    linalg.cho_factor = cho_factor
    linalg.cho_solve = cho_solve
    linalg.inv = np_inv
    linalg.solve = np_solve
    linalg.eigh = eigh
    linalg.cholesky = lambda a, lower=False: cholesky(a) if lower else \
        S.transpose(cholesky(a))
    optimize = Stub('scipy.optimize')
    optimize.minimize = lambda *a, **k: eng.externals['minimize'](*a, **k) \
        if 'minimize' in eng.externals else _ext('minimize')
    stats = Stub('scipy.stats')
    nrm = Stub('scipy.stats.norm')
    nrm.ppf = _ew('ppf', lambda p: app('normppf', p))
    stats.norm = nrm
    m.special = special
    m.misc = misc
    m.sparse = sparse
    nplib2.extend_linalg(linalg, np_)
    m.linalg = linalg
    m.optimize = optimize
    m.stats = stats
    return m


def _ext(n):
    raise Unsupported('%s has no contract here' % n)


class LinearOperator(object):
    def __init__(self, shape, matvec=None, **kw):
        self.shape = shape
        self.matvec = matvec
        self.kw = kw


# -------------------------------------------------------------- json_tricks
class JsonText(object):
    """The text of a serialized array."""

    def __init__(self, v):
        self.v = v


def make_json_tricks():
    m = Stub('json_tricks')

    def dumps(v, *a, **k):
        used('json_tricks.loads(dumps(a)) is a')
        return JsonText(v)

    def loads(s, *a, **k):
        if not isinstance(s, JsonText):
            raise Unsupported('json_tricks.loads')
        return s.v
    m.dumps, m.loads = dumps, loads
    return m


def make_stubs(eng):
    eng.world_primitives = []
    eng.live = []
    eng.boxes = []
    eng.externals = {}
    st = {}
    st['numpy'] = make_numpy(eng, 'numpy', False)
    agnp = make_numpy(eng, 'autograd.numpy', True)
    st['numpy.linalg'] = st['numpy'].linalg
    sc = make_scipy(eng)
    st['scipy'] = sc
    for n in ('special', 'misc', 'sparse', 'linalg', 'optimize', 'stats'):
        st['scipy.' + n] = getattr(sc, n)
    st['scipy.sparse.linalg'] = sc.sparse.linalg
    ag = Stub('autograd')
    ag.grad = ag_grad
    ag.jacobian = ag_jacobian
    ag.hessian = ag_hessian
    ag.hessian_vector_product = ag_hvp
    ag.make_jvp = ag_make_jvp
    ag.primitive = ag_primitive
    ag.numpy = agnp
    agsp = Stub('autograd.scipy')
    agsp.special = sc.special
    agsp.misc = sc.misc
    agsp.stats = sc.stats
    agsp.linalg = sc.linalg
    ag.scipy = agsp
    core = Stub('autograd.core')
    core.primitive = ag_primitive
    core.defvjp = ag_defvjp
    core.defjvp = ag_defjvp
    ag.core = core
    ext = Stub('autograd.extend')
    ext.primitive, ext.defvjp, ext.defjvp = ag_primitive, ag_defvjp, ag_defjvp
    ag.extend = ext
    st['autograd'] = ag
    st['autograd.numpy'] = agnp
    st['autograd.numpy.random'] = agnp.random
    st['autograd.scipy'] = agsp
    st['autograd.core'] = core
    st['autograd.extend'] = ext
    st['math'] = make_math()
    st['itertools'] = make_itertools()
    st['json_tricks'] = make_json_tricks()
    col = types.ModuleType('collections')
    col.OrderedDict = R.VODict
    col.namedtuple = collections.namedtuple
    col.defaultdict = collections.defaultdict
    st['collections'] = col
    return st


def setup_ctx(ctx):
    pass


# ---------------------------------------------------------------- builtins
class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, VList))

    def __call__(cls, *a):
        if not a:
            return VList([])
        x = a[0]
        if isinstance(x, R.SymIter):
            return x.as_list()
        if isinstance(x, (SRange, SArr, VList)):
            return VList(S.as_vlist(x).segs)
        return VList(list(x))


class v_list(metaclass=_ListMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)

    def __call__(cls, *a):
        if not a:
            return ()
        return tuple(a[0])


class v_tuple(metaclass=_TupleMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SV) and
                                      T.poly_is_int(x.p))

    def __call__(cls, *a):
        if not a:
            return 0
        if len(a) > 1:
            return int(*a)
        x = a[0]
        if isinstance(x, (int, float, str)):
            return int(x)
        if isinstance(x, SArr):
            x = x.item()
        return S.to_int(x)


class v_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SV))

    def __call__(cls, *a):
        if not a:
            return 0.0
        x = a[0]
        if isinstance(x, (int, float, str)):
            return float(x)
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, SBool):
            return SV(x.p)
        return x


class v_float(metaclass=_FloatMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SBool))

    def __call__(cls, *a):
        return bool(*a)


class v_bool(metaclass=_BoolMeta):
    pass


for _c, _n in ((v_list, 'list'), (v_tuple, 'tuple'), (v_int, 'int'),
               (v_float, 'float'), (v_bool, 'bool')):
    _c.__name__ = _n
_v = {v_list: list, v_int: int, v_float: float, v_bool: bool, v_tuple: tuple}


def v_len(x):
    if hasattr(x, 'vlen'):
        return x.vlen()
    return len(x)


def v_range(*a):
    a = [x.item() if isinstance(x, SArr) else x for x in a]
    a = [S.wrap_int(x.p) if isinstance(x, SV) else x for x in a]
    if any(isinstance(x, float) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return S.mk_range(*a)


def v_sum(it, start=0):
    segs = R.sym_segments(it)
    if segs is None and isinstance(it, SArr):
        segs = None
    if segs is None:
        out = start
        for x in it:
            out = out + x
        return out
    vl = it if isinstance(it, VList) else (
        it.as_list() if isinstance(it, R.SymIter) else S.as_vlist(it))

    def go(ss):
        out = ZERO
        for s in ss:
            if isinstance(s, For):
                c = CTX()
                c.push()
                try:
                    c.add_range(s.k, s.n)
                    inner = go(s.segs)
                finally:
                    c.pop()
                out = out + T.mk_sum(s.k, s.n, inner)
            else:
                out = out + to_poly(s)
        return out
    return SV(go(vl.segs)) + start


def _minmax(name, f, g):
    def h(*a, **kw):
        if len(a) == 1:
            a = list(a[0])
        if all(isinstance(x, (int, float, str, tuple)) for x in a) or kw:
            return getattr(builtins, name)(a, **kw)
        out = a[0]
        for x in a[1:]:
            p = f(to_poly(out), to_poly(x))
            out = wrap_int(p) if T.poly_is_int(p) else SV(p)
        return out
    return h


v_min = _minmax('min', S.p_min, None)
v_max = _minmax('max', S.p_max, None)


def v_abs(x):
    if isinstance(x, (int, float)):
        return abs(x)
    return x.__abs__()


def v_enumerate(it, start=0):
    segs = R.sym_segments(it)
    if segs is None:
        return enumerate(it, start)
    if len(segs) != 1:
        raise Unsupported('enumerate')
    _, n, fn = segs[0]
    return R.SymIter(n, lambda j: (wrap_int(j + const(start)), fn(j)))


def v_zip(*its):
    ss = [R.sym_segments(x) for x in its]
    if all(s is None for s in ss):
        return zip(*its)
    if any(s is None or len(s) != 1 for s in ss):
        raise Unsupported('zip')
    n = ss[0][0][1]
    for s in ss[1:]:
        if not S.same_dim(s[0][1], n):
            raise Unsupported('zip of different lengths')
    return R.SymIter(n, lambda j: tuple(s[0][2](j) for s in ss))


def v_map(f, *its):
    if all(R.sym_segments(x) is None for x in its):
        return map(f, *its)
    if len(its) != 1:
        raise Unsupported('map')
    return R.RT(Eng.cur).lc(f, its[0], None, 0, False)


def v_reversed(x):
    if isinstance(x, VList):
        return reversed(list(x))
    if isinstance(x, S.SRange):
        return x.__reversed__()
    if isinstance(x, SArr):
        return x[::-1]
    return reversed(x)


def v_sorted(x, **k):
    return VList(sorted(list(x), **k))


def _all(x):
    if isinstance(x, SArr):
        x = [S.np_all(x)]
    segs = R.sym_segments(x)
    if segs is not None:
        return bool(S.np_all(asarr(x)))
    for y in x:
        if not y:
            return False
    return True


def _any(x):
    if R.sym_segments(x) is not None:
        return bool(S.np_any(asarr(x)))
    for y in x:
        if y:
            return True
    return False


def v_isinstance(x, c):
    if isinstance(c, tuple):
        return any(v_isinstance(x, d) for d in c)
    return isinstance(x, c)


def v_type(x, *a):
    if a:
        return type(x, *a)
    return type(x)


def make_builtins(eng, importer):
    d = dict(builtins.__dict__)
    d.update(list=v_list, tuple=v_tuple, int=v_int, float=v_float,
             bool=v_bool, len=v_len, range=v_range, sum=v_sum, min=v_min,
             max=v_max, abs=v_abs, enumerate=v_enumerate, zip=v_zip,
             map=v_map, reversed=v_reversed, sorted=v_sorted, all=_all,
             any=_any, print=lambda *a, **k: eng.externals['print'](*a, **k)
            if 'print' in eng.externals else None, __import__=importer,
             isinstance=v_isinstance, dict=R.VDict, set=R.VSet,
             hasattr=R.v_hasattr, next=R.v_next)

    def blocked(*a, **k):
        raise Unsupported('dynamic code')
    for n in ('exec', 'eval', 'open', 'compile', 'input'):
        d[n] = blocked
    return d
