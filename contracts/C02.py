"""C02: positive-definite matrix parameters and free coordinates are
one-to-one.  A symmetric matrix with positive-definite excess over d*I is
L L^T + d I for exactly one lower triangular L with positive diagonal; that is
how an arbitrary admissible value is written."""
from .common import *

KINDS = [('single', 0), ('vector', 1), ('array', 1), ('array', 2),
         ('array', 3)]


def sizes(vc, kind, rank):
    n = vc.dim('n', 1)
    shape = tuple(vc.dim('m%d' % i, 1) for i in range(rank))
    return n, shape


def diag_lb(vc, zero):
    if zero == 'zero':
        return 0.0
    d = vc.real('d')
    vc.assume(d > 0)
    return d


def make(vc, kind, n, shape, d, val=None):
    M = vc.mod('MatrixParameters')
    if kind == 'single':
        return M.PosDefMatrixParam('p', n, diag_lb=d, val=val)
    if kind == 'vector':
        return M.PosDefMatrixParamVector('p', shape[0], n, diag_lb=d, val=val)
    return M.PosDefMatrixParamArray('p', shape, n, diag_lb=d, val=val)


def lower(vc, name, n, shape=()):
    """stack of lower triangular matrices with positive diagonal"""
    h = 'A:' + name
    r = len(shape)

    def sgn(args):
        return 1 if (args[r] - args[r + 1]).is_zero() else None
    CTX().signs[h] = sgn
    return vc.from_fn(tuple(shape) + (n, n), lambda *i: T.app(h, *i) *
                      T.mk_ind('ge', i[r] - i[r + 1]))


def admissible(vc, name, n, shape, d):
    """an arbitrary admissible value"""
    L = lower(vc, name, n, shape)
    V = S.matmul(L, swap(L))
    return V + diag_of(vc, n, d)


def swap(a):
    r = len(a.shp)
    return S.transpose(a, list(range(r - 2)) + [r - 1, r - 2])


def diag_of(vc, n, d):
    dp = S.to_poly(d)
    return vc.from_fn((n, n), lambda i, j: T.mk_ind('eq', i - j) * dp)


def total(shape):
    out = 1
    for s in shape:
        out = out * s
    return out


def blocks(n):
    return (n * n + n) // 2


def set_free_get_free(vc, kind, rank, zero):
    n, shape = sizes(vc, kind, rank)
    d = diag_lb(vc, zero)
    par = make(vc, kind, n, shape, d)
    m = blocks(n) * total(shape)
    vc.true('free size', par.free_size() == m)
    x = vc.arr('x', m)
    x0 = vc.snap(x)
    par.set_free(x)
    val = par.get()
    full = tuple(shape) + (n, n)
    vc.eq('declared shape', val * 0, vc.from_fn(full, lambda *i: ZERO))
    vc.eq('symmetric', val, swap(val))
    # the excess over d I is C C^T with C lower triangular, positive diagonal,
    # C built from the matrix' own contiguous block of the free vector
    b = S.dim_poly(blocks(n))

    def chol(*i):
        obs = S.ravel(list(i[:-2]), [S.dim_poly(s) for s in shape]) \
            if shape else ZERO
        r, c = i[-2], i[-1]
        t = T.mk_idiv(r * (r + ONE), const(2)) + c
        e = x.at([obs * b + t])
        eq = T.mk_ind('eq', r - c)
        return T.mk_ind('ge', r - c) * ((ONE - eq) * e + eq * T.mk_exp(e))
    C = vc.from_fn(full, chol)
    vc.eq('excess over d I is C C^T', val,
          S.matmul(C, swap(C)) + diag_of(vc, n, d))
    vc.eq('free vector is reproduced', par.get_free(), x)
    vc.eq('argument is not modified', x, x0)


def set_get_free_set(vc, kind, rank, zero):
    n, shape = sizes(vc, kind, rank)
    d = diag_lb(vc, zero)
    par = make(vc, kind, n, shape, d)
    val = admissible(vc, 'L', n, shape, d)
    v0 = vc.snap(val)
    par.set(val)
    free = par.get_free()
    vc.true('free vector has the free size', free.size == par.free_size())
    par.set_free(free)
    vc.eq('value is reproduced', par.get(), v0)
    vc.eq('argument is not modified', val, v0)


def default_admissible(vc, kind, rank, zero):
    n, shape = sizes(vc, kind, rank)
    d = diag_lb(vc, zero)
    par = make(vc, kind, n, shape, d)
    full = tuple(shape) + (n, n)
    dp = S.to_poly(d)
    vc.eq('default is (1 + d) I', par.get(), vc.from_fn(
        full, lambda *i: T.mk_ind('eq', i[-1] - i[-2]) * (dp + ONE)))
    par2 = make(vc, kind, n, shape, d)
    par2.set_free(par.get_free())
    vc.eq('default is reproduced', par2.get(), par.get())


CASES = [k + (z,) for k in KINDS for z in ('zero', 'positive')]
SCENARIOS = each(CASES, set_free_get_free) + each(CASES, set_get_free_set) + \
    each(CASES, default_admissible)
