"""C04: subspace parameters stay orthogonal to the constraint rows."""
from .common import *
from engine import rewrite


def make(vc, how):
    """(parameter, constraint matrix, rows, dim)"""
    M = vc.mod('ProjectionParams')
    if how == 'default':
        n = vc.dim('n', 2)
        par = M.SubspaceVectorParam('p', n)
        return par, vc.from_fn((1, n), lambda i, j: ONE), 1, n
    m = vc.dim('m', 1)
    n = vc.dim('n', 2)
    vc.assume(m < n)
    # full row rank (the Gram matrix is invertible) is a precondition
    x = vc.arr('x', m, n)
    x0 = vc.snap(x)
    par = M.SubspaceVectorParam('p', n, perp_subspace=x)
    vc.eq('constraint matrix is not modified', x, x0)
    if how == 'mutated':
        x[...] = vc.arr('z', m, n)
    elif how == 'valued':
        v = vc.arr('v0', n)
        par = M.SubspaceVectorParam('p', n, val=v, perp_subspace=x)
        vc.eq('initial value', par.get(), v)
    return par, x0, m, n


def orthogonal(vc, name, x, v):
    m, n = x.shp
    vc.eq(name, vc.from_fn((m,), lambda a: vc.sum(
        [n], lambda i: x.at([a, i]) * S.asarr(v).at([i]))),
        vc.from_fn((m,), lambda a: ZERO))


def free_roundtrip(vc, how):
    par, x, m, n = make(vc, how)
    par.set(vc.arr('w', n))
    par.set_free(vc.arr('f1', n - m))
    f = vc.arr('f', n - m)
    f0 = vc.snap(f)
    par.set_free(f)
    vc.true('free size', par.free_size() == n - m)
    vc.true('value size', S.asarr(par.get()).size == n)
    orthogonal(vc, 'orthogonal to every constraint row', x, par.get())
    vc.eq('free vector is read back', par.get_free(), f0)
    vc.eq('free vector is not modified', f, f0)


def value_roundtrip(vc, how):
    par, x, m, n = make(vc, how)
    v = vc.arr('v', n)
    # hypothesis: v is orthogonal to the constraint rows
    if how == 'default':
        vc.hypothesis('sum of v is zero', [(n, 'i')], lambda i: [v.at([i])])
    else:
        a = rewrite.pv('a')
        vc.hypothesis('v is orthogonal to the rows', [(n, 'i')],
                      lambda i: [x.at([a, i]), v.at([i])], [a])
    v0 = vc.snap(v)
    par.set(v)
    g = par.get_free()
    par.set_free(vc.arr('f1', n - m))
    par.set_free(g)
    vc.eq('value is reproduced', par.get(), v0)


def basis(vc):
    """get_perpendicular_subspace: orthonormal basis of the row complement"""
    M = vc.mod('ProjectionParams')
    m, n = vc.dim('m', 1), vc.dim('n', 2)
    vc.assume(m < n)
    x = vc.arr('x', m, n)
    b = S.asarr(M.get_perpendicular_subspace(x))
    vc.true('rows', b.shp[0] == n.p)
    vc.true('columns', (SV(b.shp[1]) == n - m))
    k = n - m
    vc.eq('orthonormal', S.matmul(S.transpose(b), b),
          vc.from_fn((k, k), lambda i, j: T.mk_ind('eq', i - j)))
    vc.eq('orthogonal to the rows', S.matmul(x, b),
          vc.from_fn((m, k), lambda i, j: ZERO))


def default_value(vc, how):
    par, x, m, n = make(vc, how)
    orthogonal(vc, 'initial value is orthogonal', x, par.get())


def reject(vc, what):
    M = vc.mod('ProjectionParams')
    m, n, k = vc.dim('m', 1), vc.dim('n', 1), vc.dim('k', 1)
    if what == 'width':
        vc.assume(k != n)
    else:
        vc.assume(m >= n)
        k = n
    x = vc.arr('x', m, k)
    vc.raises('rejected', ValueError, lambda: M.SubspaceVectorParam(
        'p', n, perp_subspace=x))


SCENARIOS = each(['default', 'given', 'mutated', 'valued'], free_roundtrip) \
    + each(['default', 'given', 'mutated'], value_roundtrip) \
    + each(['default', 'given'], default_value) \
    + each(['width', 'rows'], reject) + [('basis', basis)]
