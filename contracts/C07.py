"""C07: sparse Jacobians equal the derivative of the free-to-vector map."""
from .paramspec import *
from .abstract import APar, N, unpack_contract, unpack_meets_contract, \
    primitive_rules


def dense(vc, m):
    return S.asarr(m.toarray())


def jacobian(vc, kind, bk):
    if kind[0] == 'posdef' and kind[1] != 'single':
        unpack_contract(vc)
    s = Spec(vc, kind, bk)
    f0 = vc.arr('f0', s.fsize)
    s.par.set_free(f0)                 # earlier calls
    x = vc.arr('x', s.fsize)
    x0 = vc.snap(x)
    jac = s.par.free_to_vector_jac(x)
    vc.true('sparse', N.issparse(jac))
    j = dense(vc, jac)
    vc.true('rows', j.shape[0] == s.vsize)
    vc.true('columns', j.shape[1] == s.fsize)
    vc.eq('argument is not modified', x, x0)
    # the map itself, on a separate parameter of the same configuration

    def g(z):
        s.par.set_free(z)
        return s.par.get_vector()
    want = N.ag_jac(g, x0)
    if len(S.asarr(want).shp) == 1:
        want = S.reshape(S.asarr(want), (s.vsize, s.fsize))
    want = S.asarr(want)
    vc.true('map shape', SV(want.shp[0]) == s.vsize)
    s.eq('entries', ('vector', 'free'), j.at, want.at)
    # the same array object, changed in place since
    x[...] = vc.arr('x2', s.fsize)
    x2 = vc.snap(x)
    j3 = dense(vc, s.par.free_to_vector_jac(x))
    s.par.set_free(f0)
    j2 = dense(vc, s.par.free_to_vector_jac(x0))
    s.eq('the result does not depend on the value held',
         ('vector', 'free'), j2.at, j.at)
    j4 = dense(vc, s.par.free_to_vector_jac(x2))
    s.eq('the result is for the contents of the array',
         ('vector', 'free'), j3.at, j4.at)
    s.eq('an earlier result is not modified', ('vector', 'free'),
         dense(vc, jac).at, j.at)


def dict_jacobian(vc, n):
    from .C06 import build, offsets
    d, pars = build(vc, n)
    fo, ft = offsets(pars, 'free')
    vo, vt = offsets(pars, 'vector')
    x = vc.arr('x', ft)
    x0 = vc.snap(x)
    j = dense(vc, d.free_to_vector_jac(x))
    vc.true('rows', j.shape[0] == vt)
    vc.true('columns', j.shape[1] == ft)
    for a, p in enumerate(pars):
        for b, q in enumerate(pars):
            part = vc.from_fn((p.v, q.f), lambda i, k: j.at(
                [i + S.dim_poly(vo[a][0]), k + S.dim_poly(fo[b][0])]))
            if a == b:
                xs = vc.from_fn((p.f,), lambda i: x0.at(
                    [i + S.dim_poly(fo[a][0])]))
                want = p.jac_at(xs)
            else:
                want = vc.from_fn((p.v, q.f), lambda i, k: ZERO)
            vc.eq('block %d %d' % (a, b), part, want)


BKS = ('none', 'lower', 'upper', 'both')
SCENARIOS = per_kind(jacobian, [SCALAR, VECTOR] + ARRAYS, BKS) + \
    per_kind(jacobian, [SIMPLEX] + SUBSPACE) + \
    per_kind(jacobian, POSDEFS, ('none', 'positive')) + \
    each(['keyword', 'positional'], unpack_meets_contract) + \
    [('primitive_rules', primitive_rules)] + \
    each([1, 2, 3, 4], dict_jacobian)
BOUNDS = 'dictionaries of at most four members (arbitrary members, arbitrary sizes)'
