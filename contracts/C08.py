"""C08: sparse Hessians equal second derivatives of the free-to-vector map."""
from .paramspec import *
from .abstract import APar, N, unpack_contract, unpack_meets_contract, \
    primitive_rules


def entry(h, i, j, k):
    """entry (j, k) of matrix i of the list h (index terms)"""
    m = h[SV(i)]
    return m.entry(j, k)


def hessian(vc, kind, bk):
    if kind[0] == 'posdef' and kind[1] != 'single':
        unpack_contract(vc)
    s = Spec(vc, kind, bk)
    f0 = vc.arr('f0', s.fsize)
    s.par.set_free(f0)                 # earlier calls
    x = vc.arr('x', s.fsize)
    x0 = vc.snap(x)
    hess = s.par.free_to_vector_hess(x)
    vc.true('one matrix per vector entry', vc.len(hess) == s.vsize)
    vc.eq('argument is not modified', x, x0)

    def g(z):
        s.par.set_free(z)
        return s.par.get_vector()
    want = N.ag_jac(lambda z: N.ag_jac(g, z), x0)
    want = S.asarr(want)
    if len(want.shp) != 3:
        want = S.reshape(want, (s.vsize, s.fsize, s.fsize))
    # the same array object, changed in place since
    x[...] = vc.arr('x2', s.fsize)
    x2 = vc.snap(x)
    h3 = s.par.free_to_vector_hess(x)
    s.par.set_free(f0)
    h2 = s.par.free_to_vector_hess(x0)
    vc.true('one matrix per vector entry, repeated', vc.len(h2) == s.vsize)
    h4 = s.par.free_to_vector_hess(x2)
    c = CTX()
    c.push()
    try:
        i = s.position('vector')
        j = s.position('free')
        k = s.position('free')
        m = hess[SV(i)]
        vc.true('sparse', N.issparse(m))
        vc.true('rows', m.shape[0] == s.fsize)
        vc.true('columns', m.shape[1] == s.fsize)
        got = dense(m).at([j, k])
        vc.zero('entries', got - want.at([i, j, k]), 6)
        vc.zero('the result does not depend on the value held',
                got - dense(h2[SV(i)]).at([j, k]), 6)
        vc.zero('the result is for the contents of the array',
                dense(h3[SV(i)]).at([j, k]) - dense(h4[SV(i)]).at([j, k]), 6)
        vc.zero('an earlier result is not modified',
                dense(hess[SV(i)]).at([j, k]) - got, 6)
    finally:
        c.pop()


def dense(m):
    return S.asarr(m.toarray())


def dict_hessian(vc, n):
    from .C06 import build, offsets
    d, pars = build(vc, n)
    fo, ft = offsets(pars, 'free')
    vo, vt = offsets(pars, 'vector')
    x = vc.arr('x', ft)
    x0 = vc.snap(x)
    hess = d.free_to_vector_hess(x)
    vc.true('one matrix per vector entry', vc.len(hess) == vt)
    c = CTX()
    for a, p in enumerate(pars):
        c.push()
        try:
            i = T.fresh('q')
            c.add_range(i, S.dim_poly(p.v))
            m = hess[SV(i + S.dim_poly(vo[a][0]))]
            vc.true('rows of member %d' % a, m.shape[0] == ft)
            vc.true('columns of member %d' % a, m.shape[1] == ft)
            e = dense(m)
            xs = vc.from_fn((p.f,), lambda t: x0.at(
                [t + S.dim_poly(fo[a][0])]))
            h = p.hess_at(xs)
            for b, q in enumerate(pars):
                for b2, q2 in enumerate(pars):
                    part = vc.from_fn((q.f, q2.f), lambda j, k: e.at(
                        [j + S.dim_poly(fo[b][0]),
                         k + S.dim_poly(fo[b2][0])]))
                    if a == b == b2:
                        want = vc.from_fn((q.f, q2.f),
                                          lambda j, k: h.at([i, j, k]))
                    else:
                        want = vc.from_fn((q.f, q2.f), lambda j, k: ZERO)
                    vc.eq('member %d block %d %d' % (a, b, b2), part, want)
        finally:
            c.pop()


BKS = ('none', 'lower', 'upper', 'both')
SCENARIOS = per_kind(hessian, [SCALAR, VECTOR] + ARRAYS, BKS) + \
    per_kind(hessian, [SIMPLEX] + SUBSPACE) + \
    per_kind(hessian, POSDEFS, ('none', 'positive')) + \
    each(['keyword', 'positional'], unpack_meets_contract) + \
    [('primitive_rules', primitive_rules)] + \
    each([1, 2, 3, 4], dict_hessian)
BOUNDS = 'dictionaries of at most four members (arbitrary members, arbitrary sizes)'
