"""C09: vector-space Hessians convert exactly to free-space Hessians.  The
parameter is known only through its contract (C01-C08)."""
from .abstract import *


def convert(vc, fmt, consistent):
    P = vc.mod('Parameters')
    p = APar(vc, 'p', 1)
    x = vc.arr('x', p.f)
    x0 = vc.snap(x)
    if consistent:
        # an objective F(vector); its gradient and Hessian at the vector of x
        def obj(y):
            return ufun('F:obj', y)
        y0 = p.dec(x0)
        g = N.ag_jac(obj, y0)
        H = N.ag_jac(lambda z: N.ag_jac(obj, z), y0)
    else:
        g = vc.arr('g', p.v)
        H = vc.arr('H', p.v, p.v)
    g0, H0 = vc.snap(g), vc.snap(H)
    Harg = H
    if fmt != 'dense':
        Harg = N.make_sparse(fmt)(H)
    r = P.convert_vector_to_free_hessian(p, x, g, Harg)
    r = S.asarr(r.toarray()) if N.issparse(r) else S.asarr(r)
    vc.true('rank', len(r.shp) == 2)
    vc.true('rows', SV(r.shp[0]) == p.f)
    vc.true('columns', SV(r.shp[1]) == p.f)
    if consistent:
        want = N.ag_jac(lambda t: N.ag_jac(
            lambda z: obj(p.dec(z)), t), x0)
        vc.eq('Hessian of the objective in the free vector', r, want)
        return
    J = p.jac_at(x0)
    hs = p.hess_at(x0)
    v = S.dim_poly(p.v)

    def fn(j, k):
        return S.sum_over([v, v], lambda ab: J.at([ab[0], j]) *
                          H0.at([ab[0], ab[1]]) * J.at([ab[1], k])) + \
            S.sum_over([v], lambda i: g0.at([i[0]]) * hs.at([i[0], j, k]))
    vc.eq('J^T H J + sum g_i hess_i', r, vc.from_fn((p.f, p.f), fn))
    vc.eq('free vector not modified', x, x0)
    vc.eq('gradient not modified', g, g0)
    if fmt == 'dense':
        vc.eq('Hessian not modified', H, H0)
    else:
        vc.eq('Hessian not modified', Harg.toarray(), H0)


SCENARIOS = each([(f, c) for f in ('dense', 'coo', 'csr', 'csc')
                  for c in (False, True)], convert)
BOUNDS = ''
