"""C19: batched products, generalized least squares and the conjugate
posterior.  Batch dimensions (b), extra observation dimensions (e)."""
from .C17 import *


def dims(vc, pre, k):
    return tuple(vc.dim('%s%d' % (pre, i)) for i in range(k))


def P(*ds):
    return [S.dim_poly(d) for d in ds]


def products(vc, b, e):
    R = vc.mod('regression_utils')
    B, Ex = dims(vc, 'b', b), dims(vc, 'e', e)
    n, r, t = vc.dim('n'), vc.dim('r'), vc.dim('t')
    x1, x2 = vc.arr('x1', *(B + (n, r))), vc.arr('x2', *(B + (n, t)))
    if e == 0:
        vc.eq("x1' x2", frozen(vc, R.mat_mul_last2dims, x1, x2), vc.from_fn(
            B + (r, t), lambda *ix: S.sum_over(P(n), lambda s: x1.at(
                list(ix[:b]) + [s[0], ix[b]]) * x2.at(
                list(ix[:b]) + [s[0], ix[b + 1]]))))
    y = vc.arr('y', *(B + Ex + (n,)))
    vc.eq("x' y", frozen(vc, R.matvec_mul_last2dims, x1, y), vc.from_fn(
        B + (r,), lambda *ix: S.sum_over(P(*(Ex + (n,))), lambda s: x1.at(
            list(ix[:b]) + [s[-1], ix[b]]) * y.at(
            list(ix[:b]) + list(s)))))


class Reg(object):
    """regression data and the specified natural parameters"""

    def __init__(self, vc, b, e, info):
        self.vc, self.b = vc, b
        B, Ex = dims(vc, 'b', b), dims(vc, 'e', e)
        self.n, self.r = n, r = vc.dim('n'), vc.dim('r')
        self.B = B
        self.x = x = vc.arr('x', *(B + (n, r)))
        self.y = y = vc.arr('y', *(B + Ex + (n,)))
        if info == 'scalar':
            self.info = vc.real('info')
            L = lambda ix, s, u: self.info.p * T.mk_ind('eq', s - u)
        else:
            T.SYMM_HEADS.add('A:info')
            self.info = vc.arr('info', *(B + (n, n)))
            L = lambda ix, s, u: self.info.at(list(ix) + [s, u])
        N_ = P(n)[0]

        def lx(ix, s, c):
            """(L x) entry"""
            if info == 'scalar':
                return self.info.p * x.at(list(ix) + [s, c])
            return S.sum_over([N_], lambda u: L(ix, s, u[0]) * x.at(
                list(ix) + [u[0], c]))

        def n1(*ix):
            i, c = list(ix[:b]), ix[b]
            return S.sum_over(P(*Ex) + [N_], lambda s: lx(
                i, s[-1], c) * y.at(i + list(s)))
        cnt = ONE
        for d in P(*Ex):
            cnt = cnt * d

        def n2(*ix):
            i, c, d = list(ix[:b]), ix[b], ix[b + 1]
            return -cnt.scale(H) * S.sum_over([N_], lambda s: x.at(
                i + [s[0], c]) * lx(i, s[0], d))
        self.n1 = vc.from_fn(B + (r,), n1)
        self.n2 = vc.from_fn(B + (r, r), n2)

    def prior(self):
        vc, B, r, b = self.vc, self.B, self.r, self.b
        self.pm = vc.arr('pm', *(B + (r,)))
        T.SYMM_HEADS.add('A:pi')
        self.pi = pi = vc.arr('pi', *(B + (r, r)))
        self.p1 = vc.from_fn(B + (r,), lambda *ix: S.sum_over(
            P(r), lambda s: pi.at(list(ix) + [s[0]]) * self.pm.at(
                list(ix[:b]) + [s[0]])))
        self.p2 = vc.from_fn(B + (r, r), lambda *ix: pi.at(
            list(ix)).scale(-H))


def likelihood(vc, b, e, info):
    R = vc.mod('regression_utils')
    g = Reg(vc, b, e, info)
    a1, a2 = frozen(vc, R.get_nat_params_from_likelihood, g.y, g.x, g.info)
    vc.eq('first natural parameter', a1, g.n1)
    vc.eq('second natural parameter', a2, g.n2)


def prior(vc, b):
    R = vc.mod('regression_utils')
    g = Reg(vc, b, 0, 'scalar')
    g.prior()
    p1, p2 = frozen(vc, R.get_nat_params_from_prior, g.pm, g.pi)
    vc.eq('first prior natural parameter', p1, g.p1)
    vc.eq('second prior natural parameter', p2, g.p2)


def mvn_of(vc, g, a1, a2):
    """information -2 a2 and mean its inverse times a1"""
    b = g.b
    info = vc.from_fn(a2.shp, lambda *ix: a2.at(list(ix)).scale(-2))
    inv = N.np_inv(info)
    return vc.from_fn(a1.shp, lambda *ix: S.sum_over(
        P(g.r), lambda s: inv.at(list(ix) + [s[0]]) * a1.at(
            list(ix[:b]) + [s[0]]))), info


def convert(vc, b):
    R = vc.mod('regression_utils')
    g = Reg(vc, b, 0, 'scalar')
    T.SYMM_HEADS.add('A:a2')
    a1, a2 = vc.arr('a1', *(g.B + (g.r,))), vc.arr('a2', *(g.B + (g.r, g.r)))
    m, i = frozen(vc, R.get_mvn_from_nat_params, a1, a2)
    wm, wi = mvn_of(vc, g, a1, a2)
    vc.eq('mean', m, wm)
    vc.eq('information', i, wi)


def posterior(vc, b, e, info):
    R = vc.mod('regression_utils')
    g = Reg(vc, b, e, info)
    wm, wi = mvn_of(vc, g, g.n1, g.n2)
    vc.eq('regression coefficients', frozen(
        vc, R.get_regression_coefficients, g.y, g.x, g.info), wm)
    g.prior()
    m, i = frozen(vc, R.get_posterior_regression_coefficients,
                  g.y, g.x, g.info, g.pm, g.pi)
    wm, wi = mvn_of(vc, g, g.n1 + g.p1, g.n2 + g.p2)
    vc.eq('posterior information', i, wi)
    vc.eq('posterior mean', m, wm)


BE = [(b, e) for b in range(4) for e in range(4)]
SCENARIOS = each(BE, products) + \
    each([(b, e, i) for b, e in BE for i in ('scalar', 'matrix')],
         likelihood) + \
    each(range(4), prior) + each(range(4), convert) + \
    each([(b, e, i) for b, e in BE for i in ('scalar', 'matrix')], posterior)
BOUNDS = 'at most three batch and three extra observation dimensions ' \
    '(every size of each)'
