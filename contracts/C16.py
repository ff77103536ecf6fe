"""C16: entropies equal the closed-form entropies of their distributions."""
from .common import *
from engine import nplib as N

H = T.Fr(1, 2)


def lg(p):
    return S.to_poly(N.sp_gammaln(SV(p)))


def dg(p):
    return S.to_poly(N.sp_digamma(SV(p)))


def log(p):
    return S.p_log(p)


LOG2 = lambda: S.p_log(const(2))
PI = lambda: S.to_poly(N._pi())
LOGPI = lambda: S.p_log(PI())


def shape(vc, rank):
    return tuple(vc.dim('n%d' % i) for i in range(rank))


def parr(vc, name, *shp):
    """an array of arbitrary positive reals"""
    if not shp:
        v = vc.real(name)
        vc.assume(v > 0)
        return v
    a = vc.arr(name, *shp)
    vc.positive(name)
    return a


def total(f, *arrs):
    """sum of f(entries) over all positions of arrays of one shape"""
    arrs = [S.asarr(a) for a in arrs]
    return S.sum_over(list(arrs[0].shp), lambda ix: f(*[a.at(ix)
                                                        for a in arrs]))


def frozen(vc, f, *args):
    """f(*args), arguments unchanged"""
    old = [vc.snap(a) for a in args]
    r = f(*args)
    for a, o in zip(args, old):
        if isinstance(a, SArr):
            vc.eq('argument unchanged', a, o)
    return r


def scalar(vc, name, r, want):
    r = S.asarr(r)
    vc.true(name + ': one number', len(r.shp) == 0)
    vc.zero(name, r.at([]) - want)


def mv_gammaln(x, n):
    """log of the multivariate gamma function of dimension n"""
    return (n * (n - ONE) * LOGPI()).scale(T.Fr(1, 4)) + S.sum_over(
        [n], lambda j: lg(x - j[0].scale(H)))


def mv_digamma(x, n):
    return S.sum_over([n], lambda j: dg(x - j[0].scale(H)))


def multivariate(vc, kind):
    E = vc.mod('ExponentialFamilies')
    n = vc.dim('n')
    x = vc.real('x')
    size = SV(S.dim_poly(n)) if kind == 'float' else n
    scalar(vc, 'multivariate log gamma', E.multivariate_gammaln(x, size),
           mv_gammaln(x.p, S.dim_poly(n)))
    scalar(vc, 'multivariate digamma', E.multivariate_digamma(x, size),
           mv_digamma(x.p, S.dim_poly(n)))


def multinoulli(vc, how):
    E = vc.mod('ExponentialFamilies')
    n, k = vc.dim('n'), vc.dim('k')
    p = vc.arr('p', n, k)
    vc.assume(SForall(p.shp, lambda ix: (SV(p.at(ix)) >= 0).p))
    if how == 'default':
        m = S.to_poly(1e-16)
        r = frozen(vc, E.multinoulli_entropy, p)
    else:
        mp = vc.real('min_prob')
        vc.assume(mp > 0)
        m = mp.p
        r = frozen(vc, lambda q: E.multinoulli_entropy(q, min_prob=mp), p)
    vc.eq('entropy per row', r, vc.from_fn((n,), lambda i: -S.sum_over(
        [S.dim_poly(k)], lambda j: p.at([i, j[0]]) *
        log(p.at([i, j[0]]) + m))))


def normal(vc, rank):
    E = vc.mod('ExponentialFamilies')
    info = parr(vc, 'info', *shape(vc, rank))
    r = frozen(vc, E.univariate_normal_entropy, info)
    scalar(vc, 'sum of the entropies', r, total(
        lambda l: (LOG2() + LOGPI() + ONE - log(l)).scale(H), info))


def normal_mv(vc):
    E = vc.mod('ExponentialFamilies')
    n = vc.dim('n')
    info = vc.arr('info', n, n)
    sign, ld = N.slogdet(info)
    if sign > 0:
        r = frozen(vc, E.multivariate_normal_entropy, info)
        k = S.dim_poly(n)
        scalar(vc, 'entropy', r, (k * (ONE + LOG2() + LOGPI()) -
                                  ld.p).scale(H))
    else:
        vc.raises('assertion for a nonpositive determinant', AssertionError,
                  lambda: E.multivariate_normal_entropy(info))


def gamma(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s = shape(vc, rank)
    a, b = parr(vc, 'shape', *s), parr(vc, 'rate', *s)
    r = frozen(vc, E.gamma_entropy, a, b)
    scalar(vc, 'sum of the entropies', r, total(
        lambda x, y: x - log(y) + lg(x) + (ONE - x) * dg(x), a, b))
    scalar(vc, 'keywords', E.gamma_entropy(rate=b, shape=a), total(
        lambda x, y: x - log(y) + lg(x) + (ONE - x) * dg(x), a, b))


def dirichlet(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s = (vc.dim('K'),) + shape(vc, rank - 1)
    a = parr(vc, 'alpha', *s)
    r = frozen(vc, E.dirichlet_entropy, a)
    K = S.dim_poly(s[0])

    def want(*ix):
        at = lambda k: a.at([k[0]] + list(ix))
        a0 = S.sum_over([K], at)
        return S.sum_over([K], lambda k: lg(at(k))) - lg(a0) + \
            (a0 - K) * dg(a0) - S.sum_over(
                [K], lambda k: (at(k) - ONE) * dg(at(k)))
    if rank == 1:
        scalar(vc, 'entropy', r, want())
    else:
        vc.eq('one entropy per array element', r, vc.from_fn(s[1:], want))


def beta(vc):
    E = vc.mod('ExponentialFamilies')
    n = vc.dim('n')
    t = parr(vc, 'tau', n, 2)
    r = frozen(vc, E.beta_entropy, t)

    def want(i):
        a, b = t.at([i[0], ZERO]), t.at([i[0], ONE])
        return lg(a) + lg(b) - lg(a + b) - (a - ONE) * dg(a) - \
            (b - ONE) * dg(b) + (a + b - const(2)) * dg(a + b)
    scalar(vc, 'sum of the entropies', r,
           S.sum_over([S.dim_poly(n)], want))


def wishart(vc):
    E = vc.mod('ExponentialFamilies')
    n = vc.dim('n')
    df = vc.real('df')
    v = vc.arr('v', n, n)
    sign, ld = N.slogdet(v)
    if sign > 0:
        r = frozen(vc, E.wishart_entropy, df, v)
        k = S.dim_poly(n)
        x = df.p.scale(H)
        scalar(vc, 'entropy', r,
               ((k + ONE) * ld.p).scale(H) +
               (k * (k + ONE) * LOG2()).scale(H) + mv_gammaln(x, k) -
               ((df.p - k - ONE) * mv_digamma(x, k)).scale(H) +
               (df.p * k).scale(H))
        scalar(vc, 'expected log determinant', frozen(
            vc, E.e_log_det_wishart, df, v),
            mv_digamma(x, k) + k * LOG2() + ld.p)
    else:
        vc.raises('assertion for a nonpositive determinant', AssertionError,
                  lambda: E.wishart_entropy(df, v))
        vc.raises('assertion for a nonpositive determinant', AssertionError,
                  lambda: E.e_log_det_wishart(df, v))


SCENARIOS = each(('int', 'float'), multivariate) + \
    each(('default', 'given'), multinoulli) + each((0, 1, 2, 3), normal) + \
    [('normal_mv', normal_mv)] + each((0, 1, 2, 3), gamma) + \
    each((1, 2, 3), dirichlet) + [('beta', beta), ('wishart', wishart)]
BOUNDS = ''
