"""C17: moments, priors and quadrature formulas are exact."""
from .C16 import *

exp = S.p_exp


def sqrt(p):
    return S.p_sqrt(p)


def arr_or_scalar(vc, name, s, pos=False, boxed=False):
    if pos:
        a = parr(vc, name, *s)
    elif s:
        a = vc.arr(name, *s)
    else:
        a = vc.real(name)
    if boxed and not s:
        p = a.p
        return SArr((), lambda: p)
    return a


def entries(vc, name, r, s, f, *arrs):
    """r has shape s and entries f(entries of arrs); rank 0 arrs broadcast"""
    arrs = [S.asarr(a) for a in arrs]
    at = lambda a, ix: a.at(list(ix) if a.shp else [])
    if not s:
        scalar(vc, name, r, f(*[a.at([]) for a in arrs]))
        return
    vc.eq(name, r, vc.from_fn(s, lambda *ix: f(*[at(a, ix) for a in arrs])))


def lognormal(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s = shape(vc, rank)
    m, v = arr_or_scalar(vc, 'm', s), parr(vc, 'v', *s)
    entries(vc, 'lognormal mean', frozen(vc, E.get_e_lognormal, m, v), s,
            lambda a, b: exp(a + b.scale(H)), m, v)
    entries(vc, 'lognormal variance', frozen(vc, E.get_var_lognormal, m, v),
            s, lambda a, b: exp((a + b).scale(2)) - exp(a.scale(2) + b), m, v)


def gamma_moments(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s = shape(vc, rank)
    a, b = parr(vc, 'shape', *s), parr(vc, 'rate', *s)
    for r in (frozen(vc, E.get_e_log_gamma, a, b),
              E.get_e_log_gamma(rate=b, shape=a)):
        entries(vc, 'E log gamma', r, s, lambda x, y: dg(x) - log(y), a, b)


def dirichlet_moments(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s = (vc.dim('K'),) + shape(vc, rank - 1)
    a = parr(vc, 'alpha', *s)
    K = S.dim_poly(s[0])
    tot = lambda ix: S.sum_over([K], lambda k: a.at([k[0]] + list(ix[1:])))
    vc.eq('Dirichlet mean', frozen(vc, E.get_e_dirichlet, a), vc.from_fn(
        s, lambda *ix: S.p_div(a.at(list(ix)), tot(ix))))
    vc.eq('E log Dirichlet', frozen(vc, E.get_e_log_dirichlet, a),
          vc.from_fn(s, lambda *ix: dg(a.at(list(ix))) - dg(tot(ix))))


def wishart_moments(vc):
    E = vc.mod('ExponentialFamilies')
    n = vc.dim('n')
    k = S.dim_poly(n)
    df = vc.real('df')
    v = vc.arr('v', n, n)
    sign, ld = N.slogdet(v)
    vc.assume(sign > 0)
    vinv = N.np_inv(v)
    # the diagonal of the inverse of a positive definite matrix is positive
    vc.assume(SForall(vinv.shp[:1], lambda ix: (
        SV(vinv.at([ix[0], ix[0]])) > 0).p))
    eld = mv_digamma(df.p.scale(H), k) + k * LOG2() + ld.p
    scalar(vc, 'E log det', frozen(vc, E.e_log_det_wishart, df, v), eld)
    dinv = lambda i: log(vinv.at([i, i])) - \
        dg((df.p - k + ONE).scale(H)) - LOG2()
    vc.eq('E log diagonal of the inverse',
          frozen(vc, E.e_log_inv_wishart_diag, df, v),
          vc.from_fn((n,), dinv))
    l = vc.real('lkj')
    want = (l.p - ONE) * (-eld - S.sum_over([k], lambda i: dinv(i[0])))
    scalar(vc, 'E log LKJ prior', frozen(
        vc, E.expected_ljk_prior, l, df, v), want)


def natural(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s = shape(vc, rank)
    m, i = arr_or_scalar(vc, 'm', s), parr(vc, 'i', *s)
    # log density of N(m, 1/i): -i/2 x^2 + i m x + const
    gm, gi = frozen(vc, E.get_uvn_from_natural_parameters, m * i,
                    i * T.Fr(-1, 2))
    entries(vc, 'mean', gm, s, lambda a: a, m)
    entries(vc, 'information', gi, s, lambda a: a, i)


def priors_mv(vc):
    E = vc.mod('ExponentialFamilies')
    n = vc.dim('n')
    k = S.dim_poly(n)
    pm, e = vc.arr('prior_mean', n), vc.arr('e_obs', n)
    L, c = vc.sym_matrix('prior_info', n), vc.sym_matrix('cov', n)
    # E -1/2 (x - pm)' L (x - pm),  E x = e, Cov x = c
    want = S.sum_over([k, k], lambda ix: L.at(ix) * (
        c.at(ix) + (e.at([ix[0]]) - pm.at([ix[0]])) *
        (e.at([ix[1]]) - pm.at([ix[1]])))).scale(-H)
    scalar(vc, 'multivariate normal prior',
           frozen(vc, E.mvn_prior, pm, L, e, c), want)
    a, l = parr(vc, 'alpha', n), vc.arr('e_log', n)
    scalar(vc, 'Dirichlet prior', frozen(vc, E.dirichlet_prior, a, l),
           S.sum_over([k], lambda i: (a.at(i) - ONE) * l.at(i)))
    m = vc.dim('m')
    vc.assume(SBool(ONE - T.mk_ind('eq', S.dim_poly(m) - k)))
    vc.raises('mismatched shapes', AssertionError,
              lambda: E.dirichlet_prior(a, vc.arr('e_log2', m)))


def priors_uv(vc, rank, hyper):
    E = vc.mod('ExponentialFamilies')
    s = shape(vc, rank)
    hs = s if hyper == 'array' else ()
    pm, pi = arr_or_scalar(vc, 'pm', hs), parr(vc, 'pi', *hs)
    e, v = arr_or_scalar(vc, 'e', s), parr(vc, 'v', *s)
    # E (x - pm)^2 = v + e^2 - 2 e pm + pm^2
    entries(vc, 'normal prior', frozen(vc, E.uvn_prior, pm, pi, e, v), s,
            lambda m, i, x, w: (i * (w + x * x - (x * m).scale(2) + m * m)
                                ).scale(-H), pm, pi, e, v)
    a, b, el = parr(vc, 'a', *hs), parr(vc, 'b', *hs), \
        arr_or_scalar(vc, 'el', s)
    entries(vc, 'gamma prior', frozen(vc, E.gamma_prior, a, b, v, el), s,
            lambda x, y, z, l: (x - ONE) * l - y * z, a, b, v, el)
    entries(vc, 'exponential prior', frozen(vc, E.exponential_prior, a, v),
            s, lambda x, z: -x * z, a, v)


def quad_inputs(vc, rank):
    s = shape(vc, rank)
    m = arr_or_scalar(vc, 'm', s, boxed=True)
    g = vc.dim('g')
    return s, m, S.dim_poly(g), vc.arr('gh_x', g), vc.arr('gh_w', g)


def quad(s, K, x, w, f, m, sd):
    """entries: weighted sum over the nodes / sqrt(pi)"""
    def fn(*ix):
        ix = list(ix)
        return S.sum_over([K], lambda k: w.at(k) * f(
            m.at(ix) + sqrt(const(2)) * x.at(k) * sd(ix))) * \
            S.p_div(ONE, sqrt(PI()))
    return fn


def check_quad(vc, name, r, s, fn):
    if not s:
        scalar(vc, name, r, fn())
    else:
        vc.eq(name, r, vc.from_fn(s, fn))


def quadrature(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s, m, K, x, w = quad_inputs(vc, rank)
    info = arr_or_scalar(vc, 'info', s, True, True)
    sd = lambda ix: S.p_div(ONE, sqrt(info.at(ix)))
    f = lambda p: T.app('F:fun', p)

    def fun(a):
        g = S.asarr(a).snap()
        return SArr(a.shp, lambda *i: f(g(list(i))))
    r = frozen(vc, E.get_e_fun_normal, m, info, x, w, fun)
    check_quad(vc, 'expectation of a function', r, s,
               quad(s, K, x, w, f, m, sd))
    expit = lambda p: S.to_poly(N.sp_expit(SV(p)))
    r = frozen(vc, E.get_e_logitnormal, m, info, x, w)
    check_quad(vc, 'expectation of a logit normal', r, s,
               quad(s, K, x, w, expit, m, sd))


def log_expit(p):
    """log expit, for p <= -100 its asymptote p"""
    big = T.mk_ind('gt', p + const(100))
    return S.ite(big, lambda: -log(ONE + exp(-p)), lambda: p)


def quadrature_log(vc, rank):
    E = vc.mod('ExponentialFamilies')
    s, m, K, x, w = quad_inputs(vc, rank)
    info = arr_or_scalar(vc, 'info', s, True, True)
    sd = lambda ix: S.p_div(ONE, sqrt(info.at(ix)))
    a, b = frozen(vc, E.get_e_log_logitnormal, m, info, x, w)
    fa = quad(s, K, x, w, log_expit, m, sd)
    check_quad(vc, 'E log v', a, s, fa)
    fb = lambda *ix: fa(*ix) - m.at(list(ix))
    check_quad(vc, 'E log(1 - v)', b, s, fb)
    alpha = vc.real('alpha')
    r = frozen(vc, E.get_e_dp_prior_logitnorm_approx, alpha, m, info, x, w)
    check_quad(vc, 'Dirichlet process prior', r, s,
               lambda *ix: (alpha.p - ONE) * fb(*ix))


def logistic(vc, rank):
    M = vc.mod('Modeling')
    s, m, K, x, w = quad_inputs(vc, rank)
    sd = arr_or_scalar(vc, 'sd', s, True, True)
    y = arr_or_scalar(vc, 'y', s, boxed=True)
    l1p = lambda p: log(ONE + exp(p))
    # sampled: the draws are x
    r = frozen(vc, M.get_e_logistic_term, y, m, sd, x)
    want = S.sum_over(list(m.shp), lambda ix: y.at(ix) * m.at(ix) - S.sum_over(
        [K], lambda k: l1p(m.at(ix) + sd.at(ix) * x.at(k))) *
        S.p_div(ONE, K))
    scalar(vc, 'sampled logistic term', r, want)
    fn = quad(s, K, x, w, l1p, m, lambda ix: sd.at(ix))
    r = frozen(vc, lambda *a: M.get_e_logistic_term_guass_hermite(
        *a, aggregate_all=False), m, sd, x, w)
    check_quad(vc, 'quadrature logistic term per element', r, s, fn)
    for kw in ({}, {'aggregate_all': True}):
        r = frozen(vc, lambda *a: M.get_e_logistic_term_guass_hermite(
            *a, **kw), m, sd, x, w)
        scalar(vc, 'quadrature logistic term', r, S.sum_over(
            list(m.shp), lambda ix: fn(*ix)))


def density(vc, rank):
    M = vc.mod('Modeling')
    s = shape(vc, rank)
    u, m = arr_or_scalar(vc, 'u', s), arr_or_scalar(vc, 'm', s)
    i = parr(vc, 'i', *s)
    r = frozen(vc, M.univariate_normal_log_prob, u, m, i)
    entries(vc, 'normal log density', r, s, lambda a, b, c: (
        log(c) - LOG2() - LOGPI() - c * (a - b) * (a - b)).scale(H), u, m, i)


def draws(vc):
    M = vc.mod('Modeling')
    n = vc.dim('n')
    r = M.get_standard_draws(n)
    np_ = S.dim_poly(n)
    vc.eq('normal quantiles at k/(n+1)', r, vc.from_fn((n,), lambda k: T.app(
        'normppf', S.p_div(k + ONE, np_ + ONE))))


SCENARIOS = each((0, 1, 2, 3), lognormal) + \
    each((0, 1, 2, 3), gamma_moments) + \
    each((1, 2, 3), dirichlet_moments) + \
    [('wishart_moments', wishart_moments)] + each((0, 1, 2), natural) + \
    [('priors_mv', priors_mv)] + \
    each([(0, 'scalar')] + [(r, h) for r in (1, 2)
                            for h in ('scalar', 'array')], priors_uv) + \
    each((0, 1, 2, 3), quadrature) + each((0, 1, 2), quadrature_log) + \
    each((0, 1, 2), logistic) + each((0, 1, 2), density) + \
    [('draws', draws)]
BOUNDS = ''
