from lib import *
import math
import scipy.special as sp
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.Modeling as md
import LinearResponseVariationalBayes.regression_utils as ru
LOG2PI = math.log(2 * math.pi)


def rshape(rng, lo=1, hi=3, mx=4):
    nd = rng.int(lo, hi)
    if rng.int(0, 11) == 0:
        nd, mx = hi + rng.int(1, 2), 2          # more axes than usual
    return tuple(rng.dim(mx) for _ in range(nd))


def frozen(f, *arrs):
    """Call f and check that no array argument changed."""
    cp = [np.array(a, copy=True) if isinstance(a, np.ndarray) else None for a in arrs]
    out = f(*arrs)
    for a, c in zip(arrs, cp):
        if c is not None:
            exact(a, c, 'argument modified')
    return out


def mdig(x, k):
    return sum(float(sp.digamma(x - 0.5 * i)) for i in range(k))


def mgln(x, k):
    return 0.25 * k * (k - 1) * math.log(math.pi) + sum(float(sp.gammaln(x - 0.5 * i)) for i in range(k))


@case('C16')
def multivariate_functions(rng):
    k = rng.dim(5); x = 0.5 * (k - 1) + rng.unif(0.1, 6.0)
    same(ef.multivariate_digamma(x, k), mdig(x, k), 'multivariate digamma', shape=False, x=x, k=k)
    same(ef.multivariate_gammaln(x, k), mgln(x, k), 'multivariate log gamma', shape=False, x=x, k=k)


@case('C16')
def uvn_entropy(rng):
    info = rng.unif(0.05, 9, *rshape(rng, 0, 3)) if rng.flag(0.8) else rng.unif(0.1, 4)
    want = np.sum(0.5 * (LOG2PI + 1 - np.log(info)))
    same(frozen(ef.univariate_normal_entropy, info), want, 'univariate normal entropy', shape=False, info=info)


@case('C16')
def mvn_entropy(rng):
    k = rng.dim(5); L = rng.posdef(k)
    want = 0.5 * (k * (1 + LOG2PI) - math.log(np.linalg.det(L)))
    same(frozen(ef.multivariate_normal_entropy, L), want, 'multivariate normal entropy', info=L)


def bad_matrix(rng, k):
    m = rng.normal(k, k)
    if np.linalg.det(m) > 0:
        m[0] = -m[0]
    if rng.flag(0.3):
        m[0] = 0.0
    return m


@case('C16')
def nonpositive_determinant(rng):
    k = rng.dim(4); m = bad_matrix(rng, k)
    raises(AssertionError, lambda: ef.multivariate_normal_entropy(m), 'mvn entropy accepts nonpositive determinant', m=m)
    raises(AssertionError, lambda: ef.wishart_entropy(k + 2.0, m), 'wishart entropy accepts nonpositive determinant', m=m)
    raises(AssertionError, lambda: ef.e_log_det_wishart(k + 2.0, m), 'E log det accepts nonpositive determinant', m=m)


@case('C16')
def gamma_ent(rng):
    s = rshape(rng, 0, 3)
    a, b = rng.unif(0.2, 6, *s), rng.unif(0.2, 6, *s)
    want = np.sum(a - np.log(b) + sp.gammaln(a) + (1 - a) * sp.digamma(a))
    same(frozen(ef.gamma_entropy, a, b), want, 'gamma entropy', shape=False, shape_=a, rate=b)


@case('C16')
def dirichlet_ent(rng):
    s = (rng.int(2, 4),) + rshape(rng, 0, 2)
    a = rng.unif(0.2, 6, *s)
    a0 = a.sum(axis=0)
    want = sp.gammaln(a).sum(axis=0) - sp.gammaln(a0) + (a0 - s[0]) * sp.digamma(a0) - ((a - 1) * sp.digamma(a)).sum(axis=0)
    same(frozen(ef.dirichlet_entropy, a), want, 'dirichlet entropy', alpha=a)


@case('C16')
def beta_ent(rng):
    t = rng.unif(0.2, 6, rng.int(1, 4), 2)
    a, b = t[:, 0], t[:, 1]
    want = np.sum(sp.gammaln(a) + sp.gammaln(b) - sp.gammaln(a + b) - (a - 1) * sp.digamma(a) - (b - 1) * sp.digamma(b) + (a + b - 2) * sp.digamma(a + b))
    same(frozen(ef.beta_entropy, t), want, 'beta entropy', tau=t)


def wish_ent(df, v):
    k = v.shape[0]; ld = math.log(np.linalg.det(v))
    return 0.5 * (k + 1) * ld + 0.5 * k * (k + 1) * math.log(2) + mgln(0.5 * df, k) - 0.5 * (df - k - 1) * mdig(0.5 * df, k) + 0.5 * df * k


@case('C16')
def wishart_ent(rng):
    k = rng.dim(4); v = rng.posdef(k); df = k - 1 + rng.unif(0.2, 8)
    same(frozen(ef.wishart_entropy, df, v), wish_ent(df, v), 'wishart entropy', df=df, v=v)


@case('C16')
def multinoulli_ent(rng):
    n, k = rng.dim(4), rng.int(2, 5)
    p = np.exp(rng.normal(n, k)); p = p / p.sum(axis=1)[:, None]
    same(frozen(ef.multinoulli_entropy, p), -np.sum(p * np.log(p), axis=1), 'multinoulli entropy', tol=1e-9, p=p)
    q = np.zeros((n, k)); q[:, rng.int(0, k - 1)] = 1.0
    same(ef.multinoulli_entropy(q), np.zeros(n), 'multinoulli entropy of a point mass', tol=1e-9)


# --- C17 -------------------------------------------------------------------

@case('C17')
def lognormal(rng):
    s = rshape(rng, 0, 3)
    m, v = rng.normal(*s), rng.unif(0.05, 2, *s)
    same(frozen(ef.get_e_lognormal, m, v), np.exp(m + v / 2), 'lognormal mean', shape=False)
    same(frozen(ef.get_var_lognormal, m, v), np.exp(2 * m + 2 * v) - np.exp(2 * m + v), 'lognormal variance', shape=False)


@case('C17')
def gamma_dirichlet(rng):
    s = rshape(rng, 0, 3)
    a, b = rng.unif(0.2, 6, *s), rng.unif(0.2, 6, *s)
    same(frozen(ef.get_e_log_gamma, a, b), sp.digamma(a) - np.log(b), 'E log gamma', shape=False)
    a = rng.unif(0.2, 6, *rshape(rng, 1, 3))
    t = a.sum(axis=0)
    same(frozen(ef.get_e_dirichlet, a), a / t, 'dirichlet mean', alpha=a)
    same(frozen(ef.get_e_log_dirichlet, a), sp.digamma(a) - sp.digamma(t), 'E log dirichlet', alpha=a)


@case('C17')
def wishart_moments(rng):
    k = rng.dim(4); v = rng.posdef(k); df = k - 1 + rng.unif(0.2, 8)
    eld = mdig(0.5 * df, k) + k * math.log(2) + math.log(np.linalg.det(v))
    same(frozen(ef.e_log_det_wishart, df, v), eld, 'E log det wishart', df=df, v=v)
    d = np.log(np.diag(np.linalg.inv(v))) - sp.digamma(0.5 * (df - k + 1)) - math.log(2)
    same(frozen(ef.e_log_inv_wishart_diag, df, v), d, 'E log diag of the inverse', df=df, v=v)
    l = rng.unif(0.3, 6)
    same(ef.expected_ljk_prior(l, df, v), (l - 1) * (-eld - d.sum()), 'LKJ prior', df=df, v=v, lkj=l)


@case('C17')
def natural_parameters(rng):
    s = rshape(rng, 0, 2)
    m, i = rng.normal(*s), rng.unif(0.1, 5, *s)
    gm, gi = ef.get_uvn_from_natural_parameters(m * i, -0.5 * i)
    same(gm, m, 'mean from natural parameters', shape=False); same(gi, i, 'information from natural parameters', shape=False)


@case('C17')
def priors(rng):
    k = rng.dim(4)
    pm, L, e, c = rng.normal(k), rng.posdef(k), rng.normal(k), rng.posdef(k)
    L = L + 0.1 * rng.flag() * rng.normal(k, k) * 0
    want = -0.5 * ((e - pm).dot(L).dot(e - pm) + np.sum(L * c))
    same(frozen(ef.mvn_prior, pm, L, e, c), want, 'mvn prior')
    s = rshape(rng, 0, 2)
    pm, pi, e, v = rng.normal(*s), rng.unif(0.1, 4, *s), rng.normal(*s), rng.unif(0.1, 4, *s)
    same(frozen(ef.uvn_prior, pm, pi, e, v), -0.5 * pi * (e ** 2 + v - 2 * pm * e + pm ** 2), 'uvn prior', shape=False)
    a, b, e, el = [rng.unif(0.1, 4, *s) for _ in range(4)]
    same(frozen(ef.gamma_prior, a, b, e, el), (a - 1) * el - b * e, 'gamma prior', shape=False)
    same(frozen(ef.exponential_prior, a, e), -a * e, 'exponential prior', shape=False)
    n = rng.dim(5)
    a, el = rng.unif(0.1, 4, n), rng.normal(n)
    same(frozen(ef.dirichlet_prior, a, el), np.sum((a - 1) * el), 'dirichlet prior', shape=False)
    raises(AssertionError, lambda: ef.dirichlet_prior(a, rng.normal(n + 1)), 'dirichlet prior with mismatched shapes')


def expit(z):
    return 1 / (1 + np.exp(-z))


@case('C17')
def quadrature(rng):
    s = rshape(rng, 0, 2, 3)
    m, i = rng.normal(*s) if s else np.array(rng.normal()), rng.unif(0.2, 5, *s) if s else np.array(rng.unif(0.2, 5))
    ng = rng.int(1, 7)
    x, w = (np.polynomial.hermite.hermgauss(ng) if rng.flag() else (rng.normal(ng), rng.unif(0.1, 1, ng)))

    def quad(f):
        out = np.zeros(np.shape(m))
        for idx in np.ndindex(*np.shape(m)):
            out[idx] = sum(w[k] * f(m[idx] + math.sqrt(2) * x[k] / math.sqrt(i[idx])) for k in range(ng)) / math.sqrt(math.pi)
        return out
    same(frozen(lambda *a: ef.get_e_fun_normal(*(a + (lambda t: np.sin(t) + t ** 2,))), m, i, x, w), quad(lambda t: math.sin(t) + t ** 2), 'E fun normal')
    same(frozen(ef.get_e_logitnormal, m, i, x, w), quad(expit), 'E logit normal')
    a, b = frozen(ef.get_e_log_logitnormal, m, i, x, w)
    ll = lambda t: -math.log1p(math.exp(-t)) if t > -50 else t
    same(a, quad(ll), 'E log v', tol=1e-7)
    same(b, quad(ll) - m, 'E log(1-v)', tol=1e-7)
    al = rng.unif(0.5, 4)
    same(ef.get_e_dp_prior_logitnorm_approx(al, m, i, x, w), (al - 1) * (quad(ll) - m), 'dp prior', tol=1e-7)
    if s:
        mm = m * 60.0
        a, b = ef.get_e_log_logitnormal(mm, i, x, w)
        m_old = m
        def quad2(f):
            out = np.zeros(s)
            for idx in np.ndindex(*s):
                out[idx] = sum(w[k] * f(mm[idx] + math.sqrt(2) * x[k] / math.sqrt(i[idx])) for k in range(ng)) / math.sqrt(math.pi)
            return out
        same(a, quad2(ll), 'E log v (large means)', tol=1e-6)
        same(b, quad2(ll) - mm, 'E log(1-v) (large means)', tol=1e-6)


@case('C17')
def modeling(rng):
    s = rshape(rng, 0, 2, 3)
    m = rng.normal(*s) if s else np.array(rng.normal())
    sd = rng.unif(0.1, 2, *s) if s else np.array(rng.unif(0.1, 2))
    y = (rng.unif(0, 1, *s) > 0.5) * 1.0 if s else np.array(1.0)
    nd = rng.int(1, 6)
    dr = rng.normal(nd)
    if rng.flag(0.3):
        m = m * rng.choice([20.0, 80.0, 150.0])
    l1p = lambda z: float(np.logaddexp(0.0, z))
    ok = lambda d: np.max(np.abs(m)) + np.max(sd) * 1.5 * np.max(np.abs(d)) < 690
    if not ok(dr):
        m = m / 10
    tot = 0.0
    for idx in np.ndindex(*np.shape(m)):
        tot += y[idx] * m[idx] - np.mean([l1p(m[idx] + sd[idx] * d) for d in dr])
    same(frozen(md.get_e_logistic_term, y, m, sd, dr), tot, 'sampled logistic term', shape=False)
    ng = rng.int(1, 6)
    x, w = rng.normal(ng), rng.unif(0.1, 1, ng)
    out = np.zeros(np.shape(m))
    for idx in np.ndindex(*np.shape(m)):
        out[idx] = sum(w[k] * l1p(m[idx] + math.sqrt(2) * x[k] * sd[idx]) for k in range(ng)) / math.sqrt(math.pi)
    same(frozen(md.get_e_logistic_term_guass_hermite, m, sd, x, w), np.sum(out), 'quadrature logistic term', shape=False)
    same(md.get_e_logistic_term_guass_hermite(m, sd, x, w, aggregate_all=False), out, 'quadrature logistic term per element')
    i = rng.unif(0.1, 5, *s); u = rng.normal(*s)
    mu = np.asarray(m)
    same(frozen(md.univariate_normal_log_prob, u, mu, i), 0.5 * np.log(i) - 0.5 * LOG2PI - 0.5 * i * (u - mu) ** 2, 'normal log density', shape=False)
    n = rng.int(1, 12)
    d = md.get_standard_draws(n)
    same(d, [math.sqrt(2) * float(sp.erfinv(2 * (k + 1) / (n + 1.0) - 1)) for k in range(n)], 'standard draws', tol=1e-7)


# --- C18 -------------------------------------------------------------------

def lnm(m, v):
    return np.exp(m + v / 2)


def lnv(m, v):
    return (np.exp(v) - 1) * np.exp(2 * m + v)


def bounds_ok(p, name, lb, free):
    """The member's lower bound, observed through its free encoding."""
    q = copy.deepcopy(p[name])
    q.set_free(free)
    same(q.get(), lb + np.exp(np.asarray(free)).reshape(np.shape(q.get())), 'lower bound of ' + name)


@case('C18')
def uvn(rng):
    mi = rng.choice([0.0, 0.0, 0.3, 1.5])
    kind = rng.choice(['scalar', 'vector', 'array'])
    if kind == 'scalar':
        p = vb.UVNParam('p', min_info=mi) if mi or rng.flag() else vb.UVNParam('p'); s = ()
        bounds_ok(p, 'info', mi, np.array([rng.normal()]))
    elif kind == 'vector':
        n = rng.dim(4); p = vb.UVNParamVector('p', length=n, min_info=mi); s = (n,)
        req(p.size() == n, 'size'); bounds_ok(p, 'info', mi, rng.normal(n))
    else:
        s = rshape(rng, 1, 3, 3); p = vb.UVNParamArray('p', shape=s, min_info=mi)
        req(tuple(p.shape()) == s, 'shape'); bounds_ok(p, 'info', mi, rng.normal(int(np.prod(s))))
    n = max(int(np.prod(s)), 1)
    req(p['mean'].vector_size() == n and p['info'].vector_size() == n, 'member sizes')
    for _ in range(rng.int(1, 3)):
        if rng.flag():
            m = rng.normal(*s); i = mi + rng.unif(0.4, 4, *s)
            p['mean'].set(m); p['info'].set(i)
        else:
            p.set_free(rng.normal(2 * n) * 0.7)
            m = np.array(p['mean'].get(), dtype=float); i = np.array(p['info'].get(), dtype=float)
        m, i = np.asarray(m, dtype=float), np.asarray(i, dtype=float)
        v = 1 / i
        for k, w in [('e', m), ('var', v), ('e_outer', m ** 2 + v), ('e_exp', lnm(m, v)), ('var_exp', lnv(m, v)), ('e2_exp', np.exp(2 * m + 2 * v))]:
            same(getattr(p, k)(), w, '%s of the %s normal' % (k, kind), shape=False, mean=m, info=i)
        same(p.entropy(), np.sum(0.5 * (LOG2PI + 1 - np.log(i))), 'entropy of the %s normal' % kind, shape=False)
        same(p['mean'].get(), m, 'moment call changed the mean', shape=False); same(p['info'].get(), i, 'moment call changed the information', shape=False)


@case('C18')
def uvn_moment(rng):
    s = rshape(rng, 1, 3, 3)
    mi = rng.choice([0.0, 0.5])
    p = vb.UVNMomentParamArray('p', shape=s, min_info=mi)
    n = int(np.prod(s))
    req(tuple(p.shape()) == s, 'shape')
    for name in ('e', 'e2'):
        req(p[name].vector_size() == n, 'member sizes')
    bounds_ok(p, 'e2', mi, rng.normal(n))
    m = rng.normal(*s); v = rng.unif(0.05, 2, *s)
    mode = rng.int(0, 2)
    if mode == 0:
        p['e'].set(m); p['e2'].set(m ** 2 + v)
    elif mode == 1:
        q = vb.UVNParamArray('q', shape=s); q['mean'].set(m.copy()); q['info'].set(1 / v)
        p.set_from_uvn_param_array(q)
    else:
        q = vb.ArrayParam('c', shape=s, val=m.copy())
        p.set_from_constant(q); v = v * 0
    same(p.e(), m, 'mean of the moment array', mode=mode)
    same(p.e_outer(), m ** 2 + v, 'second moment of the moment array', mode=mode)
    same(p.var(), v, 'variance of the moment array', mode=mode)
    same(p.e_exp(), lnm(m, v), 'e_exp of the moment array'); same(p.var_exp(), lnv(m, v), 'var_exp of the moment array')
    same(p.e2_exp(), np.exp(2 * m + 2 * v), 'e2_exp of the moment array')
    if mode < 2:
        same(p.entropy(), np.sum(0.5 * (LOG2PI + 1 + np.log(v))), 'entropy of the moment array')
    for _ in range(rng.int(0, 3)):
        if mode == 2:
            v = rng.unif(0.05, 2, *s); p['e2'].set(m ** 2 + v); mode = 0
            continue
        op = rng.int(0, 3)
        if op == 0:         # one member only
            v = rng.unif(0.05, 2, *s); p['e2'].set(m ** 2 + v)
        elif op == 1:
            v = np.asarray(p['e2'].get()) - (m * 0.5) ** 2; m = m * 0.5; p['e'].set(m)
        elif op == 2:       # in place
            v = v + 0.5; a = p['e2'].get(); a[...] = m ** 2 + v
        else:
            m, v = rng.normal(*s), rng.unif(0.05, 2, *s)
            p.set_vector(np.concatenate([x.ravel() for x in ((m, m ** 2 + v) if list(p.param_dict.keys())[0] == 'e' else (m ** 2 + v, m))]))
        same(p.e(), m, 'mean after a change', op=op)
        same(p.var(), v, 'variance after a change', op=op)
        same(p.e_exp(), lnm(m, v), 'e_exp after a change', op=op); same(p.var_exp(), lnv(m, v), 'var_exp after a change', op=op)
        same(p.e2_exp(), np.exp(2 * m + 2 * v), 'e2_exp after a change', op=op)
        same(p.entropy(), np.sum(0.5 * (LOG2PI + 1 + np.log(v))), 'entropy after a change', op=op)
    if len(s) > 1 and s[::-1] != s:
        raises(AssertionError, lambda: p.set_from_constant(vb.ArrayParam('c', shape=s[::-1])), 'mismatched shapes accepted')


@case('C18')
def mvn(rng):
    k = rng.dim(4); mi = rng.choice([0.0, 0.5])
    p = vb.MVNParam('p', dim=k, min_info=mi)
    req(p['mean'].vector_size() == k and p['info'].size() == k, 'member sizes')
    f = rng.normal(k * (k + 1) // 2) * 0.5
    q = copy.deepcopy(p['info']); q.set_free(f)
    same(q.get(), posdef_from_free(f, k, mi), 'information lower bound')
    m = np.zeros(k); p['mean'].set(m.copy())
    for _ in range(rng.int(2, 4)):
        op = rng.int(0, 3)
        if op != 0:
            L = rng.posdef(k) + mi * np.eye(k)
            if op == 2:
                a = p['info'].get(); a[...] = L
            else:
                p['info'].set(L.copy())
        else:
            L = np.array(p['info'].get(), dtype=float)
        if op in (0, 1):
            m = rng.normal(k); p['mean'].set(m.copy())
        C = np.linalg.inv(L)
        same(p.e(), m, 'mvn mean'); same(p.cov(), C, 'mvn covariance'); same(p.e_outer(), np.outer(m, m) + C, 'mvn second moment')
        o = p.e_outer()
        exact(o, o.T, 'mvn second moment is not symmetric')
        same(p.entropy(), 0.5 * (k * (1 + LOG2PI) - math.log(np.linalg.det(L))), 'mvn entropy')
        exact(p['info'].get(), L, 'moment call changed the information')


@case('C18')
def mvn_array(rng):
    s = (rng.dim(4), rng.int(1, 4)); mi = rng.choice([0.0, 0.5])
    p = vb.MVNArray('p', shape=s, min_info=mi)
    req(p['mean'].vector_size() == s[0] * s[1] and p['info'].vector_size() == s[0], 'member sizes')
    bounds_ok(p, 'info', mi, rng.normal(s[0]))
    m, i = rng.normal(*s), mi + rng.unif(0.2, 3, s[0])
    p['mean'].set(m); p['info'].set(i)
    for r in range(rng.int(1, 4)):
        same(p.e(), m, 'mean'); same(p.e2(), m ** 2 + (1 / i)[:, None], 'second moment of the row-normal array')
        op = rng.int(0, 2)
        if op == 0:
            m = rng.normal(*s); p['mean'].set(m)
        elif op == 1:
            i = mi + rng.unif(0.2, 3, s[0]); p['info'].set(i)
        else:
            a = p['info'].get(); a[...] = a * 1.5 + 0.1; i = np.array(a, dtype=float)


@case('C18')
def gamma(rng):
    ms_, mr = rng.choice([0.0, 0.5, 2.0]), rng.choice([0.0, 0.7])
    p = vb.GammaParam('p', min_shape=ms_, min_rate=mr)
    bounds_ok(p, 'shape', ms_, np.array([rng.normal()])); bounds_ok(p, 'rate', mr, np.array([rng.normal()]))
    a, b = ms_ + rng.unif(0.1, 5), mr + rng.unif(0.1, 5)
    p['shape'].set(a); p['rate'].set(b)
    for _ in range(3):
        op = rng.int(0, 2)
        if op != 1:
            a = ms_ + rng.unif(0.1, 5); p['shape'].set(a)
        if op != 0:
            b = mr + rng.unif(0.1, 5); p['rate'].set(b)
        same(p.e(), a / b, 'gamma mean', shape=False); same(p.e_log(), sp.digamma(a) - math.log(b), 'E log gamma', shape=False)
        same(p.entropy(), a - math.log(b) + sp.gammaln(a) + (1 - a) * sp.digamma(a), 'gamma entropy', shape=False)


@case('C18')
def wishart(rng):
    k = rng.dim(4); lb = rng.choice([0.0, 0.4])
    kw = {}
    mindf = k - 1
    if rng.flag():
        mindf = k - 1 + rng.choice([0.5, 2.0]); kw['min_df'] = mindf
    p = vb.WishartParam('p', size=k, diag_lb=lb, **kw)
    req(p['v'].size() == k, 'scale matrix size', want=k, got=p['v'].size())
    f = rng.normal(k * (k + 1) // 2) * 0.5
    q = copy.deepcopy(p['v']); q.set_free(f)
    same(q.get(), posdef_from_free(f, k, lb), 'scale lower bound')
    bounds_ok(p, 'df', mindf, np.array([rng.normal()]))
    v = rng.posdef(k) + lb * np.eye(k); df = max(mindf, k + 1) + rng.unif(0.3, 5)
    p['v'].set(v); p['df'].set(df)
    for _ in range(rng.int(0, 2)):
        same(p.e(), df * v, 'wishart mean')
        p.e_log_det(); p.e_inv(); p.entropy()
        op = rng.int(0, 2)
        if op == 0:
            df = max(mindf, k + 1) + rng.unif(0.3, 5); p['df'].set(df)
        else:
            v = rng.posdef(k) + lb * np.eye(k)
            if op == 1:
                p['v'].set(v.copy())
            else:
                t = p['v'].get(); t[...] = v
    same(p.e(), df * v, 'wishart mean')
    eld = mdig(0.5 * df, k) + k * math.log(2) + math.log(np.linalg.det(v))
    same(p.e_log_det(), eld, 'E log det')
    same(p.e_inv(), np.linalg.inv(v) / (df - k - 1), 'mean of the inverse', tol=1e-7)
    same(p.entropy(), wish_ent(df, v), 'wishart entropy')
    l = rng.unif(0.5, 4)
    d = np.log(np.diag(np.linalg.inv(v))) - sp.digamma(0.5 * (df - k + 1)) - math.log(2)
    same(p.e_log_lkj_inv_prior(l), (l - 1) * (-eld - d.sum()), 'LKJ prior of the inverse')
    raises(AssertionError, lambda: vb.WishartParam('q', size=k + 1, min_df=k - 0.5), 'too small min_df accepted')


@case('C18')
def dirichlet(rng):
    s = (rng.int(2, 4),) + rshape(rng, 1, 2, 3)
    ma = rng.choice([0.0, 0.3])
    kw = {}
    if rng.flag():
        kw['val'] = ma + rng.unif(0.1, 4, *s)
    p = vb.DirichletParamArray('p', shape=s, min_alpha=ma, **kw)
    if kw:
        same(p['alpha'].get(), kw['val'], 'constructor value')
    bounds_ok(p, 'alpha', ma, rng.normal(int(np.prod(s))))
    a = ma + rng.unif(0.1, 4, *s)
    p['alpha'].set(a)
    if rng.flag():
        p.e(); p.e_log(); p.entropy()
        a = ma + rng.unif(0.1, 4, *s)
        if rng.flag():
            t = p['alpha'].get(); t[...] = a
        else:
            p['alpha'].set(a)
    t = a.sum(axis=0)
    same(p.e(), a / t, 'dirichlet mean'); same(p.e_log(), sp.digamma(a) - sp.digamma(t), 'E log dirichlet')
    want = sp.gammaln(a).sum(axis=0) - sp.gammaln(t) + (t - s[0]) * sp.digamma(t) - ((a - 1) * sp.digamma(a)).sum(axis=0)
    same(p.entropy(), want, 'dirichlet entropy')
    raises(AssertionError, lambda: vb.DirichletParamArray('q', shape=s, min_alpha=-0.1), 'negative minimum accepted')


# --- C19 -------------------------------------------------------------------

@case('C19')
def batched_products(rng):
    b = rshape(rng, 0, 2, 3)
    n, r, t = rng.dim(4), rng.int(1, 3), rng.int(1, 3)
    x1, x2 = rng.normal(*(b + (n, r))), rng.normal(*(b + (n, t)))
    want = np.zeros(b + (r, t))
    for idx in np.ndindex(*b):
        want[idx] = x1[idx].T.dot(x2[idx])
    same(frozen(ru.mat_mul_last2dims, x1, x2), want, 'matrix products over the last two dimensions')
    e = rshape(rng, 0, 2, 3)
    y = rng.normal(*(b + e + (n,)))
    want = np.zeros(b + (r,))
    for idx in np.ndindex(*b):
        for jdx in np.ndindex(*e):
            want[idx] += x1[idx].T.dot(y[idx + jdx])
    same(frozen(ru.matvec_mul_last2dims, x1, y), want, 'matrix vector products', b=b, e=e)


def reg_setup(rng):
    b = rshape(rng, 0, 2, 3); e = rshape(rng, 0, 2, 3)
    r = rng.dim(3); n = r + rng.int(1, 3)
    x = rng.normal(*(b + (n, r))); y = rng.normal(*(b + e + (n,)))
    if rng.flag():
        info = rng.unif(0.3, 3); L = lambda idx: info * np.eye(n)
    else:
        info = np.zeros(b + (n, n))
        for idx in np.ndindex(*b):
            info[idx] = rng.posdef(n)
        L = lambda idx: info[idx]
    n1, n2 = np.zeros(b + (r,)), np.zeros(b + (r, r))
    for idx in np.ndindex(*b):
        for jdx in np.ndindex(*e):
            n1[idx] += x[idx].T.dot(L(idx)).dot(y[idx + jdx])
            n2[idx] += -0.5 * x[idx].T.dot(L(idx)).dot(x[idx])
    pm = rng.normal(*(b + (r,))); pi = np.zeros(b + (r, r))
    for idx in np.ndindex(*b):
        pi[idx] = rng.posdef(r)
    return b, e, x, y, info, n1, n2, pm, pi


@case('C19', 3)
def regression(rng):
    b, e, x, y, info, n1, n2, pm, pi = reg_setup(rng)
    a1, a2 = frozen(ru.get_nat_params_from_likelihood, y, x, info)
    same(a1, n1, 'first natural parameter', tol=1e-8, b=b, e=e); same(a2, n2, 'second natural parameter', tol=1e-8, b=b, e=e)
    p1, p2 = frozen(ru.get_nat_params_from_prior, pm, pi)
    w1 = np.zeros(b + (x.shape[-1],)); w2 = -0.5 * pi
    for idx in np.ndindex(*b):
        w1[idx] = pi[idx].dot(pm[idx])
    same(p1, w1, 'first prior natural parameter', b=b); same(p2, w2, 'second prior natural parameter', b=b)

    def mvn(a, c):
        m = np.zeros(a.shape)
        for idx in np.ndindex(*b):
            m[idx] = np.linalg.solve(-2 * c[idx], a[idx])
        return m
    m, i = frozen(ru.get_mvn_from_nat_params, w1, w2)
    same(m, pm, 'mean from natural parameters', tol=1e-7); same(i, pi, 'information from natural parameters')
    same(frozen(ru.get_regression_coefficients, y, x, info), mvn(n1, n2), 'regression coefficients', tol=1e-6, b=b, e=e)
    m, i = frozen(ru.get_posterior_regression_coefficients, y, x, info, pm, pi)
    same(m, mvn(n1 + w1, n2 + w2), 'posterior mean', tol=1e-6, b=b, e=e); same(i, -2 * (n2 + w2), 'posterior information', tol=1e-8, b=b, e=e)
