"""C18: distribution parameter objects report the moments of the distribution
with the values they currently hold."""
from .C17 import *
from .abstract import unpack_contract, unpack_meets_contract

HIST = ('value', 'free', 'vector')


def rounds(how):
    """two settings of all members; by value also of one member at a time and
    changes of the held arrays in place"""
    return ('1', '2') if how != 'value' else (
        '1', 'first', '2', 'last', 'inplace')


def put(vc, p, names, how, t):
    """give the members arbitrary admissible values; nothing is returned, the
    specification reads the members back"""
    if how == 'value':
        if t == 'first':
            names = names[:1]
        elif t == 'last':
            names = names[-1:]
        for nm, mk in names:
            v = mk(nm + t)
            held_ = p[nm].get()
            if t == 'inplace' and getattr(held_, 'ndim', 0):
                held_[:] = v
            else:
                p[nm].set(v)
    elif how == 'free':
        p.set_free(vc.arr('free' + t, p.free_size()))
    else:
        # any vector encoding of an admissible value
        for nm, mk in names:
            p[nm].set(mk(nm + t))
        p.set_vector(p.get_vector())


def minimum(vc, mi, name='min_info'):
    """the minimum bound: the default (not passed), or any number >= 0"""
    if mi == 'default':
        return {}, ZERO
    b = vc.real(name + '_bound')
    vc.assume(b >= 0)
    return {name: b}, b.p


def above(vc, lb, s):
    """maker of arbitrary arrays above the bound"""
    def mk(name):
        d = parr(vc, name + '_excess', *s)
        return SV(lb) + d
    return mk


def anyarr(vc, s):
    return lambda name: vc.arr(name, *s) if s else vc.real(name)


def held(p, name, s):
    a = S.asarr(p[name].get())
    g = (a if s else a.reshape(())).snap()
    return SArr(tuple(S.dim_poly(d) for d in s), lambda *ix: g(list(ix)))


def member(vc, p, name, s, lb):
    """declared shape and lower bound, observed through the free encoding"""
    q = p[name]
    n = 1
    for d in s:
        n = n * d
    vc.true(name + ': size', q.vector_size() == n)
    vc.true(name + ': free size', q.free_size() == n)
    f = vc.arr('f_' + name, n)
    q.set_free(f)
    got = S.asarr(q.get())
    if s:
        vc.true(name + ': rank', len(got.shp) == len(s))
    else:
        got = got.reshape(())
    want = lambda p_: p_ if lb is None else lb + exp(p_)
    entries(vc, name + ': lower bound', got, s, want, f.reshape(s))


def same_member(vc, name, q, ref, n):
    """the member behaves like the given posdef parameter (C02)"""
    vc.true(name + ': free size', q.free_size() == n)
    f = vc.arr('f_' + name, n)
    q.set_free(f)
    ref.set_free(f)
    vc.eq(name + ': lower bound', q.get(), ref.get())


def order(vc, p, names):
    vc.true('members', list(p.param_dict.keys()) == list(names))


def lnm(m, v):
    return exp(m + v.scale(H))


def lnv(m, v):
    return exp((m + v).scale(2)) - exp(m.scale(2) + v)


def ln2(m, v):
    return exp((m + v).scale(2))


def norm_ent(v):
    return (LOG2() + LOGPI() + ONE + log(v)).scale(H)


def check(vc, s, name, r, f, *arrs):
    r = S.asarr(r)
    if not s:
        r = r.reshape(())
    entries(vc, name, r, s, f, *[a if s else a.reshape(()) for a in arrs])


def one(vc, name, r, want):
    r = S.asarr(r)
    if len(r.shp) == 1:
        vc.true(name + ': one entry', r.shp[0] == ONE)
        vc.zero(name, r.at([ZERO]) - want)
    else:
        scalar(vc, name, r, want)


def uvn(vc, kind, mi, how):
    M = vc.mod('NormalParams')
    kw, lb = minimum(vc, mi)
    if kind == 'scalar':
        s = ()
        p = M.UVNParam('p', **kw)
    elif kind == 'vector':
        s = shape(vc, 1)
        p = M.UVNParamVector('p', length=s[0], **kw)
        vc.true('size', p.size() == s[0])
    else:
        s = shape(vc, kind)
        p = M.UVNParamArray('p', shape=s, **kw)
        vc.true('shape', p.shape() == s)
    names = [('mean', anyarr(vc, s)), ('info', above(vc, lb, s))]
    order(vc, p, ['mean', 'info'])
    for t in rounds(how):
        put(vc, p, names, how, t)
        m, i = held(p, 'mean', s), held(p, 'info', s)
        inv = lambda x: S.p_div(ONE, x)
        check(vc, s, 'mean', p.e(), lambda a, b: a, m, i)
        check(vc, s, 'variance', p.var(), lambda a, b: inv(b), m, i)
        check(vc, s, 'second moment', p.e_outer(),
              lambda a, b: a * a + inv(b), m, i)
        check(vc, s, 'E exp', p.e_exp(), lambda a, b: lnm(a, inv(b)), m, i)
        check(vc, s, 'Var exp', p.var_exp(),
              lambda a, b: lnv(a, inv(b)), m, i)
        check(vc, s, 'E exp^2', p.e2_exp(), lambda a, b: ln2(a, inv(b)), m, i)
        one(vc, 'entropy', p.entropy(),
            S.sum_over(list(i.shp), lambda ix: norm_ent(inv(i.at(ix)))))
        check(vc, s, 'mean kept', p['mean'].get(), lambda a: a, m)
        check(vc, s, 'information kept', p['info'].get(), lambda a: a, i)
    member(vc, p, 'mean', s, None)
    member(vc, p, 'info', s, lb)


def moment_report(vc, p, s, m, v, how):
    entries(vc, 'mean', p.e(), s, lambda a, b: a, m, v)
    entries(vc, 'second moment', p.e_outer(), s, lambda a, b: a * a + b, m, v)
    entries(vc, 'variance', p.var(), s, lambda a, b: b, m, v)
    entries(vc, 'E exp', p.e_exp(), s, lnm, m, v)
    entries(vc, 'Var exp', p.var_exp(), s, lnv, m, v)
    entries(vc, 'E exp^2', p.e2_exp(), s, ln2, m, v)
    if how != 'constant':
        scalar(vc, 'entropy', p.entropy(), total(norm_ent, v))
    entries(vc, 'mean kept', p['e'].get(), s, lambda a, b: a, m, v)
    entries(vc, 'second moment kept', p['e2'].get(), s,
            lambda a, b: a * a + b, m, v)


def uvn_moment(vc, rank, mi, how):
    M = vc.mod('NormalParams')
    P = vc.mod('Parameters')
    s = shape(vc, rank)
    kw, lb = minimum(vc, mi)
    p = M.UVNMomentParamArray('p', shape=s, **kw)
    vc.true('shape', p.shape() == s)
    order(vc, p, ['e', 'e2'])
    m, v = vc.arr('m', *s), parr(vc, 'v', *s)
    sq = lambda a: a * a
    if how == 'set':
        # second moment above its bound
        vc.assume(SForall(m.shp, lambda ix: (
            SV(m.at(ix)) * SV(m.at(ix)) + SV(v.at(ix)) > SV(lb)).p))
        p['e'].set(m)
        p['e2'].set(m * m + v)
    elif how == 'normal':
        # the converted second moment must be admissible
        vc.assume(SForall(m.shp, lambda ix: (
            SV(m.at(ix)) * SV(m.at(ix)) + SV(v.at(ix)) > SV(lb)).p))
        q = M.UVNParamArray('q', shape=s)
        i = vc.from_fn(s, lambda *ix: S.p_div(ONE, v.at(list(ix))))
        q['mean'].set(m)
        q['info'].set(i)
        p.set_from_uvn_param_array(q)
        vc.eq('source mean kept', q['mean'].get(), m)
        vc.eq('source information kept', q['info'].get(), i)
    else:
        vc.assume(SForall(m.shp, lambda ix: (
            SV(m.at(ix)) * SV(m.at(ix)) > SV(lb)).p))
        q = P.ArrayParam('q', shape=s, val=m)
        p.set_from_constant(q)
        vc.eq('source kept', q.get(), m)
        v = vc.from_fn(s, lambda *ix: ZERO)
    moment_report(vc, p, s, m, v, how)
    # whatever the values were set from, the moments are those held now
    for r in ('last', 'first', 'both', 'inplace'):
        m1 = p['e'].get()
        if r != 'last':
            m1 = vc.arr('m' + r, *s)
        v1 = parr(vc, 'v' + r, *s)
        e2 = m1 * m1 + v1
        vc.assume(SForall(m1.shp, lambda ix: (
            SV(e2.at(ix)) > SV(lb)).p))
        if r == 'first':
            # keep the second moment; any mean below its root
            e2 = p['e2'].get()
            v1 = e2 - m1 * m1
            vc.assume(SForall(m1.shp, lambda ix: (SV(v1.at(ix)) > 0).p))
        v1 = v1.copy()
        if r == 'inplace':
            p['e'].get()[:] = m1
            p['e2'].get()[:] = e2
        else:
            if r != 'last':
                p['e'].set(m1)
            if r != 'first':
                p['e2'].set(e2)
        moment_report(vc, p, s, m1, v1, r)
    member(vc, p, 'e', s, None)
    member(vc, p, 'e2', s, lb)


def uvn_moment_shapes(vc, what):
    M = vc.mod('NormalParams')
    P = vc.mod('Parameters')
    s = shape(vc, 2)
    t = (vc.dim('k0'), vc.dim('k1'))
    vc.assume(SBool(ONE - T.mk_ind('eq', S.dim_poly(s[0]) - S.dim_poly(t[0])) *
                    T.mk_ind('eq', S.dim_poly(s[1]) - S.dim_poly(t[1]))))
    p = M.UVNMomentParamArray('p', shape=s)
    f = vc.arr('f', p.free_size())
    p.set_free(f)
    old = held(p, 'e', s), held(p, 'e2', s)
    if what == 'normal':
        q = M.UVNParamArray('q', shape=t)
        vc.raises('mismatched shapes', AssertionError,
                  lambda: p.set_from_uvn_param_array(q))
    else:
        q = P.ArrayParam('q', shape=t)
        vc.raises('mismatched shapes', AssertionError,
                  lambda: p.set_from_constant(q))
    for nm, o in zip(('e', 'e2'), old):
        entries(vc, nm + ' kept', p[nm].get(), s, lambda a: a, o)


def mvn(vc, mi, how):
    M = vc.mod('NormalParams')
    X = vc.mod('MatrixParameters')
    k = vc.dim('k')
    kw, lb = minimum(vc, mi)
    unpack_contract(vc)
    p = M.MVNParam('p', dim=k, **kw)
    order(vc, p, ['mean', 'info'])
    names = [('mean', anyarr(vc, (k,))),
             ('info', lambda nm: vc.sym_matrix(nm, k))]
    for t in rounds(how):
        put(vc, p, names, how, t)
        m, i = p['mean'].get(), p['info'].get()
        m0, i0 = vc.snap(m), vc.snap(i)
        c = N.np_inv(i0)
        vc.eq('mean', p.e(), m0)
        vc.eq('covariance', p.cov(), c)
        o = p.e_outer()
        vc.eq('second moment', o, vc.from_fn((k, k), lambda a, b: m0.at(
            [a]) * m0.at([b]) + c.at([a, b])))
        vc.eq('second moment is symmetric', o, S.transpose(o, [1, 0]))
        sign, ld = N.slogdet(i0)
        vc.assume(sign > 0)
        n = S.dim_poly(k)
        scalar(vc, 'entropy', p.entropy(), (n * (
            ONE + LOG2() + LOGPI()) - ld.p).scale(H))
        vc.eq('mean kept', p['mean'].get(), m0)
        vc.eq('information kept', p['info'].get(), i0)
    member(vc, p, 'mean', (k,), None)
    ref = X.PosDefMatrixParam('ref', k, diag_lb=kw.get('min_info', 0.0))
    same_member(vc, 'info', p['info'], ref, (k * k + k) // 2)


def mvn_array(vc, mi, how):
    M = vc.mod('NormalParams')
    s = shape(vc, 2)
    kw, lb = minimum(vc, mi)
    p = M.MVNArray('p', shape=s, **kw)
    order(vc, p, ['mean', 'info'])
    names = [('mean', anyarr(vc, s)), ('info', above(vc, lb, s[:1]))]
    for t in rounds(how):
        put(vc, p, names, how, t)
        m, i = vc.snap(p['mean'].get()), vc.snap(p['info'].get())
        vc.eq('mean', p.e(), m)
        vc.eq('second moment', p.e2(), vc.from_fn(s, lambda a, b: m.at(
            [a, b]) * m.at([a, b]) + S.p_div(ONE, i.at([a]))))
        vc.eq('mean kept', p['mean'].get(), m)
        vc.eq('information kept', p['info'].get(), i)
    member(vc, p, 'mean', s, None)
    member(vc, p, 'info', s[:1], lb)


def gamma(vc, mi, how):
    G = vc.mod('GammaParams')
    kw1, lb1 = minimum(vc, mi, 'min_shape')
    kw2, lb2 = minimum(vc, mi, 'min_rate')
    p = G.GammaParam('p', **dict(kw1, **kw2))
    order(vc, p, ['shape', 'rate'])
    names = [('shape', above(vc, lb1, ())), ('rate', above(vc, lb2, ()))]
    for t in rounds(how):
        put(vc, p, names, how, t)
        a = S.asarr(p['shape'].get()).reshape(()).at([])
        b = S.asarr(p['rate'].get()).reshape(()).at([])
        one(vc, 'mean', p.e(), S.p_div(a, b))
        one(vc, 'E log', p.e_log(), dg(a) - log(b))
        one(vc, 'entropy', p.entropy(),
            a - log(b) + lg(a) + (ONE - a) * dg(a))
        one(vc, 'shape kept', p['shape'].get(), a)
        one(vc, 'rate kept', p['rate'].get(), b)
    member(vc, p, 'shape', (), lb1)
    member(vc, p, 'rate', (), lb2)


def wishart(vc, dfk, mi, how):
    W = vc.mod('WishartParams')
    X = vc.mod('MatrixParameters')
    n = vc.dim('n')
    k = S.dim_poly(n)
    kw, lb = minimum(vc, mi, 'diag_lb')
    lbdf = k - ONE
    if dfk != 'default':
        md = vc.real('min_df')
        # zero stands for the default
        vc.assume(md > 0)
        vc.assume(md >= SV(k) - 1)
        kw['min_df'] = md
        lbdf = md.p
    unpack_contract(vc)
    p = W.WishartParam('p', size=n, **kw)
    order(vc, p, ['df', 'v'])
    names = [('df', above(vc, lbdf, ())),
             ('v', lambda nm: vc.sym_matrix(nm, n))]
    lkj = vc.real('lkj')
    for t in rounds(how):
        put(vc, p, names, how, t)
        df = S.asarr(p['df'].get()).reshape(()).at([])
        v = vc.snap(p['v'].get())
        sign, ld = N.slogdet(v)
        vc.assume(sign > 0)
        vi = N.np_inv(v)
        # the diagonal of the inverse of a positive definite matrix
        vc.assume(SForall(vi.shp[:1], lambda ix: (
            SV(vi.at([ix[0], ix[0]])) > 0).p))
        vc.eq('mean', p.e(), vc.from_fn((n, n), lambda a, b: df * v.at(
            [a, b])))
        eld = mv_digamma(df.scale(H), k) + k * LOG2() + ld.p
        one(vc, 'E log det', p.e_log_det(), eld)
        vc.assume(SV(df) > SV(k) + 1)
        vc.eq('mean of the inverse', p.e_inv(), vc.from_fn(
            (n, n), lambda a, b: S.p_div(vi.at([a, b]), df - k - ONE)))
        x = df.scale(H)
        one(vc, 'entropy', p.entropy(),
            ((k + ONE) * ld.p).scale(H) +
            (k * (k + ONE) * LOG2()).scale(H) + mv_gammaln(x, k) -
            ((df - k - ONE) * mv_digamma(x, k)).scale(H) + (df * k).scale(H))
        dinv = lambda i: log(vi.at([i, i])) - \
            dg((df - k + ONE).scale(H)) - LOG2()
        one(vc, 'E log LKJ prior of the inverse', p.e_log_lkj_inv_prior(lkj),
            (lkj.p - ONE) * (-eld - S.sum_over([k], lambda i: dinv(i[0]))))
        one(vc, 'df kept', p['df'].get(), df)
        vc.eq('v kept', p['v'].get(), v)
    member(vc, p, 'df', (), lbdf)
    ref = X.PosDefMatrixParam('ref', n, diag_lb=kw.get('diag_lb', 0.0))
    same_member(vc, 'v', p['v'], ref, (n * n + n) // 2)


def wishart_small(vc):
    W = vc.mod('WishartParams')
    n = vc.dim('n')
    md = vc.real('min_df')
    vc.assume(md > 0)
    vc.assume(md < SV(S.dim_poly(n)) - 1)
    vc.raises('too few degrees of freedom', AssertionError,
              lambda: W.WishartParam('p', size=n, min_df=md))


def dirichlet(vc, rank, mi, how):
    D = vc.mod('DirichletParams')
    s = (vc.dim('K', 2),) + shape(vc, rank - 1)
    kw, lb = minimum(vc, mi, 'min_alpha')
    mk = above(vc, lb, s)
    if how == 'val':
        v = mk('val')
        p = D.DirichletParamArray('p', shape=s, val=v, **kw)
        vc.eq('constructor value', p['alpha'].get(), v)
    else:
        p = D.DirichletParamArray('p', shape=s, **kw)
    order(vc, p, ['alpha'])
    K = S.dim_poly(s[0])
    for t in rounds(how):
        if how != 'val':
            put(vc, p, [('alpha', mk)], how, t)
        a = vc.snap(p['alpha'].get())
        tot = lambda ix: S.sum_over(
            [K], lambda k: a.at([k[0]] + list(ix[1:])))
        vc.eq('mean', p.e(), vc.from_fn(s, lambda *ix: S.p_div(
            a.at(list(ix)), tot(ix))))
        vc.eq('E log', p.e_log(), vc.from_fn(
            s, lambda *ix: dg(a.at(list(ix))) - dg(tot(ix))))

        def want(*ix):
            at = lambda k: a.at([k[0]] + list(ix))
            a0 = S.sum_over([K], at)
            return S.sum_over([K], lambda k: lg(at(k))) - lg(a0) + \
                (a0 - K) * dg(a0) - S.sum_over(
                    [K], lambda k: (at(k) - ONE) * dg(at(k)))
        if rank == 1:
            one(vc, 'entropy', p.entropy(), want())
        else:
            vc.eq('entropies', p.entropy(), vc.from_fn(s[1:], want))
        vc.eq('alpha kept', p['alpha'].get(), a)
    member(vc, p, 'alpha', s, lb)


def dirichlet_negative(vc):
    D = vc.mod('DirichletParams')
    s = (vc.dim('K', 2), vc.dim('n'))
    b = vc.real('min_alpha')
    vc.assume(b < 0)
    vc.raises('negative bound', AssertionError,
              lambda: D.DirichletParamArray('p', shape=s, min_alpha=b))


MI = ('default', 'given')
SCENARIOS = \
    each([(k, m, h) for k in ('scalar', 'vector', 1, 2, 3) for m in MI
          for h in HIST], uvn) + \
    each([(k, m, h) for k in (1, 2, 3) for m in MI
          for h in ('set', 'normal', 'constant')], uvn_moment) + \
    each(('normal', 'constant'), uvn_moment_shapes) + \
    each([(m, h) for m in MI for h in HIST], mvn) + \
    each([(m, h) for m in MI for h in HIST], mvn_array) + \
    each([(m, h) for m in MI for h in HIST], gamma) + \
    each([(d, m, h) for d in MI for m in MI for h in HIST], wishart) + \
    [('wishart_small', wishart_small)] + \
    each([(r, m, h) for r in (1, 2, 3) for m in MI
          for h in HIST + ('val',)], dirichlet) + \
    [('dirichlet_negative', dirichlet_negative)] + \
    each(('keyword', 'positional'), unpack_meets_contract)
BOUNDS = ''
