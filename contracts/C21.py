"""C21: conjugate-gradient masks partition the vector and every solve is
recorded."""
from .abstract import *


def masks(vc):
    CG = vc.mod('ConjugateGradient')
    L = vc.dim('L', 2)
    b = vc.dim('b')
    vc.assume(b < L)
    ms = CG.get_masks(L, b)
    n = S.to_poly(vc.len(ms))
    a = S.asarr(ms)
    vc.true('one row per mask', len(a.shp) == 2)
    vc.true('masks as long as the vector', SV(a.shp[1]) == L)
    Lp, bp = S.dim_poly(L), S.dim_poly(b)
    # lemma: the masks are the blocks of length b
    blocks = SArr((n, Lp), lambda k, i: T.mk_ind('eq', T.mk_idiv(i, bp) - k))
    ok, det, be = vc._eq(a, blocks)
    if ok:
        vc.rec('masks are consecutive blocks', True, None, be)
        a = blocks
    vc.eq('every position in exactly one mask', S.np_sum(a, axis=0),
          vc.from_fn((L,), lambda i: ONE))
    blocks = SArr((n, Lp), lambda k, i: T.mk_ind('ge', i - bp * k) *
                  T.mk_ind('ge', bp * k + bp - ONE - i))
    ok, det, be = vc._eq(a, blocks)
    if ok:
        vc.rec('masks are consecutive blocks', True, None, be)
        a = blocks
    # an arbitrary mask: either it ends inside the vector or at its end
    k = vc.index('k', n)
    if SV(bp) * (k + 1) <= L:
        pass
    cnt = S.np_sum(S.asarr(a[k]))
    vc.rel('at most the block length per mask', 'ge', b - cnt)
    vc.rel('no empty mask', 'ge', cnt - 1)


def boolvec(vc, name, L):
    """an arbitrary boolean vector"""
    h = 'A:' + name
    return SArr((S.dim_poly(L),), lambda i: T.mk_ind('gt', T.app(h, i)),
                'bool')


def split(vc):
    CG = vc.mod('ConjugateGradient')
    L = vc.dim('L')
    v = boolvec(vc, 'w', L)
    v0 = v.snap()
    num = S.np_sum(v)
    v1, v2 = CG.split_vector(v)
    vc.eq('argument unchanged', v, SArr(v.shp, lambda i: v0([i]), 'bool'))
    v1, v2 = S.asarr(v1), S.asarr(v2)
    vc.true('as long as the argument', len(v1.shp) == 1 and
            len(v2.shp) == 1 and SV(v1.shp[0]) == L and SV(v2.shp[0]) == L)
    n1, n2 = S.np_sum(v1), S.np_sum(v2)
    vc.eq('every true position counted once', n1 + n2, num)
    vc.rel('sizes differ by at most one', 'ge', n1 - n2 + 1)
    vc.rel('sizes differ by at most one', 'ge', n2 - n1 + 1)
    i = vc.index('i', L)
    vc.rank_lemma(v, i)
    j = S.to_poly(i)
    a, b, m = v1.at([j]), v2.at([j]), v0([j])
    vc.zero('disjoint', a * b)
    vc.zero('union is the argument', a + b - m)
    vc.zero('boolean', a * (a - ONE))


class Group(object):
    """what a recursive call appends: pieces that together equal its mask"""

    def __init__(self, mask, tl):
        self.mask, self.tl = mask, tl


def split_contract(vc):
    """callers of split_vector see: two disjoint boolean vectors whose union
    is the argument, sizes differing by at most one (discharged by the
    scenario split)"""
    h = 'A:side'

    def stub(vec):
        g = S.asarr(vec).snap()
        n = S.asarr(vec).shp[0]
        w = lambda i: T.mk_ind('gt', T.app(h, i))
        a = SArr((n,), lambda i: g([i]) * w(i), 'bool')
        b = SArr((n,), lambda i: g([i]) * (ONE - w(i)), 'bool')
        na, nb = S.to_poly(S.np_sum(a)), S.to_poly(S.np_sum(b))
        c = CTX()
        c.add_fact('ge', na - nb + ONE)
        c.add_fact('ge', nb - na + ONE)
        c.add_fact('eq', na + nb - S.to_poly(S.np_sum(vec)))
        return a.copy(), b.copy()
    vc.contract('ConjugateGradient', 'split_vector', stub,
                'disjoint halves of the argument')


def recursion(vc, how):
    CG = vc.mod('ConjugateGradient')
    L = vc.dim('L')
    tl = vc.dim('terminate_len') if how != 'default' else 10
    v = boolvec(vc, 'w', L)
    v0 = v.snap()
    num = S.np_sum(v)
    f = CG.recursive_split
    split_contract(vc)
    seen = []

    def inner(mask, results=None, terminate_len=10):
        m = S.asarr(mask)
        seen.append(Group(m.copy(), terminate_len))
        results.append(seen[-1])
    vc.contract('ConjugateGradient', 'recursive_split', inner,
                'appends pieces that are disjoint, together equal the mask '
                'and have at most terminate_len true values each')
    first = object()
    res = [first]
    if how == 'default':
        f(v, results=res)
    elif how == 'positional':
        f(v, res, tl)
    else:
        f(v, terminate_len=tl, results=res)
    vc.eq('argument unchanged', v, SArr(v.shp, lambda i: v0([i]), 'bool'))
    vc.true('earlier results kept', len(res) >= 1 and res[0] is first)
    tot = None
    for r in res[1:]:
        if isinstance(r, Group):
            # induction: the recursive call is on a smaller vector
            vc.rel('terminates: fewer true values', 'ge',
                   num - S.np_sum(r.mask) - 1)
            vc.true('same limit', SV(S.to_poly(r.tl)) == tl)
            r = r.mask
        else:
            r = S.asarr(r)
            vc.rel('pieces have at most the requested size', 'ge',
                   tl - S.np_sum(r))
        vc.true('pieces as long as the argument', len(r.shp) == 1 and
                SV(r.shp[0]) == L)
        tot = r * 1 if tot is None else tot + r
    vc.true('something was appended', tot is not None)
    if tot is not None:
        # values 0 and 1: a sum equal to the mask is a disjoint union
        vc.eq('disjoint and together the argument', tot, v * 1)


def solver(vc, how):
    CG = vc.mod('ConjugateGradient')
    d = vc.dim('d')
    x0 = vc.arr('x0', d)
    start = vc.arr('start', d)
    base = x0.copy()
    vec = vc.arr('vec', d)
    vec0 = vec.copy()
    m1 = vc.dim('m1', 0)
    dp = S.dim_poly(d)
    calls = []

    def hvp(x, v):
        calls.append('hvp')
        return ufun('F:hvp', x, v, out=(d,))

    s = CG.ConjugateGradientSolver(hvp, x0)
    tol, M = s.tol, None
    if how in ('installed', 'array'):
        tol, M = vc.real('tol'), vc.arr('M', d, d)
        s.tol, s.preconditioner = tol, M
    probe = vc.arr('probe', d)

    def cg(A, b, x0=None, tol=1e-5, maxiter=None, M=None, **kw):
        vc.eq('operator is the Hessian at the base point',
              A.matvec(probe), ufun('F:hvp', base, probe, out=(d,)))
        vc.true('no iteration limit', maxiter is None and not kw)
        args = [b, S.asarr(tol)]
        tag = ''
        for a in (x0, M):
            tag += '0' if a is None else '1'
            if a is not None:
                args.append(a)
        return ufun('F:cg' + tag, *args, out=(d,)), \
            ufun('I:info' + tag, *args)
    vc.eng.externals['cg'] = cg

    def sol(b, x0=None):
        args = [b, S.asarr(tol)]
        tag = ''
        for a in (x0, M):
            tag += '0' if a is None else '1'
            if a is not None:
                args.append(a)
        return ufun('F:cg' + tag, *args, out=(d,)), \
            ufun('I:info' + tag, *args)

    if how == 'single':
        for st in (None, start):
            h, i = s.get_hinv_vec(vec, x0=st) if st is not None else \
                s.get_hinv_vec(vec)
            h2, i2 = sol(vec, st)
            vc.eq('solution', h, h2)
            vc.zero('status', S.to_poly(i) - S.to_poly(i2))
        return

    def mk(name, n):
        h = 'A:' + name
        at = lambda k: SArr((dp,), lambda i: T.mk_ind('gt', T.app(h, k, i)),
                            'bool')
        if how == 'array':
            return SArr((S.dim_poly(n), dp), lambda k, i: T.mk_ind(
                'gt', T.app(h, k, i)), 'bool'), at
        k = T.fresh('m')
        return VList([S.For(k, S.dim_poly(n), [at(k)])]), at
    m2 = vc.dim('m2', 0)
    ms1, at1 = mk('mask1', m1)
    ms2, at2 = mk('mask2', m2)
    s.get_hinv_vec_subsets(vec, ms1)
    s.get_hinv_vec_subsets(vec, ms2, verbose=False)
    for name in ('vecs', 'masks', 'hinv_vecs', 'cg_infos', 'times'):
        vc.true('one entry per mask', vc.len(getattr(s, name)) == m1 + m2)
    vc.eq('right-hand side unchanged', vec, vec0)
    for at, n, off in ((at1, m1, 0), (at2, m2, m1)):
        if not (n > 0):
            continue
        k = vc.index('k', n)
        m = at(S.to_poly(k))
        mv = vec * m
        kk = k + off
        vc.eq('mask recorded in order', S.asarr(s.masks[kk]) * 1, m * 1)
        vc.eq('masked vector recorded in order', s.vecs[kk], mv)
        h, i = sol(mv)
        vc.eq('solution recorded in order', s.hinv_vecs[kk], h)
        vc.zero('status recorded in order',
                S.to_poly(s.cg_infos[kk]) - S.to_poly(i))
    s.initialize()
    for name in ('vecs', 'masks', 'hinv_vecs', 'cg_infos', 'times'):
        vc.true('initialize clears the records', vc.len(getattr(s, name)) == 0)


SCENARIOS = [('masks', masks), ('split', split)] + \
    each(('keyword', 'positional', 'default'), recursion) + \
    each(('single', 'defaults', 'installed', 'array'), solver)
BOUNDS = ''
