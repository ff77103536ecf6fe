"""C22: spectral preconditioners are inverse square roots of the thresholded
Hessian."""
from .C10 import *

CLAMPS = ('none', 'min', 'max', 'both')


def clamp_args(vc, kind):
    kw = {}
    if kind in ('min', 'both'):
        kw['ev_min'] = vc.real('ev_min')
    if kind in ('max', 'both'):
        kw['ev_max'] = vc.real('ev_max')
    if kind == 'both':
        vc.assume(kw['ev_min'] <= kw['ev_max'])
    return kw


def spectrum(vc, H, kw):
    """eigenvectors of the symmetric part and the clamped eigenvalues
    (assumed positive)"""
    n = H.shp[0]
    sym = vc.from_fn((n, n), lambda i, j: (
        H.at([i, j]) + H.at([j, i])).scale(T.Fr(1, 2)))
    w, V = N.eigh(sym)
    lo, hi = kw.get('ev_min'), kw.get('ev_max')

    def clamped(k):
        p = w.at([k])
        if lo is not None:
            p = S.p_max(p, lo.p)
        if hi is not None:
            p = S.p_min(p, hi.p)
        return p
    if lo is not None:
        # (thresholded) positive eigenvalues, case by case
        vc.assume(SForall((n,), lambda ix: (SV(w.at(ix)) > 0).p if hi is None
                          and False else (SV(clamped(ix[0])) > 0).p))
    else:
        vc.assume(SForall((n,), lambda ix: (SV(clamped(ix[0])) > 0).p))
    return V, clamped


def rebuilt(vc, V, f):
    n = V.shp[0]
    return vc.from_fn((n, n), lambda i, j: S.sum_over(
        [n], lambda k: V.at([i, k[0]]) * f(k[0]) * V.at([j, k[0]])))


def check(vc, tag, V, clamped, S_, C):
    n = V.shp[0]
    vc.eq(tag + 'corrected matrix', C, rebuilt(vc, V, clamped))
    vc.eq(tag + 'inverse square root symmetric', S_, S.transpose(S_))
    S_, C = S.asarr(S_), S.asarr(C)
    vc.eq(tag + 'S C S = I', S.matmul(S_, S.matmul(C, S_)), S.eye(SV(n)))
    # the positive root, not just any root
    vc.eq(tag + 'inverse square root', S_, rebuilt(
        vc, V, lambda k: T.mk_pow(clamped(k), T.Fr(-1, 2))))


def inv_sqrt(vc, kind, symmetric):
    OU = vc.mod('OptimizationUtils')
    n = vc.dim('n')
    H = vc.sym_matrix('H', n) if symmetric else vc.arr('H', n, n)
    H0 = vc.snap(H)
    kw = clamp_args(vc, kind)
    V, clamped = spectrum(vc, H0, kw)
    S_, C = OU.get_sym_matrix_inv_sqrt(H, **kw)
    check(vc, '', V, clamped, S_, C)
    vc.eq('matrix not modified', H, H0)


def install(vc, how, kind):
    OU = vc.mod('OptimizationUtils')
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    kw = clamp_args(vc, kind)
    x = vc.arr('x', p.f)
    x0 = vc.snap(x)
    H = vc.arr('H', p.f, p.f)
    H0 = vc.snap(H)
    args = {}
    if how in ('hessian', 'both given'):
        args['hessian'] = H
        Hw = H0
    if how in ('point', 'both given'):
        args['free_par'] = x
    if how == 'point':
        Hw = spec(vc, p, 'free', 'hessian', (), {}, x0, None, None)
    V, clamped = spectrum(vc, Hw, kw)
    args.update(kw)
    r = OU.set_objective_preconditioner(o, **args)
    vc.true('three results', len(r) == 3)
    vc.eq('Hessian returned', r[0], Hw)
    check(vc, '', V, clamped, r[1], r[2])
    vc.eq('preconditioner installed', o.preconditioner, r[1])
    vc.eq('Hessian not modified', H, H0)
    vc.eq('point not modified', x, x0)


def conditioned_identity(vc, how):
    """after installation the conditioned Hessian at the preimage of the
    point is S H S (the identity when nothing is clamped)"""
    OU = vc.mod('OptimizationUtils')
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    vc.raises('neither given', ValueError,
              lambda: OU.set_objective_preconditioner(o))
    vc.raises('neither given, bounds only', ValueError,
              lambda: OU.set_objective_preconditioner(
                  o, ev_min=vc.real('lo'), ev_max=vc.real('hi')))
    vc.true('nothing installed', o.preconditioner is None)
    # positional use
    H = vc.arr('H', p.f, p.f)
    V, clamped = spectrum(vc, H, {})
    r = OU.set_objective_preconditioner(o, None, H)
    check(vc, 'positional ', V, clamped, r[1], r[2])
    # installing again replaces the first one
    G = vc.arr('G', p.f, p.f)
    V, clamped = spectrum(vc, G, {})
    r = OU.set_objective_preconditioner(o, hessian=G)
    check(vc, 'second ', V, clamped, o.preconditioner, r[2])


SCENARIOS = each([(k, s) for k in CLAMPS for s in (False, True)],
                 inv_sqrt) + \
    each([(h, k) for h in ('hessian', 'point', 'both given')
          for k in CLAMPS], install) + \
    each(['errors'], conditioned_identity)
BOUNDS = ''
