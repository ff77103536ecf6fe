"""C11: preconditioned objectives obey the chain rule."""
from .C10 import *

COND = ('value', 'grad', 'hessian', 'hvp')


def setup(vc, fmt):
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    m = vc.dim('m')
    A = vc.arr('A', p.f, m)
    A0 = vc.snap(A)
    if fmt != 'dense':
        A = N.make_sparse(fmt)(A)
    return SO, p, o, m, A, A0


def call_cond(o, method, x, pos, kw, vec):
    f = getattr(o, 'fun_free_cond' if method == 'value' else
                'fun_free_%s_cond' % method)
    if method == 'hvp':
        return f(x, *(pos + (vec,)), **kw)
    return f(x, *pos, **kw)


def conditioned(vc, fmt, method, args):
    SO, p, o, m, A, A0 = setup(vc, fmt)
    o.preconditioner = A
    cond_step(vc, p, o, m, A0, method, args, '')
    if method == 'value':
        return
    # after another call and another preconditioner
    p.havoc()
    B = vc.arr('B', p.f, m)
    o.preconditioner = B if fmt == 'dense' else N.make_sparse(fmt)(B)
    cond_step(vc, p, o, m, B, 'grad', args, '2')


def again(vc, fmt, method):
    """the same array objects with other contents"""
    SO, p, o, m, A, A0 = setup(vc, fmt)
    o.preconditioner = A
    x, vec, pos, kw = cond_step(vc, p, o, m, A0, method, 'both', '')
    p.havoc()
    pos, kw = extras(vc, 'both', '2')
    rewritten(vc, [x, vec])
    cond_step(vc, p, o, m, A0, method, 'both', '', (x, vec, pos, kw))
    p.havoc()
    if fmt == 'dense':
        rewritten(vc, [A])
        cond_step(vc, p, o, m, vc.snap(A), method, 'both', '',
                  (x, vec, pos, kw))


def cond_step(vc, p, o, m, A0, method, args, tag, reuse=None):
    if reuse is None:
        x = vc.arr('x' + tag, m)
        vec = vc.arr('v' + tag, m)
        pos, kw = extras(vc, args, tag)
    else:
        x, vec, pos, kw = reuse
    x0 = vc.snap(x)
    r = call_cond(o, method, x, pos, kw, vec)
    r = r.toarray() if N.issparse(r) else r
    mm, f = S.dim_poly(m), S.dim_poly(p.f)
    y = vc.from_fn((p.f,), lambda i: S.sum_over(
        [mm], lambda j: A0.at([i, j[0]]) * x0.at(list(j))))
    fun = PureObjective(vc, p, None)

    def at(z):
        return fun(p.dec(z), *pos, **kw)
    if method == 'value':
        want = at(y)
    elif method == 'grad':
        g = N.ag_jac(at, y)
        want = vc.from_fn((m,), lambda i: S.sum_over(
            [f], lambda a: A0.at([a[0], i]) * g.at(list(a))))
    else:
        h = N.ag_jac(lambda z: N.ag_jac(at, z), y)
        if method == 'hessian':
            want = vc.from_fn((m, m), lambda i, j: S.sum_over(
                [f, f], lambda a: A0.at([a[0], i]) * h.at(list(a)) *
                A0.at([a[1], j])))
        else:
            want = vc.from_fn((m,), lambda i: S.sum_over(
                [f, f, mm], lambda a: A0.at([a[0], i]) * h.at(list(a[:2])) *
                A0.at([a[1], a[2]]) * vec.at([a[2]])))
    vc.eq(method + tag, r, want)
    vc.eq(method + tag + ': point not modified', x, x0)
    after(vc, p, 'free', y, method + tag)
    return x, vec, pos, kw


def chain(vc, fmt):
    """the gradient is the derivative of the conditioned value, the Hessian
    of the gradient"""
    SO, p, o, m, A, A0 = setup(vc, fmt)
    o.preconditioner = A
    pos, kw = extras(vc, 'both')
    x = vc.arr('x', m)
    g = o.fun_free_grad_cond(x, *pos, **kw)
    vc.eq('gradient of the conditioned value', g, N.ag_jac(
        lambda z: o.fun_free_cond(z, *pos, **kw), x))
    H = o.fun_free_hessian_cond(x, *pos, **kw)
    H = H.toarray() if N.issparse(H) else H
    vc.eq('Hessian of the conditioned value', H, N.ag_jac(
        lambda z: N.ag_jac(lambda t: o.fun_free_cond(t, *pos, **kw), z), x))


def unconditioned_point(vc, fmt):
    SO, p, o, m, A, A0 = setup(vc, fmt)
    o.preconditioner = A
    x = vc.arr('x', m)
    mm = S.dim_poly(m)
    want = vc.from_fn((p.f,), lambda i: S.sum_over(
        [mm], lambda j: A0.at([i, j[0]]) * x.at(list(j))))
    vc.eq('uncondition', o.uncondition_x(x), want)
    vc.eq('the preconditioner is unchanged',
          A.toarray() if fmt != 'dense' else A, A0)


def unset(vc, method):
    SO, p, o, m, A, A0 = setup(vc, 'dense')
    x = vc.arr('x', p.f)
    vec = vc.arr('v', p.f)
    pos, kw = extras(vc, 'both')
    vc.raises('assertion', AssertionError,
              lambda: call_cond(o, method, x, pos, kw, vec))
    o.preconditioner = A
    o.preconditioner = None
    vc.raises('assertion after removal', AssertionError,
              lambda: call_cond(o, method, x, pos, kw, vec))


FMTS = ('dense', 'csr', 'csc', 'coo')
SCENARIOS = each([(f, m, a) for f in FMTS for m in COND for a in ARGS],
                 conditioned) + \
    each([(f, m) for f in FMTS for m in COND], again) + \
    each(FMTS, chain) + each(FMTS, unconditioned_point) + each(COND, unset)
BOUNDS = ''
