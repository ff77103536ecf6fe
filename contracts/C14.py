"""C14: linear hyperparameter sensitivity is the implicit-function
derivative."""
from .abstract import *


def functors(vc, p, h, part):
    """objective, and the part depending on the hyperparameter (or None)"""
    def obj():
        return ufun('F:obj', p.get(), h.get())

    def hyp():
        return ufun('F:hyp', p.get(), h.get())
    return obj, (hyp if part else None)


def derivs(p, h, fi, fh, part, x, e):
    """Hessian of the objective and mixed derivatives of its hyperparameter
    part, in the encodings declared, at (x, e)"""
    def f(name):
        return lambda a, b: ufun(name, p.dec(a) if fi else a,
                                 h.dec(b) if fh else b)
    obj, hyp = f('F:obj'), f('F:hyp' if part else 'F:obj')
    H = N.ag_jac(lambda t: N.ag_jac(lambda a: obj(a, e), t), x)
    G = N.ag_jac(lambda b: N.ag_jac(lambda a: hyp(a, b), x), e)
    return H, G


def scribble(vc, *arrays):
    """the caller overwrites its arrays"""
    for k, a in enumerate(arrays):
        if a is not None:
            a[...] = vc.arr('junk%d' % vc.eng.new_seq(), *a.shp)


def minus_solve(H, G):
    return -1 * N.np_solve(H, G)


def check_predictions(vc, tag, s, D, x0, e0, h, fh):
    vc.eq('derivative of the optimum' + tag, s.get_dinput_dhyper(), D)
    n = h.f if fh else h.v
    for k in '12':
        e1 = vc.arr('e1' + tag + k, n)
        e1c = vc.snap(e1)
        vc.eq('predicted input' + tag,
              s.predict_input_par_from_hyperparameters(e1),
              x0 + S.matmul(D, e1c - e0))
        vc.eq('argument not modified' + tag, e1, e1c)
    vc.eq('prediction at the base' + tag,
          s.predict_input_par_from_hyperparameters(vc.snap(e0)), x0)


def linear(vc, fi, fh, given, part):
    M = vc.mod('ModelSensitivity')
    p, h = APar(vc, 'p', 1), APar(vc, 'h', 1)
    obj, hyp = functors(vc, p, h, part)
    nx, ne = (p.f if fi else p.v), (h.f if fh else h.v)
    s = None
    for tag in ('', ' after a change of base'):
        t = 'b' if tag else ''
        x, e = vc.arr('x' + t, nx), vc.arr('e' + t, ne)
        x0, e0 = vc.snap(x), vc.snap(e)
        H, G = derivs(p, h, fi, fh, part, x0, e0)
        Hc = None
        if given:
            H = vc.sym_matrix('H' + t, nx)
            Hc = vc.snap(H)
        kw = {'hess0': Hc} if given else {}
        if s is None:
            if part:
                kw['hyper_par_objective_functor'] = hyp
            s = M.ParametricSensitivityLinearApproximation(
                obj, p, h, x, e, **dict(kw, **(
                    {} if given and fi and not fh else      # the defaults
                    {'input_is_free': fi, 'hyper_is_free': fh})))
        else:
            p.havoc()
            h.havoc()
            s.set_base_values(x, e, **kw)
        vc.eq('arguments not modified' + tag, x, x0)
        vc.eq('arguments not modified' + tag, e, e0)
        if given:
            vc.eq('Hessian not modified' + tag, Hc, H)
        scribble(vc, x, e, Hc)
        p.havoc()
        h.havoc()
        check_predictions(vc, tag, s, minus_solve(H, G), x0, e0, h, fh)


def deprecated(vc, how, given, part):
    SO = vc.mod('SparseObjectives')
    p, h, q = APar(vc, 'p', 1), APar(vc, 'h', 1), APar(vc, 'q', 1)
    obj, hyp = functors(vc, p, h, part)

    def conv():
        q.set_vector(ufun('F:conv', p.get(), out=(q.v,)))
    x, e = vc.arr('x', p.f), vc.arr('e', h.v)
    x0, e0 = vc.snap(x), vc.snap(e)
    h.set_vector(vc.snap(e))
    H, G = derivs(p, h, True, False, part, x0, e0)
    kw = {}
    Hc = None
    if given:
        H = vc.sym_matrix('H', p.f)
        Hc = kw['objective_hessian'] = vc.snap(H)
    if part:
        kw['hyper_par_objective_fun'] = hyp
    if how == 'given':
        kw['optimal_input_par'] = x
    else:
        p.set_free(vc.snap(x))
    s = SO.ParametricSensitivity(obj, p, q, h, conv, **kw)
    vc.eq('arguments not modified', x, x0)
    if given:
        vc.eq('Hessian not modified', Hc, H)
    scribble(vc, x, Hc)
    for par in (p, q, h):
        par.havoc()
    D = minus_solve(H, G)

    def out(z):
        return ufun('F:conv', p.dec(z), out=(q.v,))
    J = N.ag_jac(out, x0)
    check_predictions(vc, '', s, D, x0, e0, h, False)
    vc.eq('output sensitivity', s.get_doutput_dhyper(), S.matmul(J, D))
    e1 = vc.arr('e1', h.v)
    de = e1 - e0
    vc.eq('linear output prediction',
          s.predict_output_par_from_hyperparameters(e1, True),
          out(x0) + S.matmul(S.matmul(J, D), de))
    vc.eq('nonlinear output prediction',
          s.predict_output_par_from_hyperparameters(e1, False),
          out(x0 + S.matmul(D, de)))
    for lin in (True, False):
        vc.eq('output prediction at the base',
              s.predict_output_par_from_hyperparameters(vc.snap(e0), lin),
              out(x0))
    # a new optimum on the same object
    x = vc.arr('xb', p.f)
    x0 = vc.snap(x)
    e0 = vc.arr('eb', h.v)
    h.set_vector(vc.snap(e0))
    kw = {}
    H, G = derivs(p, h, True, False, part, x0, e0)
    if given:
        H = vc.sym_matrix('Hb', p.f)
        kw['objective_hessian'] = vc.snap(H)
    if how == 'given':
        kw['optimal_input_par'] = x
    else:
        p.set_free(vc.snap(x))
    s.set_optimal_input_par(**kw)
    scribble(vc, x)
    check_predictions(vc, ' at a new optimum', s, minus_solve(H, G), x0, e0,
                      h, False)
    vc.eq('output prediction at the new base',
          s.predict_output_par_from_hyperparameters(vc.snap(e0), True),
          out(x0))


B = (False, True)
SCENARIOS = each([(a, b, c, d) for a in B for b in B for c in B for d in B],
                 linear) + \
    each([(h, c, d) for h in ('given', 'current') for c in B for d in B],
         deprecated)
BOUNDS = ''
