"""C23: optimization drivers optimize the stated objective and report
faithfully.  scipy's minimizer is an arbitrary external function; so is the
optimizer handed to repeatedly_optimize (its k-th call from the point X(k)
returns the point X(k+1) and the result R(k))."""
from .C11 import *
from engine.vcrt import Obj

METHODS23 = {'trust': 'trust-ncg', 'bfgs': 'bfgs'}


# ------------------------------------------------------------- minimizers
class Result(object):
    pass


def minimizer(vc, which, pre, opts, init):
    SO, OU = vc.mod('SparseObjectives'), vc.mod('OptimizationUtils')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    n = S.dim_poly(p.f)
    A = vc.arr('A', p.f, p.f)
    A0 = vc.snap(A)
    if pre or opts == 'all':
        o.preconditioner = A
    reports = []
    o.logger.callback = lambda l: reports.append(l)
    o.logger.log(vc.real('oldv'), vc.arr('oldx', p.f))
    o.logger.print_every = every = vc.dim('every')
    x = vc.arr('x', p.f)
    x0 = vc.snap(x)
    z = vc.arr('z', p.f)
    v = vc.arr('v', p.f)
    opt = vc.arr('opt', p.f)
    opt0 = vc.snap(opt)
    maxiter, gtol, pe = vc.dim('maxiter'), vc.real('gtol'), vc.dim('pe')
    seen = []
    name = 'trust' if which == 'trust' else 'bfgs'
    disp = opts != 'quiet'

    def cond(w):
        """the point at which the objective is evaluated"""
        if not pre:
            return w
        return vc.from_fn((n,), lambda i: S.sum_over(
            [n], lambda j: A0.at([i, j[0]]) * w.at(list(j))))
    fun0 = PureObjective(vc, p, None)

    def f(w):
        return fun0(p.dec(w))

    def minimize(fun, x0=None, args=(), method=None, jac=None, hess=None,
                 hessp=None, bounds=None, constraints=(), tol=None,
                 callback=None, options=None):
        seen.append(1)
        vc.true('named method', isinstance(method, str) and
                method.lower() == METHODS23[which])
        vc.true('plain problem', args == () and bounds is None and
                constraints == () and tol is None)
        options = options or {}
        if opts == 'all':
            vc.true('iteration limit', options.get('maxiter') is not None)
            vc.eq('iteration limit', S.asarr(options['maxiter']),
                  S.asarr(maxiter))
            if which == 'trust':
                vc.eq('gradient tolerance', S.asarr(options['gtol']),
                      S.asarr(gtol))
        vc.true('display option', options.get('disp') == disp)
        if init:
            vc.true('logger starts afresh', o.logger.iter == 0)
            vc.true('logger starts afresh', vc.len(o.logger.x_array) == 0)
            vc.true('logger starts afresh', vc.len(o.logger.val_array) == 0)
        else:
            vc.true('logger goes on', o.logger.iter == 1)
            vc.true('logger goes on', vc.len(o.logger.x_array) == 1)
        # the start
        vc.eq('start', cond(S.asarr(x0)), x0_)
        start = vc.snap(S.asarr(x0))
        for tag, w in (('start', start), ('any point', z)):
            w0 = vc.snap(w)
            k = o.logger.iter
            val = fun(w)
            vc.eq('objective at ' + tag, val, f(cond(w0)))
            if disp:
                vc.true('evaluation logged', o.logger.iter == k + 1)
                vc.eq('evaluation logged', o.logger.value, val)
                vc.eq('point logged', o.logger.x, cond(w0))
            else:
                vc.true('quiet', o.logger.iter == k)
            g = N.ag_jac(f, cond(w0))
            h = N.ag_jac(lambda u: N.ag_jac(f, u), cond(w0))
            if pre:
                gw = vc.from_fn((n,), lambda i: S.sum_over(
                    [n], lambda a: A0.at([a[0], i]) * g.at(list(a))))
                hw = vc.from_fn((n,), lambda i: S.sum_over(
                    [n, n, n], lambda a: A0.at([a[0], i]) *
                    h.at(list(a[:2])) * A0.at([a[1], a[2]]) *
                    v.at([a[2]])))
            else:
                gw = g
                hw = vc.from_fn((n,), lambda i: S.sum_over(
                    [n], lambda a: h.at([i, a[0]]) * v.at(list(a))))
            vc.eq('gradient at ' + tag, jac(w), gw)
            if which == 'trust':
                vc.eq('Hessian product at ' + tag, hessp(w, v), hw)
            else:
                vc.true('no Hessian', hess is None and hessp is None)
            vc.eq('point not modified', w, w0)
        r = Result()
        r.x = opt
        seen.append(r)
        return r
    x0_ = x0
    vc.eng.externals['minimize'] = minimize
    kw = {'disp': disp}
    if opts == 'all':
        kw.update(maxiter=maxiter, print_every=pe)
        if which == 'trust':
            kw['gtol'] = gtol
    if opts == 'default':
        kw = {}
    if not init:
        kw['init_logger'] = False
    run = OU.minimize_objective_trust_ncg if which == 'trust' else \
        OU.minimize_objective_bfgs
    if which == 'bfgs' and not pre and opts == 'default':
        r = run(o, x, **kw)
    elif opts == 'all':
        r = run(o, x, pre, **kw)
    else:
        r = run(o, x, precondition=pre, **kw)
    vc.true('two results', len(r) == 2)
    vc.true('one optimization', len(seen) == 2)
    vc.true('optimizer result', r[1] is seen[1])
    vc.eq('optimum', r[0], cond(opt0))
    vc.eq('optimizer point not modified', opt, opt0)
    vc.eq('start not modified', x, x0)
    vc.eq('print interval', S.asarr(o.logger.print_every),
          S.asarr(pe if opts == 'all' else every))
    if pre:
        vc.eq('preconditioner kept', o.preconditioner, A0)


def no_preconditioner(vc, which):
    SO, OU = vc.mod('SparseObjectives'), vc.mod('OptimizationUtils')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    x = vc.arr('x', p.f)
    run = OU.minimize_objective_trust_ncg if which == 'trust' else \
        OU.minimize_objective_bfgs
    vc.raises('no preconditioner', AssertionError, lambda: run(o, x, True))


# --------------------------------------------------- repeated optimization
class Steps(Obj):
    """how often the optimizer has been called"""
    def __init__(self, m):
        self.m = m


class Oracle(object):
    """the objective: value and gradient, nothing else is known"""

    def __init__(self, vc, n):
        self.vc, self.n = vc, n

    def fun_free(self, x, *a, **k):
        return ufun('F:val', S.asarr(x))

    def fun_free_grad(self, x, *a, **k):
        return ufun('F:grad', S.asarr(x), out=(self.n,))


def repeated(vc, init, keep, disp, tols, limit):
    OU = vc.mod('OptimizationUtils')
    n = vc.dim('n')
    np_ = S.dim_poly(n)
    m0 = T.fresh('m0')
    CTX().add_lo(the_atom(m0), ZERO)
    X = lambda m: SArr((np_,), lambda i: T.app('A:X', m, i))
    R = lambda m: SV(T.app('F:R', m))
    o = Oracle(vc, n)
    g = Steps(SV(m0))

    def opt(x):
        vc.eq('the optimizer starts from the latest point', x,
              X(S.to_poly(g.m)))
        m = S.to_poly(g.m)
        g.m = g.m + 1
        return X(m + ONE), R(m)
    kw = {'keep_intermediate_optimizations': keep}
    if disp is not None:
        kw['disp'] = disp
    if tols:
        for t in ('xtol', 'ftol', 'gtol'):
            kw[t] = vc.real(t)
    tol = {t: kw.get(t, 1e-8) for t in ('xtol', 'ftol', 'gtol')}
    if limit:
        kw['max_iter'] = vc.dim('max_iter')
    bound = kw.get('max_iter', 100)
    x = X(m0)
    if init:
        x = vc.arr('init', n)
        first = vc.snap(x)
        ifirst = vc.real('Rinit')
        calls = []

        def iopt(y):
            vc.eq('the initial optimization starts from the given point', y,
                  first)
            calls.append(1)
            return X(m0), ifirst
        kw['initial_optimization_fun'] = iopt
    x0 = vc.snap(x)

    def variant(j):
        vc.rel('termination', 'ge', SV(S.to_poly(bound) - ONE - j))
    spec23 = {'vc': vc, 'm0': m0, 'variant': variant}
    if vc.eng.concrete is None:
        vc.eng.induct = spec23
    try:
        r = OU.repeatedly_optimize(o, opt, x, **kw)
    finally:
        vc.eng.induct = None
    vc.true('seven results', len(r) == 7)
    new_x, conv, xc, fc, gc, last, results = r
    K = S.to_poly(g.m) - m0
    vc.true('at least one optimization', SV(K) >= 1)
    vc.true('at most the allowed number', SV(K) <= bound)
    if init:
        vc.true('one initial optimization', len(calls) == 1)

    def flags(j):
        """the three criteria after optimization number j"""
        a, b = X(m0 + j), X(m0 + j - ONE)
        dx = S.sum_over([np_], lambda i: S.p_abs(
            a.at(list(i)) - b.at(list(i))))
        df = S.p_abs((o.fun_free(a) - o.fun_free(b)).p)
        gr = o.fun_free_grad(a)
        dg = S.sum_over([np_], lambda i: S.p_abs(gr.at(list(i))))
        return [S.bool_poly(SV(d) < tol[t]) for d, t in
                ((dx, 'xtol'), (df, 'ftol'), (dg, 'gtol'))]

    def any_of(fl):
        q = ONE
        for p in fl:
            q = q * (ONE - p)
        return ONE - q
    fl = flags(K)
    vc.eq('final point', new_x, X(m0 + K))
    for name, got, want in (('x', xc, fl[0]), ('function', fc, fl[1]),
                            ('gradient', gc, fl[2])):
        vc.eq(name + ' criterion of the last iteration', got, SV(want))
    vc.eq('overall flag', conv, SV(any_of(fl)))
    vc.eq('result of the last optimization', last, R(m0 + K - ONE))
    vc.true('stops when a criterion is met or at the limit', SV(
        any_of(fl) + T.mk_ind('eq', K - S.to_poly(bound)) -
        any_of(fl) * T.mk_ind('eq', K - S.to_poly(bound))) > 0)
    c = CTX()
    # no criterion was met earlier
    if 'K' in spec23:
        j = T.fresh('j')
        c.push()
        c.add_lo(the_atom(j), ONE)
        c.add_fact('ge', K - j - ONE)
        # the loop was entered again after optimization number j
        ok = c.assume_bool(spec23['entered'](j))
        if ok is not False:
            vc.zero('no criterion met earlier', any_of(flags(j)))
        c.pop()
    elif K.is_const():
        for j in range(1, int(K.const())):
            vc.zero('no criterion met earlier', any_of(flags(const(j))))
    lead = 1 if init else 0
    if keep:
        vc.true('every result recorded',
                SBool(T.mk_ind('eq', S.to_poly(vc.len(results)) - K -
                               const(lead))))
        if init:
            vc.eq('initial result first', results[0], ifirst)
        j = vc.index('j', K)
        vc.eq('results in order', results[SV(S.to_poly(j)) + lead],
              R(m0 + S.to_poly(j)))
    else:
        vc.true('no result recorded', vc.len(results) == 0)
    vc.eq('start not modified', x, x0)


# ------------------------------------------------------------------ logger
def logger(vc, state, report):
    """one more value logged after any history"""
    SO = vc.mod('SparseObjectives')
    d = vc.dim('d')
    pe = vc.dim('pe')
    dp = S.dim_poly(d)
    l = SO.Logger(print_every=pe) if state != 'set later' else SO.Logger()
    l.print_every = pe
    reports = []
    X = lambda k: SArr((dp,), lambda i: T.app('A:lx', k, i))
    V = lambda k: SV(T.app('A:lv', k))
    if report == 'callback':
        l.callback = lambda s: reports.append(
            (s, s.iter, s.value, s.x))
    elif report == 'message':
        l.print_message = lambda: reports.append(
            (l, l.iter, l.value, l.x))
    else:
        vc.eng.externals['print'] = lambda *a, **k: reports.append(
            (l, l.iter, l.value, l.x))
    if state == 'initialized':
        for _ in range(2):
            l.log(vc.real('u'), vc.arr('w', d))
        l.initialize()
        del reports[:]
    m = 0
    mp = ZERO
    if state == 'any history':
        # m earlier values: the invariant on the public record
        mm = vc.dim('m', 0)
        l.log(V(S.to_poly(mm)), X(S.to_poly(mm)))
        l.log(V(S.to_poly(mm) + ONE), X(S.to_poly(mm) + ONE))
        del reports[:]
        mp = S.to_poly(mm) + const(2)
        m = SV(mp)
        k1, k2 = T.fresh('k'), T.fresh('k')
        l.val_array = VList([S.For(k1, mp, [V(k1)])])
        l.x_array = VList([S.For(k2, mp, [X(k2)])])
        l.iter = m
    vc.true('iterations counted', l.iter == m)
    vc.true('values recorded', vc.len(l.val_array) == m)
    vc.true('points recorded', vc.len(l.x_array) == m)
    v, x = V(mp), X(mp)
    l.log(v, x)
    vc.true('iterations counted', l.iter == m + 1)
    vc.eq('current value', l.value, v)
    vc.eq('current point', l.x, x)
    vc.true('values recorded', vc.len(l.val_array) == m + 1)
    vc.true('points recorded', vc.len(l.x_array) == m + 1)
    vc.eq('values in order', l.val_array[m], v)
    vc.eq('points in order', l.x_array[m], x)
    if state == 'any history':
        j = vc.index('j', mp)
        vc.eq('values in order', l.val_array[j], V(S.to_poly(j)))
        vc.eq('points in order', l.x_array[j], X(S.to_poly(j)))
    due = (m % pe == 0)
    vc.true('at most one report', len(reports) <= 1)
    if reports:
        vc.true('reports only at the interval', due)
        r = reports[0]
        vc.true('report', r[0] is l)
        vc.true('report shows the iteration', r[1] == m)
        vc.eq('report shows the value', r[2], v)
        vc.eq('report shows the point', r[3], x)
    else:
        vc.true('reports at every interval', SV(
            ONE - S.bool_poly(due)) > 0 if not isinstance(due, bool)
            else not due)
    if state != 'any history':
        return
    l.initialize()
    vc.true('initialize', l.iter == 0)
    vc.true('initialize', vc.len(l.val_array) == 0)
    vc.true('initialize', vc.len(l.x_array) == 0)
    vc.true('initialize', l.value is None and l.x is None)
    vc.eq('interval kept', S.asarr(l.print_every), S.asarr(pe))


SCENARIOS = each([(w, p, o, i) for w in ('trust', 'bfgs')
                  for p in (False, True)
                  for o in ('all', 'default', 'quiet')
                  for i in (True, False)], minimizer) + \
    each(['trust', 'bfgs'], no_preconditioner) + \
    each([(i, k, d, t, m) for i in (False, True) for k in (False, True)
          for d, t, m in ((None, False, False), (True, True, True),
                          (None, True, False), (None, False, True))],
         repeated) + \
    each([(s, r) for s in ('fresh', 'initialized', 'set later',
                           'any history')
          for r in ('callback', 'message', 'print')], logger)
BOUNDS = ''
