"""C15: Taylor expansion terms are the exact higher-order implicit
derivatives."""
from .abstract import *
from .C14 import functors, scribble, minus_solve


def partitions(k, part=1):
    """lists m with m[i] of size part + i, sum (part + i) m[i] == k"""
    if k == 0:
        return [[]]
    if part > k:
        return []
    out = []
    for m in range(k // part + 1):
        for rest in partitions(k - m * part, part + 1):
            out.append([m] + rest)
    return out


def patterns(k):
    """all derivative patterns of order k: (eps_order, eta_orders)"""
    out = []
    for e in range(k + 1):
        for m in partitions(k - e):
            m = m + [0] * (k - len(m))
            out.append((e, tuple(m)))
    return sorted(set(out))


class Setting(object):
    """an arbitrary smooth function G of two vectors, a point, a direction and
    vectors standing for the derivatives of the optimum"""

    def __init__(self, vc, K):
        self.vc, self.K = vc, K
        self.n, self.m = vc.dim('n'), vc.dim('m')
        self.M = vc.mod('ModelSensitivity')
        self.x, self.e = vc.arr('x', self.n), vc.arr('e', self.m)
        self.d = vc.arr('d', self.m)
        self.eta = [vc.arr('eta%d' % (i + 1), self.n) for i in range(K + 1)]

    def g(self, x, e):
        return ufun('F:G', x, e, out=(self.n,))

    def table(self):
        return self.M.generate_two_term_derivative_array(self.g, self.K + 2)

    def funs(self, k, etas):
        """functions returning the first k derivative vectors"""
        def mk(v):
            return lambda eta, eps, deps: v
        return [mk(v) for v in etas[:k]]

    def term(self, pat, c, etas, tab, k=None):
        e, m = pat
        k = len(m) if k is None else k
        return self.M.DerivativeTerm(e, list(m), c, self.funs(k, etas), tab)

    def multi(self, x, e, vs, ws):
        """derivative of G at (x, e) in the directions vs of the first and ws
        of the second argument, by definition"""
        def go(x, e, vs, ws):
            if vs:
                return N.ag_jac(lambda s: go(x + s * vs[0], e, vs[1:], ws),
                                SV(ZERO))
            if ws:
                return N.ag_jac(lambda s: go(x, e + s * ws[0], vs, ws[1:]),
                                SV(ZERO))
            return self.g(x, e)
        return go(x, e, list(vs), list(ws))

    def value(self, pat, c, x, e, etas):
        eo, m = pat
        vs = []
        for i, o in enumerate(m):
            vs += [etas[i]] * o
        return c * self.multi(x, e, vs, [self.d] * eo)

    def total_derivative(self, pat, c):
        """d/dt of the value of the term along the perturbation direction:
        the optimum moves by its first derivative and each derivative of the
        optimum by the next one"""
        def at(t):
            etas = [self.eta[j] + t * self.eta[j + 1]
                    for j in range(len(self.eta) - 1)]
            return self.value(pat, c, self.x + t * self.eta[0],
                              self.e + t * self.d, etas)
        return N.ag_jac(at, SV(ZERO))


def jvp_table(vc, i, j):
    s = Setting(vc, 4)
    tab = s.table()
    vs = [vc.arr('v%d' % k, s.n) for k in range(i)]
    ws = [vc.arr('w%d' % k, s.m) for k in range(j)]
    vc.eq('derivative in the directions given',
          tab[i][j](s.x, s.e, *(vs + ws)), s.multi(s.x, s.e, vs, ws))


def evaluate(vc, e, *m):
    k = len(m)
    s = Setting(vc, max(k, 1))
    c = vc.real('c')
    t = s.term((e, m), c, s.eta, s.table())
    vc.true('order', t.order == k)
    vc.eq('value of the term', t.evaluate(s.x, s.e, s.d),
          s.value((e, m), c, s.x, s.e, s.eta))


def differentiate(vc, e, *m):
    k = len(m)
    s = Setting(vc, k + 1)
    c = vc.real('c')
    t = s.term((e, m), c, s.eta, s.table())
    before = list(t.eval_eta_derivs)
    out = t.differentiate(s.funs(k + 1, s.eta)[k])
    tot = None
    for u in out:
        vc.true('order of the derivative', u.order == k + 1)
        w = u.evaluate(s.x, s.e, s.d)
        tot = w if tot is None else tot + w
    vc.eq('sum of the terms is the derivative', tot,
          s.total_derivative((e, m), c))
    vc.true('term not modified', t.eps_order == e and
            list(t.eta_orders) == list(m) and
            len(t.eval_eta_derivs) == len(before))
    vc.eq('term not modified', t.evaluate(s.x, s.e, s.d),
          s.value((e, m), c, s.x, s.e, s.eta))


def set_partitions(n):
    """restricted growth strings: all ways n positions can be equal"""
    def go(pre):
        if len(pre) == n:
            return [tuple(pre)]
        return [r for k in range((max(pre) + 1 if pre else 0) + 1)
                for r in go(pre + [k])]
    return go([])


def merging(vc, k, shift, *classes):
    """a list of terms of order k in which terms with the same entry of
    classes have the same pattern"""
    pats = patterns(k)
    pats = [pats[(q + shift) % len(pats)] for q in classes]
    s = Setting(vc, k)
    tab = s.table()
    cs = [vc.real('c%d' % q) for q in range(len(pats))]
    terms = [s.term(p, c, s.eta, tab) for p, c in zip(pats, cs)]
    lst = list(terms)
    snap = [(t.eps_order, list(t.eta_orders)) for t in terms]
    out = s.M.consolidate_terms(terms)

    def total(keep):
        tot = None
        for p, c in zip(pats, cs):
            if keep(p):
                w = s.value(p, c, s.x, s.e, s.eta)
                tot = w if tot is None else tot + w
        return tot
    keys = [(u.eps_order, tuple(u.eta_orders)) for u in out]
    vc.true('no two terms with the same pattern',
            len(set(keys)) == len(keys))
    vc.true('the same patterns', set(keys) == set(pats))
    ec, dc = [vc.snap(v) for v in s.eta], vc.snap(s.d)
    for tag, ts in (('', lst), (' after combining', out)):
        for hi in (True, False):
            kw = {} if hi else {'include_highest_eta_order': False}
            want = total(lambda p: hi or p[1][-1] == 0)
            what = 'value of the list' + tag + (
                '' if hi else ' without the highest order')
            vc.eq(what, s.M.evaluate_terms(ts, s.x, s.e, s.d, **kw), want)
    vc.eq('direction not modified', s.d, dc)
    vc.eq('derivative vectors not modified', s.eta, ec)
    vc.true('list not modified', len(terms) == len(lst) and all(
        a is b for a, b in zip(terms, lst)) and snap == [
            (t.eps_order, list(t.eta_orders)) for t in terms])
    for t, p, c in zip(terms, pats, cs):
        vc.eq('terms not modified', t.evaluate(s.x, s.e, s.d),
              s.value(p, c, s.x, s.e, s.eta))


def fact(k):
    return k * fact(k - 1) if k else 1


def power(t, k):
    r = ONE
    for _ in range(k):
        r = r * S.to_poly(t)
    return SV(r)


def implicit(n, grad, gradh, x, e, d, H, K):
    """derivatives of orders 1..K at t = 0 of the root y(t) of
    grad(y) + gradh(y, e + t d) - gradh(y, e) = 0 (gradh: the part depending
    on the second argument; None: grad takes both), with H as derivative
    by y"""
    out = []
    for k in range(1, K + 1):
        def at(t):
            y = x
            for i, v in enumerate(out):
                y = y + power(t, i + 1) * (v * const_of(1, fact(i + 1)))
            if gradh is None:
                return grad(y, e + t * d)
            return grad(y, e) + gradh(y, e + t * d) - gradh(y, e)
        f = at
        for _ in range(k):
            f = derivative(f)
        out.append(-1 * N.np_solve(H, f(SV(ZERO))))
    return out


def derivative(f):
    return lambda t: N.ag_jac(f, t)


def const_of(a, b):
    from fractions import Fraction
    return SV(const(Fraction(a, b)))


class EPar(APar):
    """a parameter whose functors are arbitrary smooth functions of the
    encoding last set (a function of the value, composed with the smooth
    decoding, is one)"""

    def havoc(self):
        APar.havoc(self)
        self.code = '', self.vec

    def set_free(self, x):
        APar.set_free(self, x)
        self.code = '_free', S.asarr(x).copy()

    def set_vector(self, y):
        APar.set_vector(self, y)
        self.code = '', self.vec


def functors2(vc, p, h, part):
    def mk(name):
        return lambda: ufun(name + p.code[0] + '/' + h.code[0], p.code[1],
                            h.code[1])
    return mk('F:obj'), (mk('F:hyp') if part else None)


def gradients(p, h, fi, fh, part):
    def f(name):
        if isinstance(p, EPar):
            return lambda a, b: ufun(
                name + fi * '_free' + '/' + fh * '_free', a, b)
        return lambda a, b: ufun(name, p.dec(a) if fi else a,
                                 h.dec(b) if fh else b)
    obj = f('F:obj')

    def gr(o):
        return lambda a, b: N.ag_jac(lambda z: o(z, b), a)
    return gr(obj), (gr(f('F:hyp')) if part else None)


class VC2(object):
    """equality up to writing out the solutions of linear systems"""

    def __init__(self, vc):
        self.vc = vc

    def __getattr__(self, k):
        return getattr(self.vc, k)

    def eq(self, name, a, b):
        vc = self.vc
        r = vc._eq(a, b)
        if not r[0] and getattr(vc.eng, 'opaque_solve', False) and \
                isinstance(a, SArr) and isinstance(b, SArr):
            def ex(a):
                g = a.snap()
                return SArr(a.shp, lambda *i: N.expand_solve(g(list(i))))
            vc.eng.opaque_solve = False
            try:
                r = vc._eq(ex(a), ex(b))
            finally:
                vc.eng.opaque_solve = True
        vc.rec(name, r[0], r[1], r[2])


def check_series(vc, tag, s, p, h, fi, fh, part, x0, e0, H, order):
    nx, ne = (p.f if fi else p.v), (h.f if fh else h.v)
    d = vc.arr('d' + tag, ne)
    dc = vc.snap(d)
    gr, gh = gradients(p, h, fi, fh, part)
    want = implicit(nx, gr, gh, x0, e0, dc, H, order)

    def clean(what):
        vc.eq('direction not modified' + tag, d, dc)
        for nm, par, z, fr in (('input', p, x0, fi), ('hyper', h, e0, fh)):
            vc.eq('%s parameter at the base value after %s' % (nm, what),
                  par.get_vector(), par.dec(z) if fr else z)
            vc.clean('%s parameter numeric after %s' % (nm, what),
                     par.get_vector())
    for k in list(range(order, 0, -1)) + [1]:
        p.havoc()
        h.havoc()
        vc.eq('derivative of order %d' % k + tag,
              s.evaluate_dkinput_dhyperk(d, k), want[k - 1])
        clean('derivative')
    for mo in [None] + list(range(1, order + 1)):
        tot = None
        for k in range(1, (mo or order) + 1):
            w = want[k - 1] * const_of(1, fact(k))
            tot = w if tot is None else tot + w
        kw = {} if mo is None else {'max_order': mo}
        for off in (None, True, False):
            if off is not None:
                kw['add_offset'] = off
            p.havoc()
            h.havoc()
            vc.eq('series' + tag, s.evaluate_taylor_series(d, **kw),
                  tot if off is False else tot + x0)
            clean('series')
    vc.eq('derivative of order 1 after the series' + tag,
          s.evaluate_dkinput_dhyperk(d, 1), want[0])
    for bad in (0, -1, order + 1, order + 3):
        vc.raises('derivative order outside the range', ValueError,
                  lambda: s.evaluate_dkinput_dhyperk(d, bad))
        vc.raises('series order outside the range', ValueError,
                  lambda: s.evaluate_taylor_series(d, max_order=bad))


def taylor(vc, order, fi, fh, given, part, then=''):
    M = vc.mod('ModelSensitivity')
    if order > 1:
        vc.eng.opaque_solve = True
        vc = VC2(vc)
    par = APar if order == 1 else EPar
    p, h = par(vc, 'p', 1), par(vc, 'h', 1)
    obj, hyp = (functors if order == 1 else functors2)(vc, p, h, part)
    nx, ne = (p.f if fi else p.v), (h.f if fh else h.v)
    s = None
    for tag in ('',) if then == '' else ('', then):
        t = 'b' if tag else ''
        if tag == 'order':
            s.set_order(order - 1)
            order = order - 1
        else:
            x, e = vc.arr('x' + t, nx), vc.arr('e' + t, ne)
            x0, e0 = vc.snap(x), vc.snap(e)
            kw = {}
            Hc = None
            if given:
                H = vc.sym_matrix('H' + t, nx)
                Hc = kw['hess0'] = vc.snap(H)
            else:
                gr = gradients(p, h, fi, fh, part)[0]
                H = N.ag_jac(lambda a: gr(a, e0), x0)
            if s is None:
                if part:
                    kw['hyper_par_objective_functor'] = hyp
                if not (given and fi and not fh):   # (the defaults)
                    kw.update(input_is_free=fi, hyper_is_free=fh)
                s = M.ParametricSensitivityTaylorExpansion(
                    obj, p, h, x, e, order, **kw)
                kw.pop('input_is_free', None)
                kw.pop('hyper_is_free', None)
            else:
                p.havoc()
                h.havoc()
                s.set_base_values(x, e, **kw)
            vc.eq('arguments not modified', x, x0)
            vc.eq('arguments not modified', e, e0)
            if given:
                vc.eq('Hessian not modified', Hc, H)
            scribble(vc, x, e)
        check_series(vc, tag, s, p, h, fi, fh, part, x0, e0, H, order)


B = (False, True)
MAXK = 4
SCENARIOS = each([(i, j) for i in range(MAXK + 2) for j in range(MAXK + 2)
                  if 0 < i + j <= MAXK + 1], jvp_table) + \
    each([(e,) + m for k in range(1, MAXK + 1) for e, m in patterns(k)],
         evaluate) + \
    each([(e,) + m for k in range(1, MAXK + 1) for e, m in patterns(k)],
         differentiate) + \
    each([(3, sum(q)) + q for n in range(1, 6) for q in set_partitions(n)] +
         [(k, s, 0, 1, 0) for k in (1, 2, 4) for s in range(
             len(patterns(k)))], merging) + \
    each([(k, fi, fh, gi, pt) for k in (1, 2, 3) for fi in B for fh in B
          for gi in B for pt in B], taylor) + \
    each([(k, fi, fh, gi, pt, 'base') for k in (1, 2) for fi in B
          for fh in B for gi in B for pt in B], taylor) + \
    each([(3, fi, fh, fi, fh, 'order') for fi in B for fh in B], taylor) + \
    each([(4, fi, fh, fi, fi != fh) for fi in B for fh in B], taylor)
BOUNDS = ('Taylor orders up to %d (terms of order up to %d, lists of up to 5 '
          'terms); all sizes, values, functions, directions and prefactors '
          'unbounded' % (MAXK, MAXK + 1))
