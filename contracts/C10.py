"""C10: objective wrappers evaluate and differentiate at the given point and
clean up.  The parameter is any parameter (interface contract), the objective
any function of its value and of the extra arguments."""
from .abstract import *

ARGS = ('none', 'positional', 'keyword', 'both')
METHODS = ('value', 'grad', 'hessian', 'jacobian', 'hvp')


def extras(vc, args, tag=''):
    """positional and keyword arguments passed by the caller"""
    a = vc.real('a' + tag)
    b = vc.arr('b' + tag, vc.dim('nb'))
    k = vc.real('k' + tag)
    pos = (a, b) if args in ('positional', 'both') else ()
    kw = {'k': k} if args in ('keyword', 'both') else {}
    return pos, kw


def objective(vc, p, out=None):
    """an arbitrary smooth function of the parameter and the arguments"""
    calls = []

    def fun(a=2, b=None, k=3):
        calls.append(1)
        b = vc.from_fn((1,), lambda i: ONE) if b is None else b
        return ufun('F:obj', p.get(), S.asarr(a), b, S.asarr(k), out=out)
    fun.calls = calls
    return fun


def spec(vc, p, enc, method, pos, kw, x, out, vec):
    """what the method must return, by definition (on values only)"""
    fun2 = PureObjective(vc, p, out)

    def at(z):
        return fun2(p.dec(z) if enc == 'free' else z, *pos, **kw)
    if method == 'value':
        return at(x)
    if method in ('grad', 'jacobian'):
        return N.ag_jac(at, x)
    h = N.ag_jac(lambda z: N.ag_jac(at, z), x)
    if method == 'hessian':
        return h
    n = x.shp[0]
    v = S.asarr(vec)
    return vc.from_fn((n,), lambda i: S.sum_over(
        [n], lambda j: h.at([i, j[0]]) * v.at(list(j))))


def PureObjective(vc, p, out):
    def fun(y, a=2, b=None, k=3):
        b = vc.from_fn((1,), lambda i: ONE) if b is None else b
        return ufun('F:obj', y, S.asarr(a), b, S.asarr(k), out=out)
    return fun


def call(o, enc, method, x, pos, kw, vec):
    f = getattr(o, 'fun_' + enc + ('' if method == 'value' else
                                   '_' + method))
    if method == 'hvp':
        return f(x, *(pos + (vec,)), **kw)
    return f(x, *pos, **kw)


def after(vc, p, enc, x0, what):
    want = p.dec(x0) if enc == 'free' else x0
    vc.eq(what + ': parameter holds the value given', p.get_vector(), want)
    vc.clean(what + ': plain numeric value', p.get_vector())


def step(vc, o, p, enc, method, args, out, tag, reuse=None):
    n = p.f if enc == 'free' else p.v
    if reuse is None:
        x = vc.arr('x' + tag, n)
        vec = vc.arr('v' + tag, n)
        pos, kw = extras(vc, args, tag)
    else:
        x, vec, pos, kw = reuse
    x0 = vc.snap(x)
    r = call(o, enc, method, x, pos, kw, vec)
    want = spec(vc, p, enc, method, pos, kw, x0, out, vec)
    what = '%s %s' % (enc, method)
    vc.eq(what, r, want)
    vc.eq(what + ': point not modified', x, x0)
    after(vc, p, enc, x0, what)
    return x, vec, pos, kw


def rewritten(vc, arrs):
    """the owner writes other values into the same array objects"""
    for a in arrs:
        a[...] = vc.arr('w%d' % vc.eng.new_seq(), *a.shp)


def again(vc, enc, method):
    """the same array objects: with other extra arguments, then with other
    contents, then with another direction"""
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    x, vec, pos, kw = step(vc, o, p, enc, method, 'both', None, '')
    p.havoc()
    pos, kw = extras(vc, 'both', '2')
    step(vc, o, p, enc, method, 'both', None, '', (x, vec, pos, kw))
    p.havoc()
    rewritten(vc, [x])
    step(vc, o, p, enc, method, 'both', None, '', (x, vec, pos, kw))
    p.havoc()
    rewritten(vc, [vec])
    step(vc, o, p, enc, method, 'both', None, '', (x, vec, pos, kw))


def single(vc, enc, method, args):
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    step(vc, o, p, enc, method, args, None, '')


def vector_valued(vc, enc, args):
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    m = vc.dim('m')
    o = SO.Objective(p, objective(vc, p, (m,)))
    step(vc, o, p, enc, 'value', args, (m,), '')
    step(vc, o, p, enc, 'jacobian', args, (m,), '2')


def sequence(vc, enc1, m1, enc2, m2):
    """a call, the parameter changed by its owner, another call"""
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    step(vc, o, p, enc1, m1, 'both', None, '')
    p.havoc()
    step(vc, o, p, enc2, m2, 'none', None, '2')


def verbose(vc):
    SO = vc.mod('SparseObjectives')
    p = APar(vc, 'p', 1)
    o = SO.Objective(p, objective(vc, p))
    pos, kw = extras(vc, 'both')
    x = vc.arr('x', p.f)
    r = o.fun_free(x, *pos, verbose=True, **kw)
    vc.eq('value', r, spec(vc, p, 'free', 'value', pos, kw, x, None, None))
    vc.eq('logged value', o.logger.value, r)
    vc.eq('logged point', o.logger.x, x)
    after(vc, p, 'free', x, 'verbose')


SCENARIOS = each([(e, m, a) for e in ('free', 'vector') for m in METHODS
                  for a in ARGS], single) + \
    each([(e, a) for e in ('free', 'vector') for a in ARGS],
         vector_valued) + \
    each([(e1, m1, e2, m2) for e1 in ('free', 'vector') for m1 in METHODS
          for e2 in ('free', 'vector') for m2 in METHODS], sequence) + \
    each([(e, m) for e in ('free', 'vector') for m in METHODS], again) + \
    [('verbose', verbose)]
BOUNDS = ''
