"""C12: two-parameter objectives give correctly oriented cross derivatives and
clean up."""
from .C10 import *


def build(vc, out=None):
    SO = vc.mod('SparseObjectives')
    p, q = APar(vc, 'p', 1), APar(vc, 'q', 1)

    def fun(a=2, b=None, k=3):
        b = vc.from_fn((1,), lambda i: ONE) if b is None else b
        return ufun('F:obj', p.get(), q.get(), S.asarr(a), b, S.asarr(k))
    o = SO.TwoParameterObjective(p, q, fun)
    return p, q, o


def pure(vc, p, q, f1, f2, pos, kw):
    def at(x, y, a=2, b=None, k=3):
        b = vc.from_fn((1,), lambda i: ONE) if b is None else b
        return ufun('F:obj', p.dec(x) if f1 else x, q.dec(y) if f2 else y,
                    S.asarr(a), b, S.asarr(k))
    return lambda x, y: at(x, y, *pos, **kw)


METHODS = [('fun_free', True, True, 'value'),
           ('fun_vector', False, False, 'value'),
           ('fun_free_hessian12', True, True, 'h12'),
           ('fun_free_hessian21', True, True, 'h21'),
           ('fun_vector_hessian12', False, False, 'h12'),
           ('fun_vector_hessian21', False, False, 'h21'),
           ('fun_hessian_free1_vector2', True, False, 'h12'),
           ('fun_hessian_vector1_free2', False, True, 'h12')] + \
    [(m, a, b, k) for m, k in (('eval_fun', 'value'), ('fun_grad1', 'g1'),
                               ('fun_grad2', 'g2'))
     for a in (True, False) for b in (True, False)]


def step(vc, p, q, o, meth, args, tag, reuse=None):
    name, f1, f2, kind = meth
    if reuse is None:
        x = vc.arr('x' + tag, p.f if f1 else p.v)
        y = vc.arr('y' + tag, q.f if f2 else q.v)
        pos, kw = extras(vc, args, tag)
    else:
        x, y, pos, kw = reuse
    x0, y0 = vc.snap(x), vc.snap(y)
    flags = (f1, f2) if name in ('eval_fun', 'fun_grad1', 'fun_grad2') else ()
    r = getattr(o, name)(x, y, *(flags + pos), **kw)
    at = pure(vc, p, q, f1, f2, pos, kw)
    if kind == 'value':
        want = at(x0, y0)
    elif kind == 'g1':
        want = N.ag_jac(lambda z: at(z, y0), x0)
    elif kind == 'g2':
        want = N.ag_jac(lambda z: at(x0, z), y0)
    elif kind == 'h12':
        want = N.ag_jac(lambda z: N.ag_jac(lambda w: at(w, z), x0), y0)
    else:
        want = N.ag_jac(lambda w: N.ag_jac(lambda z: at(w, z), y0), x0)
    vc.eq(name, r, want)
    vc.eq(name + ': first point not modified', x, x0)
    vc.eq(name + ': second point not modified', y, y0)
    for par, free, v, w in ((p, f1, x0, 'first'), (q, f2, y0, 'second')):
        vc.eq('%s: %s parameter holds the value given' % (name, w),
              par.get_vector(), par.dec(v) if free else v)
        vc.clean('%s: %s parameter is plain' % (name, w), par.get_vector())
    return x, y, pos, kw


def again(vc, i):
    """the same array objects with other extra arguments, then with other
    contents"""
    p, q, o = build(vc)
    x, y, pos, kw = step(vc, p, q, o, METHODS[i], 'both', '')
    for what in ([], [x], [y]):
        p.havoc()
        q.havoc()
        if what:
            rewritten(vc, what)
        else:
            pos, kw = extras(vc, 'both', '2')
        step(vc, p, q, o, METHODS[i], 'both', '', (x, y, pos, kw))


def single(vc, i, args):
    p, q, o = build(vc)
    step(vc, p, q, o, METHODS[i], args, '')


def sequence(vc, i, j):
    p, q, o = build(vc)
    step(vc, p, q, o, METHODS[i], 'both', '')
    p.havoc()
    q.havoc()
    step(vc, p, q, o, METHODS[j], 'none', '2')


R = range(len(METHODS))
SCENARIOS = [('single[%s,%s,%s,%s]' % (METHODS[i][:3] + (a,)),
              (lambda i, a: lambda vc: single(vc, i, a))(i, a))
             for i in R for a in ARGS] + \
    [('sequence[%s,%s,%s;%s,%s,%s]' % (METHODS[i][:3] + METHODS[j][:3]),
      (lambda i, j: lambda vc: sequence(vc, i, j))(i, j))
     for i in R for j in R] + \
    [('again[%s,%s,%s]' % METHODS[i][:3],
      (lambda i: lambda vc: again(vc, i))(i)) for i in R]
BOUNDS = ''
