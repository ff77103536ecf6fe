"""C13: parameter converters give exact Jacobians and restore both
parameters."""
from .abstract import *

KINDS = [(a, b) for a in ('free', 'vec') for b in ('free', 'vec')]


def build(vc, how):
    """how the routine writes the output: its vector or its free encoding,
    possibly through an intermediate value, possibly starting from what the
    input's free encoding holds"""
    SO = vc.mod('SparseObjectives')
    p, q = APar(vc, 'p', 1), APar(vc, 'q', 1)

    def conv():
        if how == 'free':
            q.set_free(ufun('F:conv', p.get_vector(), out=(q.f,)))
        elif how == 'twice':
            q.set_free(ufun('F:pre', p.get_vector(), out=(q.f,)))
            q.set_vector(ufun('F:conv', p.get_free(), q.get_vector(),
                              out=(q.v,)))
        else:
            q.set_vector(ufun('F:conv', p.get_vector(), out=(q.v,)))
    return p, q, SO.ParameterConverter(p, q, conv)


def pure(p, q, how, a, b):
    def at(x):
        y = p.dec(x) if a == 'free' else x
        if how == 'free':
            z = ufun('F:conv', y, out=(q.f,))
            return z if b == 'free' else q.dec(z)
        if how == 'twice':
            w = q.dec(ufun('F:pre', y, out=(q.f,)))
            z = ufun('F:conv', x if a == 'free' else p.enc(x), w, out=(q.v,))
        else:
            z = ufun('F:conv', y, out=(q.v,))
        return q.enc(z) if b == 'free' else z
    return at


def value(vc, a, b, how):
    p, q, o = build(vc, how)
    for tag in ('', '2'):
        x = vc.arr('x' + tag, p.f if a == 'free' else p.v)
        x0 = vc.snap(x)
        r = getattr(o, 'converter_%s_to_%s' % (a, b))(x)
        vc.eq('conversion' + tag, r, pure(p, q, how, a, b)(x0))
        vc.eq('input not modified' + tag, x, x0)
        vc.eq('input parameter set' + tag, p.get_vector(),
              p.dec(x0) if a == 'free' else x0)
        p.havoc()
        q.havoc()


def jacobian(vc, a, b, how):
    p, q, o = build(vc, how)
    for tag in ('', '2'):
        x = vc.arr('x' + tag, p.f if a == 'free' else p.v)
        x0 = vc.snap(x)
        before = vc.snap(q.get_vector())
        r = getattr(o, '%s_to_%s_jacobian' % (a, b))(x)
        vc.eq('Jacobian' + tag, r, N.ag_jac(pure(p, q, how, a, b), x0))
        vc.eq('input not modified' + tag, x, x0)
        vc.eq('input parameter holds the value given' + tag, p.get_vector(),
              p.dec(x0) if a == 'free' else x0)
        vc.eq('output parameter holds its earlier value' + tag,
              q.get_vector(), before)
        vc.clean('input parameter is plain' + tag, p.get_vector())
        vc.clean('output parameter is plain' + tag, q.get_vector())
        p.havoc()
        q.havoc()


def again(vc, a, b, how):
    """the same array object with other contents"""
    p, q, o = build(vc, how)
    x = vc.arr('x', p.f if a == 'free' else p.v)
    for k in range(2):
        x0 = vc.snap(x)
        before = vc.snap(q.get_vector())
        r = getattr(o, '%s_to_%s_jacobian' % (a, b))(x)
        vc.eq('Jacobian', r, N.ag_jac(pure(p, q, how, a, b), x0))
        vc.eq('input not modified', x, x0)
        vc.eq('output parameter holds its earlier value', q.get_vector(),
              before)
        p.havoc()
        x[...] = vc.arr('x2', *x.shp)
        vc.eq('conversion', getattr(o, 'converter_%s_to_%s' % (a, b))(x),
              pure(p, q, how, a, b)(vc.snap(x)))
        p.havoc()
        q.havoc()


def mixed(vc, i, j):
    """one Jacobian after another, on the same converter"""
    p, q, o = build(vc, 'vec')
    for k, tag in ((i, ''), (j, '2')):
        a, b = KINDS[k]
        x = vc.arr('x' + tag, p.f if a == 'free' else p.v)
        before = vc.snap(q.get_vector())
        r = getattr(o, '%s_to_%s_jacobian' % (a, b))(x)
        vc.eq('Jacobian' + tag, r, N.ag_jac(pure(p, q, 'vec', a, b), x))
        vc.eq('output parameter holds its earlier value' + tag,
              q.get_vector(), before)


HOWS = ('vec', 'free', 'twice')
SCENARIOS = each([(a, b, h) for a, b in KINDS for h in HOWS], value) + \
    each([(a, b, h) for a, b in KINDS for h in HOWS], jacobian) + \
    each([(a, b, h) for a, b in KINDS for h in HOWS], again) + \
    each([(i, j) for i in range(4) for j in range(4)], mixed)
BOUNDS = ''
