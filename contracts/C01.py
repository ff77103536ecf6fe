"""C01: bounded parameters and unconstrained coordinates are one-to-one."""
from .common import *


def make(vc, cls, lb, ub, rank, val=None):
    P = vc.mod('Parameters')
    if cls == 'scalar':
        return P.ScalarParam('x', lb, ub, val=val), ()
    if cls == 'vector':
        n = vc.dim('n', 1)
        return P.VectorParam('x', n, lb, ub, val=val), (n,)
    shape = tuple(vc.dim('n%d' % i, 1) for i in range(rank))
    return P.ArrayParam('x', shape, lb, ub, val=val), shape


def total(shape):
    out = 1
    for d in shape:
        out = out * d
    return out


CASES = [(c, k, r) for c, rs in (('scalar', (0,)), ('vector', (1,)),
                                 ('array', (1, 2, 3)))
         for r in rs for k in BOUND_KINDS]


def set_free_get_free(vc, cls, kind, rank):
    lb, ub = bounds(vc, kind)
    par, shape = make(vc, cls, lb, ub, rank)
    m = total(shape)
    x = vc.arr('x', m)
    x0 = vc.snap(x)
    par.set_free(x)
    val = par.get()
    if cls == 'scalar':
        vc.true('scalar value has one entry', val.size == 1)
    else:
        vc.eq('value has the declared shape', val * 0,
              vc.from_fn(shape, lambda *i: ZERO))
    check_inside(vc, 'value', val, lb, ub)
    vc.eq('free vector is reproduced', par.get_free(), x)
    vc.eq('argument is not modified', x, x0)


def set_get_free_set(vc, cls, kind, rank):
    lb, ub = bounds(vc, kind)
    par, shape = make(vc, cls, lb, ub, rank)
    if cls == 'scalar':
        val = vc.real('v')
        for b, f in ((lb, lambda: vc.assume(val > lb)),
                     (ub, lambda: vc.assume(val < ub))):
            if isinstance(b, SV):
                f()
    else:
        val = vc.arr('v', *shape)
        assume_inside(vc, val, lb, ub)
    par.set(val)
    vc.eq('value is held', par.get(), val)
    free = par.get_free()
    vc.eq('free vector has the free size', free.size, par.free_size())
    par.set_free(free)
    vc.eq('value is reproduced', S.asarr(par.get()).reshape(shape)
          if cls == 'scalar' else par.get(), val)


def default_inside(vc, cls, kind, rank):
    lb, ub = bounds(vc, kind)
    par, shape = make(vc, cls, lb, ub, rank)
    val = par.get()
    vc.eq('default has the declared shape', S.asarr(val) * 0,
          vc.from_fn(shape, lambda *i: ZERO))
    check_inside(vc, 'default', val, lb, ub)
    par.get_free()


def outside_raises(vc, cls, kind, rank, side):
    lb, ub = bounds(vc, kind)
    par, shape = make(vc, cls, lb, ub, rank)
    if cls == 'scalar':
        val = vc.real('v')
        w = val
    else:
        val = vc.arr('v', *shape)
        idx = []
        for i, d in enumerate(shape):
            j = vc.dim('j%d' % i, 0)
            vc.assume(j < d)
            idx.append(j)
        w = val[tuple(idx)]
    vc.assume(w < lb if side == 'below' else w > ub)
    par.set(val)
    vc.raises('value %s its bound' % side, ValueError, par.get_free)


def bad_bounds_rejected(vc, cls):
    P = vc.mod('Parameters')
    lb, ub = vc.real('lb'), vc.real('ub')
    vc.assume(lb >= ub)
    n = vc.dim('n', 1)
    f = {'scalar': lambda: P.ScalarParam('x', lb, ub),
         'vector': lambda: P.VectorParam('x', n, lb, ub),
         'array': lambda: P.ArrayParam('x', (n,), lb, ub)}[cls]
    vc.raises('lb >= ub', ValueError, f)


SCENARIOS = (
    each(CASES, set_free_get_free) + each(CASES, set_get_free_set) +
    each(CASES, default_inside) +
    each([c + (s,) for c in CASES for s in ('below', 'above')
          if c[1] == 'both' or (c[1], s) in (('lower', 'below'),
                                             ('upper', 'above'))],
         outside_raises) +
    each(['scalar', 'vector', 'array'], bad_bounds_rejected))
