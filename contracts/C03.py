"""C03: simplex parameters and free coordinates are one-to-one."""
from .common import *


def make(vc, val=None):
    M = vc.mod('SimplexParams')
    r, c = vc.dim('r', 1), vc.dim('c', 2)
    return M.SimplexParam('s', (r, c), val=val), r, c


def assume_simplex(vc, name, r, c):
    """Every array whose rows are positive and sum to one is w divided by its
    row sums for some positive w (namely itself), so that is how an arbitrary
    one is written."""
    vc.positive(name)
    w = vc.arr(name, r, c)
    val = w / vc.np.expand_dims(w.sum(axis=1), 1)
    return val, val[:, 0:1], val[:, 1:]


def set_free_get_free(vc):
    par, r, c = make(vc)
    x = vc.arr('x', r * (c - 1))
    x0 = vc.snap(x)
    par.set_free(x)
    val = par.get()
    vc.eq('shape', val * 0, vc.from_fn((r, c), lambda i, j: ZERO))
    vc.rel('entries are positive', 'gt', val)
    vc.eq('rows sum to one', val.sum(axis=1), vc.from_fn((r,), lambda i: ONE))
    vc.eq('free vector is reproduced', par.get_free(), x)
    vc.eq('argument is not modified', x, x0)
    fm = x.reshape((r, c - 1))
    lr = vc.np.log(val[:, 1:]) - vc.np.log(val[:, 0:1])
    vc.eq('free coordinates are log ratios to entry 0', lr, fm)


def set_get_free_set(vc):
    par, r, c = make(vc)
    val, first, head = assume_simplex(vc, 'v', r, c)
    vc.eq('rows sum to one (hypothesis)', val.sum(axis=1),
          vc.from_fn((r,), lambda i: ONE))
    par.set(val)
    vc.eq('value is held', par.get(), val)
    free = par.get_free()
    vc.eq('free coordinates are the log ratios', free,
          (vc.np.log(head) - vc.np.log(first)).flatten())
    par.set_free(free)
    vc.eq('value is reproduced', par.get(), val)


def default_uniform(vc):
    par, r, c = make(vc)
    cp = S.dim_poly(c)
    vc.eq('uniform', par.get(), vc.from_fn(
        (r, c), lambda i, j: T.mk_pow(cp, -1)))
    vc.eq('rows sum to one', par.get().sum(axis=1),
          vc.from_fn((r,), lambda i: ONE))


def constructor_value(vc):
    M = vc.mod('SimplexParams')
    r, c = vc.dim('r', 1), vc.dim('c', 2)
    val, first, head = assume_simplex(vc, 'v', r, c)
    par = M.SimplexParam('s', (r, c), val=val)
    vc.eq('given value is held', par.get(), val)


SCENARIOS = each([()], set_free_get_free) + each([()], set_get_free_set) + \
    each([()], default_uniform) + each([()], constructor_value)
