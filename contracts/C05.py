"""C05: the vector encoding is lossless, ordered and size-checked."""
from .paramspec import *
import copy


def encoding(vc, kind, bk):
    """any value held by the parameter: get_vector is its row-major listing
    of the advertised size and setting it on another parameter of the same
    configuration reproduces the value"""
    s = Spec(vc, kind, bk)
    val = s.value('v')
    v0 = vc.snap(val) if s.shape else val
    s.par.set(val)
    vec = s.par.get_vector()
    vc.true('vector size', s.par.vector_size() == s.vsize)
    vc.true('free size', s.par.free_size() == s.fsize)
    vc.true('encoding is one-dimensional', len(S.asarr(vec).shp) == 1)
    vc.true('encoding has the vector size', S.asarr(vec).size == s.vsize)
    if s.cls == 'scalar':
        vc.eq('listing', vec[0], val)
    else:
        vc.eq('listing', s.from_vector(vec), v0)
    x = vc.arr('x', s.vsize)
    s.par.set_vector(x)
    s.par.set_vector(vec)
    vc.eq('value is reproduced', s.asarray(s.par.get()), v0)
    vc.eq('argument is not modified', val, v0)


def set_vector(vc, kind, bk):
    s = Spec(vc, kind, bk)
    x = vc.arr('x', s.vsize)
    x0 = vc.snap(x)
    s.par.set_vector(x)
    v = s.asarray(s.par.get())
    vc.eq('entries in listing order', v, s.from_vector(x0)
          if s.shape else x0[0])
    vc.eq('vector is reproduced', s.par.get_vector(), x0)
    vc.eq('argument is not modified', x, x0)


def free_size(vc, kind, bk):
    s = Spec(vc, kind, bk)
    f = vc.arr('f', s.fsize)
    s.par.set_free(f)
    free = S.asarr(s.par.get_free())
    vc.true('free encoding is one-dimensional', len(free.shp) == 1)
    vc.true('free encoding has the free size', free.size == s.fsize)
    vc.true('advertised free size', s.par.free_size() == s.fsize)


def wrong_size(vc, kind, bk, what):
    """every other length is rejected and nothing changes"""
    s = Spec(vc, kind, bk)
    val = s.value('v')
    s.par.set(val)
    before = vc.snap(S.asarr(s.par.get()))
    k = vc.dim('k', 0)
    want = s.fsize if what == 'free' else s.vsize
    vc.assume(k != want)
    y = vc.arr('y', k)
    f = s.par.set_free if what == 'free' else s.par.set_vector
    vc.raises('wrong length', ValueError, lambda: f(y))
    vc.eq('value unchanged', S.asarr(s.par.get()), before)


def wrong_shape(vc, kind, bk, rank):
    """a value of another shape is rejected and nothing changes"""
    s = Spec(vc, kind, bk)
    val = s.value('v')
    s.par.set(val)
    before = vc.snap(S.asarr(s.par.get()))
    ks = [vc.dim('k%d' % i, 0) for i in range(rank)]
    if s.cls == 'scalar' or (kind[0] in ('vector', 'subspace')):
        vc.assume(total(ks) != total(s.shape))
    elif rank == len(s.shape):
        same = ONE
        for a, b in zip(ks, s.shape):
            same = same * T.mk_ind('eq', S.dim_poly(a) - S.dim_poly(b))
        vc.assume(SBool(ONE - same))
    y = vc.arr('y', *ks)
    vc.raises('wrong shape', ValueError, lambda: s.par.set(y))
    vc.eq('value unchanged', S.asarr(s.par.get()), before)


def non_symmetric(vc, kind, bk):
    s = Spec(vc, kind, bk)
    val = s.value('v')
    s.par.set(val)
    before = vc.snap(s.par.get())
    y = vc.arr('y', s.n, s.n)
    i, j = vc.dim('i', 0), vc.dim('j', 0)
    vc.assume(i < s.n)
    vc.assume(j < s.n)
    vc.assume(y[i, j] != y[j, i])
    vc.raises('non-symmetric matrix', ValueError, lambda: s.par.set(y))
    vc.eq('value unchanged', s.par.get(), before)


def deepcopy(vc, kind, bk):
    """operations on a deep copy leave the original alone"""
    s = Spec(vc, kind, bk)
    val = s.value('v')
    s.par.set(val)
    c = copy.deepcopy(s.par)
    vc.eq('copy holds the value', S.asarr(c.get()), S.asarr(s.par.get()))
    before = vc.snap(S.asarr(s.par.get()))
    f = vc.arr('f', s.fsize)
    c.set_free(f)
    vc.eq('set_free on the copy', S.asarr(s.par.get()), before)
    c.set_vector(vc.arr('x', s.vsize))
    vc.eq('set_vector on the copy', S.asarr(s.par.get()), before)
    c.set(s.value('w'))
    vc.eq('set on the copy', S.asarr(s.par.get()), before)
    cv = S.asarr(c.get())
    # in-place change of the array read from the copy
    if s.shape:
        c.get()[tuple(0 for _ in s.shape)] = vc.real('z')
        vc.eq('in-place change on the copy', S.asarr(s.par.get()), before)
    s.par.set_vector(vc.arr('x2', s.vsize))
    cw = vc.snap(S.asarr(c.get()))
    s.par.set_free(vc.arr('f2', s.fsize))
    vc.eq('original changes do not reach the copy', S.asarr(c.get()), cw)


SCENARIOS = per_kind(encoding) + per_kind(set_vector) + \
    per_kind(free_size) + \
    per_kind(free_size, [SCALAR, VECTOR] + ARRAYS,
             ('lower', 'upper', 'both')) + \
    [('wrong_size[%s,%s]' % (lab(k), w),
      (lambda k, w: lambda vc: wrong_size(vc, k, 'none', w))(k, w))
     for k in KINDS for w in ('free', 'vector')] + \
    [('wrong_shape[%s,rank %d]' % (lab(k), r),
      (lambda k, r: lambda vc: wrong_shape(vc, k, 'none', r))(k, r))
     for k in KINDS for r in ((1,) if k[0] in ('vector', 'subspace')
                              else (0, 1, 2, 3, 4, 5))
     if not (k[0] == 'scalar' and r == 0)] + \
    per_kind(non_symmetric, [POSDEFS[0]]) + per_kind(deepcopy)
