"""The parameter types, how an arbitrary one of each is built, and the layout
of its vector encoding (from the property statements, not from the code)."""
from .common import *


class Spec(object):
    """par, shape of the value, sizes, and pos(index) -> vector position"""

    def __init__(self, vc, kind, bk='none', name='p', tag=''):
        self.vc, self.kind, self.bk = vc, kind, bk
        self.name, self.tag = name, tag
        getattr(self, 'make_' + kind[0])(*kind[1:])

    def dim(self, n, lo=1):
        return self.vc.dim(n + self.tag, lo)

    def bounds(self):
        vc, t = self.vc, self.tag
        kind = self.bk
        self.lb = vc.real('lb' + t) if kind in ('lower', 'both') else -INF
        self.ub = vc.real('ub' + t) if kind in ('upper', 'both') else INF
        if kind == 'both':
            vc.assume(self.lb < self.ub)

    def make_scalar(self):
        P = self.vc.mod('Parameters')
        self.bounds()
        self.par = P.ScalarParam(self.name, self.lb, self.ub)
        self.shape = ()
        self.vsize = self.fsize = 1
        self.cls = 'scalar'

    def make_vector(self):
        P = self.vc.mod('Parameters')
        self.bounds()
        n = self.dim('n')
        self.par = P.VectorParam(self.name, n, self.lb, self.ub)
        self.shape = (n,)
        self.vsize = self.fsize = n
        self.cls = 'box'

    def make_array(self, rank):
        P = self.vc.mod('Parameters')
        self.bounds()
        self.shape = tuple(self.dim('n%d' % i) for i in range(rank))
        self.par = P.ArrayParam(self.name, self.shape, self.lb, self.ub)
        self.vsize = self.fsize = total(self.shape)
        self.cls = 'box'

    def make_simplex(self):
        M = self.vc.mod('SimplexParams')
        r, c = self.dim('r'), self.dim('c', 2)
        self.shape = (r, c)
        self.par = M.SimplexParam(self.name, self.shape)
        self.vsize, self.fsize = r * c, r * (c - 1)
        self.cls = 'simplex'

    def make_posdef(self, which='single', rank=0):
        M = self.vc.mod('MatrixParameters')
        n = self.n = self.dim('n')
        self.stack = tuple(self.dim('m%d' % i) for i in range(rank))
        if self.bk == 'positive':
            d = self.vc.real('d' + self.tag)
            self.vc.assume(d > 0)
        else:
            d = 0.0
        self.d = d
        if which == 'single':
            self.par = M.PosDefMatrixParam(self.name, n, diag_lb=d)
        elif which == 'vector':
            self.par = M.PosDefMatrixParamVector(
                self.name, self.stack[0], n, diag_lb=d)
        else:
            self.par = M.PosDefMatrixParamArray(
                self.name, self.stack, n, diag_lb=d)
        self.shape = self.stack + (n, n)
        self.vsize = self.fsize = tri(n) * total(self.stack)
        self.cls = 'posdef'

    def make_subspace(self, how):
        M = self.vc.mod('ProjectionParams')
        n = self.dim('n', 2)
        if how == 'given':
            m = self.dim('m', 1)
            self.vc.assume(m < n)
            self.rows = self.vc.arr('perp' + self.tag, m, n)
            self.par = M.SubspaceVectorParam(self.name, n,
                                             perp_subspace=self.rows)
        else:
            m = 1
            self.par = M.SubspaceVectorParam(self.name, n)
        self.shape = (n,)
        self.vsize, self.fsize = n, n - m
        self.cls = 'subspace'

    # ---- layout of the vector encoding
    def pos(self, idx):
        """vector position of value entry idx (row-major; for symmetric
        matrices the lower triangle row by row, idx with row >= column)"""
        dims = [S.dim_poly(d) for d in self.shape]
        if self.cls != 'posdef':
            return S.ravel(list(idx), dims) if idx else ZERO
        o = S.ravel(list(idx[:-2]), dims[:-2]) if len(idx) > 2 else ZERO
        r, c = idx[-2], idx[-1]
        return o * S.dim_poly(tri(self.n)) + \
            (r * (r + ONE)).scale(T.Fr(1, 2)) + c

    def position(self, what='vector'):
        """an arbitrary position of the encoding, in the form the layout
        gives it (facts on the new variables go to the current context)"""
        c = CTX()

        def idx(n, b='q'):
            v = T.fresh(b)
            c.add_range(v, S.dim_poly(n))
            return v
        if self.cls == 'posdef':
            o = [idx(d) for d in self.stack]
            r = idx(self.n)
            return self.pos(o + [r, idx(SV(r) + 1)])
        if self.cls == 'simplex':
            w = self.shape[1] - (1 if what == 'free' else 0)
            i = idx(self.shape[0])
            return i * S.dim_poly(w) + idx(w)
        return idx(self.vsize if what == 'vector' else self.fsize)

    def eq(self, name, axes, a, b, depth=5):
        """a and b (functions of index lists) agree at all positions"""
        vc = self.vc
        c = CTX()
        c.push()
        try:
            ix = [self.position(w) for w in axes]
            vc.zero(name, a(ix) - b(ix), depth)
        finally:
            c.pop()

    def from_vector(self, x):
        """the value whose vector encoding is x"""
        vc = self.vc

        def f(*i):
            if self.cls != 'posdef':
                return x.at([self.pos(i)])
            lo = T.mk_ind('ge', i[-2] - i[-1])
            sw = i[:-2] + (i[-1], i[-2])
            return S.ite(lo, lambda: x.at([self.pos(i)]),
                         lambda: x.at([self.pos(sw)]))
        return vc.from_fn(self.shape, f)

    def value(self, name):
        """an arbitrary array of the shape of the value (symmetric matrices
        for the matrix types)"""
        vc = self.vc
        if self.cls == 'posdef':
            k = len(self.stack)
            h = 'A:' + name
            T.SYMM_HEADS.add(h)
        return vc.arr(name, *self.shape) if self.shape else vc.real(name)

    def asarray(self, v):
        """the value as an array of the declared shape"""
        if self.cls == 'scalar':
            return S.asarr(v).reshape(())
        return v


def total(shape):
    out = 1
    for s in shape:
        out = out * s
    return out


def tri(n):
    return (n * n + n) // 2


SCALAR = ('scalar',)
VECTOR = ('vector',)
ARRAYS = [('array', 1), ('array', 2), ('array', 3)]
SIMPLEX = ('simplex',)
POSDEFS = [('posdef', 'single', 0), ('posdef', 'vector', 1),
           ('posdef', 'array', 1), ('posdef', 'array', 2),
           ('posdef', 'array', 3)]
SUBSPACE = [('subspace', 'default'), ('subspace', 'given')]
KINDS = [SCALAR, VECTOR] + ARRAYS + [SIMPLEX] + POSDEFS + SUBSPACE


def lab(kind):
    return '-'.join(map(str, kind))


def per_kind(f, kinds=KINDS, bks=('none',)):
    out = []
    for k in kinds:
        for b in bks:
            out.append(('%s[%s,%s]' % (f.__name__, lab(k), b),
                        (lambda k, b: lambda vc: f(vc, k, b))(k, b)))
    return out
