"""Values of the shadow execution: symbolic scalars, booleans, arrays, lists
and ranges, with numpy semantics for the operations the repository uses."""
import builtins
import numbers
import operator
from fractions import Fraction as Fr

from . import terms as T
from .terms import (Poly, Lam, ZERO, ONE, const, of_atom, atom, the_atom,
                    Unsupported, CTX)

INF = float('inf')


class Eng(object):
    """Hook set by the path engine."""
    cur = None


def engine():
    return Eng.cur


# ---------------------------------------------------------------- scalars
def is_num(x):
    return isinstance(x, (int, float, Fr)) and not isinstance(x, SV)


def is_inf(x):
    return isinstance(x, float) and (x == INF or x == -INF or x != x)


def to_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, SV):
        return x.p
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fr):
        return const(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported('infinite or nan in arithmetic')
        return const(Fr(repr(x)))
    if isinstance(x, SArr):
        if all(d == ONE for d in x.shp):
            return x.at([ZERO] * len(x.shp))
    raise Unsupported('not a scalar: %r' % (type(x),))


def wrap_int(p):
    if p.is_const() and p.const().denominator == 1:
        return int(p.const())
    return SV(p)


def wrap(p, isbool=False):
    if isbool:
        if p == ONE:
            return True
        if p.is_zero():
            return False
        return SBool(p)
    if p.is_int_const():
        return SV(p)
    return SV(p)


def _cmp(kind, a, b):
    """kind in lt le gt ge eq ne; scalars -> bool / SBool"""
    if is_inf(a) or is_inf(b):
        fa = a if is_num(a) else 0.0
        fb = b if is_num(b) else 0.0
        return getattr(operator, kind)(fa, fb)
    return wrap(cmp_poly(kind, to_poly(a), to_poly(b)), True)


def cmp_poly(kind, a, b):
    if kind == 'lt':
        return T.mk_ind('gt', b - a)
    if kind == 'le':
        return T.mk_ind('ge', b - a)
    if kind == 'gt':
        return T.mk_ind('gt', a - b)
    if kind == 'ge':
        return T.mk_ind('ge', a - b)
    if kind == 'eq':
        return T.mk_ind('eq', a - b)
    return ONE - T.mk_ind('eq', a - b)


class _Dtype(object):
    def __init__(self, name):
        self.name = name
        self.kind = {'float': 'f', 'int': 'i', 'bool': 'b'}.get(name, 'O')

    def __eq__(self, o):
        return getattr(o, 'name', o) == self.name or \
            (o is float and self.name == 'float') or \
            (o is int and self.name == 'int') or \
            (o is bool and self.name == 'bool')

    def __hash__(self):
        return hash(self.name)


def is_matrix(x):
    return isinstance(x, SArr) and 'matrix' in x.tag


class NumLike(object):
    """Mixin: arithmetic dispatch shared by scalars and arrays."""

    __array_priority__ = 1000

    def __add__(s, o):
        if getattr(o, 'is_sparse', False):
            return NotImplemented
        return elementwise(lambda a, b: a + b, s, o)

    def __radd__(s, o):
        return elementwise(lambda a, b: a + b, o, s)

    def __sub__(s, o):
        return elementwise(lambda a, b: a - b, s, o)

    def __rsub__(s, o):
        return elementwise(lambda a, b: a - b, o, s)

    def __mul__(s, o):
        if getattr(o, 'is_sparse', False):
            return NotImplemented
        if is_matrix(s) or is_matrix(o):
            raise Unsupported('product of numpy matrices')
        return elementwise(lambda a, b: a * b, s, o)

    def __rmul__(s, o):
        return elementwise(lambda a, b: a * b, o, s)

    def __truediv__(s, o):
        return elementwise(p_div, s, o)

    def __rtruediv__(s, o):
        return elementwise(p_div, o, s)

    def __floordiv__(s, o):
        return elementwise(p_floordiv, s, o)

    def __rfloordiv__(s, o):
        return elementwise(p_floordiv, o, s)

    def __mod__(s, o):
        return elementwise(p_mod, s, o)

    def __rmod__(s, o):
        return elementwise(p_mod, o, s)

    def __pow__(s, o):
        return elementwise(p_pow, s, o)

    def __rpow__(s, o):
        return elementwise(p_pow, o, s)

    def __neg__(s):
        return elementwise(lambda a: -a, s)

    def __pos__(s):
        return s

    def __abs__(s):
        return elementwise(p_abs, s)

    def __lt__(s, o):
        return compare('lt', s, o)

    def __le__(s, o):
        return compare('le', s, o)

    def __gt__(s, o):
        return compare('gt', s, o)

    def __ge__(s, o):
        return compare('ge', s, o)

    def __eq__(s, o):
        return compare('eq', s, o)

    def __ne__(s, o):
        return compare('ne', s, o)

    def __hash__(s):
        return id(s)


def wd(kind, p, what):
    """Definedness obligation: p != 0 ('ne'), p > 0 ('gt'), p >= 0 ('ge')."""
    e = engine()
    if e is not None:
        e.wd(kind, p, what)


def p_div(a, b):
    if b.is_const():
        if b.is_zero():
            wd('ne', b, 'division')
            return T.undef()
        return a.scale(1 / b.const())
    wd('ne', b, 'division')
    return a * T.mk_pow(b, -1)


def p_floordiv(a, b):
    return T.mk_idiv(a, b)


def p_mod(a, b):
    return T.mk_imod(a, b)


def p_pow(a, b):
    if b.is_const():
        e = b.const()
        if e < 0:
            wd('ne', a, 'power')
        if e.denominator != 1:
            wd('ge', a, 'power')
        return T.mk_pow(a, e)
    wd('gt', a, 'power')
    return T.mk_exp(b * T.mk_log(a))


def p_abs(a):
    if a.is_const():
        return const(abs(a.const()))
    inds = T.top_inds(a)
    if inds:
        return T.lift_one(a, inds, p_abs)
    s = CTX().sign(a)
    if s == 1:
        return a
    if s == -1:
        return -a
    if CTX().syn_nonneg(a):
        return a
    if T.canon_sign(a) < 0:
        a = -a
    return T.app('abs', a)


def p_exp(a):
    return T.mk_exp(a)


def p_log(a):
    wd('gt', a, 'log')
    return T.mk_log(a)


def p_sqrt(a):
    if a.is_const() and a.const() >= 0:
        if a.is_zero():
            return ZERO
        return T.mk_pow(a, Fr(1, 2))
    wd('ge', a, 'sqrt')
    return T.mk_pow(a, Fr(1, 2))


class SV(NumLike):
    __slots__ = ('p', '_npf')

    def __init__(self, p):
        self.p = p

    # python protocol
    def __bool__(self):
        return engine().decide(ONE - T.mk_ind('eq', self.p))

    def __index__(self):
        if self.p.is_int_const():
            return int(self.p.const())
        raise Unsupported('symbolic value used as a concrete index: %s' %
                          T.show(self.p))

    __int__ = __index__

    def __float__(self):
        raise Unsupported('float() of symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return T.show(self.p)

    def __str__(self):
        return T.show(self.p)

    def __format__(self, spec):
        return T.show(self.p)

    # numpy scalar protocol
    shape = ()
    ndim = 0
    size = 1
    shp = ()

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return _Dtype('int' if T.poly_is_int(self.p) else 'float')

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def flatten(self, order='C'):
        return SArr((ONE,), lambda i: self.p)

    ravel = flatten

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, VList)):
            shape = tuple(shape[0])
        return full(shape, self)

    def transpose(self, *a):
        return self

    def sum(self, axis=None, keepdims=False):
        return self

    def all(self, *a, **k):
        return bool(self)

    any = all

    def astype(self, t):
        return self

    def max(self, *a, **k):
        return self

    min = max

    def dot(self, o):
        return self * o

    def __matmul__(self, o):
        raise ValueError('matmul: scalar operand')

    __rmatmul__ = __matmul__

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')

    def __len__(self):
        raise TypeError('object of type scalar has no len()')

    def __iter__(self):
        raise TypeError('iteration over a 0-d array')

    def at(self, idx):
        return self.p


numbers.Number.register(SV)


class SBool(object):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __bool__(self):
        return engine().decide(self.p)

    def __and__(self, o):
        return wrap(self.p * bool_poly(o), True)

    __rand__ = __and__

    def __or__(self, o):
        q = bool_poly(o)
        return wrap(self.p + q - self.p * q, True)

    __ror__ = __or__

    def __invert__(self):
        return wrap(ONE - self.p, True)

    def __xor__(self, o):
        q = bool_poly(o)
        return wrap(self.p + q - (self.p * q).scale(2), True)

    def all(self, *a, **k):
        return self

    any = all

    def __mul__(self, o):
        return SV(self.p) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return SV(self.p) + o

    __radd__ = __add__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            q = bool_poly(o)
            return wrap(ONE - self.p - q + (self.p * q).scale(2), True)
        return SV(self.p) == o

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return id(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    def __repr__(self):
        return 'SBool(%s)' % T.show(self.p)


def bool_poly(x):
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, SBool):
        return x.p
    if isinstance(x, (int, float)):
        return ONE if x else ZERO
    if isinstance(x, SV):
        return ONE - T.mk_ind('eq', x.p)
    if isinstance(x, SForall):
        return x.as_poly()
    if isinstance(x, SArr):
        return bool_poly(x.item())
    return ONE if x else ZERO


class SForall(object):
    """A universally quantified boolean over index ranges."""

    def __init__(self, dims, fn, neg=False):
        self.dims, self.fn, self.neg = dims, fn, neg

    def as_poly(self):
        return ONE if bool(self) else ZERO

    def __bool__(self):
        r = engine().decide_forall(self)
        return (not r) if self.neg else r

    def __invert__(self):
        return SForall(self.dims, self.fn, not self.neg)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    __hash__ = object.__hash__

    def all(self):
        return self

    any = all


# ----------------------------------------------------------------- arrays
class Cell(object):
    """Mutable contents of an array: index polys -> Poly."""
    __slots__ = ('fn', 'cache', 'name', 'seq')

    def __init__(self, fn):
        self.fn = fn
        self.cache = {}
        self.name = None
        e = Eng.cur
        self.seq = e.new_seq() if e is not None else 0

    def get(self, idx):
        c = CTX()
        key = (c.ver, tuple(idx))
        r = self.cache.get(key)
        if r is None:
            r = self.fn(*idx)
            if not isinstance(r, Poly):
                r = to_poly(r)
            self.cache[key] = r
        return r

    def set(self, fn):
        e = engine()
        if e is not None:
            e.journal_cell(self)
        self.fn = fn
        self.cache = {}


def ite(c, f, g):
    """c ? f() : g() evaluated under the respective assumptions"""
    if c == ONE:
        return f()
    if c.is_zero():
        return g()
    cx = CTX()
    out = ZERO
    cx.push()
    try:
        if cx.assume_bool(c) is not False:
            out = out + c * f()
    finally:
        cx.pop()
    cx.push()
    try:
        nc = ONE - c
        if cx.assume_bool(nc) is not False:
            out = out + nc * g()
    finally:
        cx.pop()
    return out


def dim_poly(d):
    if isinstance(d, Poly):
        return d
    if isinstance(d, SV):
        return d.p
    if isinstance(d, bool) or isinstance(d, int):
        return const(int(d))
    if isinstance(d, float) and d == int(d):
        return const(int(d))
    if isinstance(d, SArr) and not d.shp:
        return d.at([])
    raise TypeError('dimension %r' % (d,))


def same_dim(a, b):
    """Decide equality of two dimensions (may fork)."""
    if a == b:
        return True
    r = CTX().int_decide('eq', a - b)
    if r is not None:
        return r
    return engine().decide(T.mk_ind('eq', a - b))


def _np(name):
    return getattr(engine().world.stubs['numpy'], name)


class SArr(NumLike):
    """shape: tuple of int polys.  cell + imap implement views."""

    def __init__(self, shp, fn=None, dtype='float', cell=None, imap=None,
                 inv=None, flat=None):
        self.shp = tuple(shp)
        self.cell = cell if cell is not None else Cell(fn)
        self.imap = imap          # view index -> base index
        self.inv = inv            # base index -> (cond, view index)
        self.dt = dtype
        # optional (cell contents, reader by flat position), valid while the
        # cell is unmodified
        self.flat = flat
        self.contig = imap is None      # row-major contiguous storage
        self.tag = {}
        e = engine()
        if e is not None and any(d.is_zero() for d in self.shp):
            pass

    # --- element access
    def at(self, idx):
        idx = [to_poly(i) for i in idx]
        if self.imap is not None:
            if self.flat_ok():
                return self.flat[1](ravel(idx, self.shp))
            idx = self.imap(idx)
        return self.cell.get(idx)

    def flat_ok(self):
        return self.flat is not None and self.flat[0] is self.cell.fn

    def snap(self):
        """Immutable reader of the present contents."""
        fn = Cell(self.cell.fn)
        fn.cache = self.cell.cache
        im = self.imap
        if im is None:
            return fn.get
        if self.flat_ok():
            fl, shp = self.flat[1], self.shp
            return lambda idx: fl(ravel(idx, shp))
        return lambda idx: fn.get(im(idx))

    def flat_at(self, t):
        """element at flat (row-major) position t"""
        if self.flat_ok():
            return self.flat[1](t)
        return self.at(unravel(t, self.shp))

    # --- attributes
    @property
    def shape(self):
        return tuple(wrap_int(d) for d in self.shp)

    @shape.setter
    def shape(self, s):
        r = reshape(self, s)
        self.shp, self.cell, self.imap, self.inv = \
            r.shp, r.cell, r.imap, r.inv
        self.tag = {}

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        return wrap_int(prod_poly(self.shp))

    @property
    def dtype(self):
        return _Dtype(self.dt)

    @property
    def T(self):
        return transpose(self)

    def __len__(self):
        if not self.shp:
            raise TypeError('len() of unsized object')
        r = wrap_int(self.shp[0])
        if isinstance(r, int):
            return r
        raise Unsupported('len of symbolic array')

    def vlen(self):
        if not self.shp:
            raise TypeError('len() of unsized object')
        return wrap_int(self.shp[0])

    def __iter__(self):
        n = self.shp[0]
        if n.is_const():
            for i in range(int(n.const())):
                yield self[i]
        else:
            raise Unsupported('iteration over symbolic array')

    def __bool__(self):
        if all(d == ONE for d in self.shp):
            v = self.at([ZERO] * len(self.shp))
            if self.dt == 'bool':
                return engine().decide(v)
            return engine().decide(ONE - T.mk_ind('eq', v))
        raise ValueError('The truth value of an array is ambiguous')

    def __index__(self):
        return self.item().__index__()

    def __float__(self):
        raise Unsupported('float() of array')

    def item(self, *ix):
        if ix:
            return self[ix[0] if len(ix) == 1 and isinstance(
                ix[0], tuple) else ix]
        if not all(d == ONE for d in self.shp):
            raise ValueError('can only convert an array of size 1')
        return mk_scalar(self.at([ZERO] * len(self.shp)), self.dt)

    def __repr__(self):
        return 'SArr%s' % (tuple(T.show(d) for d in self.shp),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # --- copies
    def copy(self, order='C'):
        g = self.snap()
        r = SArr(self.shp, lambda *i: g(list(i)), self.dt)
        st = self.get_struct()
        if st is not None:
            r.set_struct(st)
        return r

    # the list of segments the array was built from (while unmodified)
    def set_struct(self, vl):
        self.tag['struct'] = (self.cell.fn, vl)

    def get_struct(self):
        st = self.tag.get('struct')
        if st is not None and self.imap is None and st[0] is self.cell.fn:
            return st[1]
        return None

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        r = self.copy()
        for k, v in self.tag.items():
            if k not in ('T_of', 'struct'):
                r.tag[k] = v
        memo[id(self)] = r
        return r

    def flatten(self, order='C'):
        if order == 'F' and len(self.shp) > 1:
            return transpose(self).copy().flatten()
        if order not in ('C', 'F'):
            raise Unsupported('order')
        if len(self.shp) == 1:
            return self.copy()
        r = reshape(self, (-1,))
        return r.copy()

    def ravel(self, order='C'):
        if order != 'C':
            raise Unsupported('order')
        return reshape(self, (-1,))

    def var(self, axis=None, ddof=0):
        return _np('var')(self, axis, ddof)

    def std(self, axis=None):
        return _np('std')(self, axis)

    def clip(self, lo=None, hi=None):
        return _np('clip')(self, lo, hi)

    def repeat(self, n, axis=None):
        return _np('repeat')(self, n, axis)

    def swapaxes(self, i, j):
        return _np('swapaxes')(self, i, j)

    def cumsum(self, axis=None):
        return _np('cumsum')(self, axis)

    def reshape(self, *shape, **kw):
        if kw.get('order', 'C') != 'C':
            raise Unsupported('order')
        if len(shape) == 1:
            shape = shape[0]
        return reshape(self, shape)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list, VList)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def astype(self, t, **kw):
        r = self.copy()
        r.dt = dtype_name(t)
        if r.dt == 'int' and self.dt == 'float':
            g = self.snap()
            return SArr(self.shp, lambda *i: to_int_poly(g(list(i))), 'int')
        return r

    def tolist(self):
        return self

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, keepdims=False, **kw):
        return np_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **kw):
        return np_mean(self, axis, keepdims)

    def prod(self, axis=None):
        return np_prod(self, axis)

    def max(self, axis=None, **kw):
        return np_max(self, axis)

    def min(self, axis=None, **kw):
        return np_min(self, axis)

    def dot(self, o):
        return np_dot(self, o)

    def all(self, axis=None):
        return np_all(self, axis)

    def any(self, axis=None):
        return np_any(self, axis)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return np_diagonal(self, offset, axis1, axis2)

    def trace(self):
        return np_trace(self)

    def nonzero(self):
        return np_nonzero(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __and__(self, o):
        return elementwise(lambda a, b: a * b, self, o, dtype='bool')

    __rand__ = __and__

    def __or__(self, o):
        return elementwise(lambda a, b: a + b - a * b, self, o, dtype='bool')

    __ror__ = __or__

    def __invert__(self):
        return elementwise(lambda a: ONE - a, self, dtype='bool')

    # --- in place
    def _inplace(self, f, o):
        r = elementwise(f, self, o)
        if self.dt == 'int' and (
                f is p_div or asarr(o).dt == 'float'
                if isinstance(o, (SArr, VList, list, tuple)) else
                f is p_div or isinstance(o, float) or isinstance(o, SV) and
                not T.poly_is_int(o.p)):
            raise TypeError('Cannot cast ufunc output from float to int')
        if not isinstance(r, SArr) or len(r.shp) != len(self.shp):
            if isinstance(r, SArr):
                raise ValueError('non-broadcastable output operand')
            v = r.p
            assign_view(self, lambda *i: v)
            return self
        for a, b in zip(r.shp, self.shp):
            if not same_dim(a, b):
                raise ValueError('non-broadcastable output operand')
        g = r.snap()
        assign_view(self, lambda *i: g(list(i)))
        return self

    def __iadd__(self, o):
        return self._inplace(lambda a, b: a + b, o)

    def __isub__(self, o):
        return self._inplace(lambda a, b: a - b, o)

    def __imul__(self, o):
        return self._inplace(lambda a, b: a * b, o)

    def __itruediv__(self, o):
        return self._inplace(p_div, o)

    # --- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        return setitem(self, key, val)


def mk_scalar(p, dt='float'):
    if dt == 'bool':
        return wrap(p, True)
    if dt == 'int':
        return wrap_int(p)
    return SV(p)


def dtype_name(t):
    if t in (float, 'float', 'float64', 'd') or t is None:
        return 'float'
    if t in (int, 'int', 'int64'):
        return 'int'
    if t in (bool, 'bool'):
        return 'bool'
    if isinstance(t, _Dtype):
        return t.name
    nm = getattr(t, '__name__', None)
    if isinstance(t, type) and nm in ('float', 'int', 'bool'):
        return nm
    if t in ('bool_', '?', 'b1', 'int32', 'f8', 'i8'):
        return {'f': 'float', 'i': 'int'}.get(t[0], 'bool')
    raise Unsupported('dtype %r' % (t,))


def to_int_poly(p):
    if T.poly_is_int(p):
        return p
    if p.is_const():
        c = p.const()
        return const(int(c))
    q = T.cancel(p)
    if T.poly_is_int(q):
        return q
    # int(n / k): floor division of a non-negative integer term
    den = 1
    for m, c in p.d.items():
        den = den * c.denominator // T._gcd(den, c.denominator)
    num = p.scale(den)
    if T.poly_is_int(num) and (CTX().nonneg(num)):
        return T.mk_idiv(num, const(den))
    raise Unsupported('int() of %s' % T.show(p))


def prod_poly(ds):
    out = ONE
    for d in ds:
        out = out * d
    return out


def is_arr(x):
    return isinstance(x, SArr)


def asarr(x):
    """numpy's asarray"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SV):
        return SArr((), lambda: x.p)
    if isinstance(x, SBool):
        return SArr((), lambda: x.p, 'bool')
    if isinstance(x, bool):
        p = ONE if x else ZERO
        return SArr((), lambda: p, 'bool')
    if isinstance(x, int):
        p = const(x)
        return SArr((), lambda: p, 'int')
    if isinstance(x, (float, Fr)):
        p = to_poly(x)
        return SArr((), lambda: p)
    if isinstance(x, SForall):
        return asarr(bool(x))
    if isinstance(x, SRange):
        return x.to_array()
    if isinstance(x, range):
        return asarr(list(x))
    if hasattr(x, 'to_array'):
        return x.to_array()
    if isinstance(x, VList):
        return stack_list(x)
    if isinstance(x, (list, tuple)):
        return stack_list(VList(list(x)))
    if hasattr(x, 'is_sparse'):
        raise Unsupported('asarray of sparse')
    raise Unsupported('asarray %r' % type(x))


def broadcast_shapes(s1, s2):
    n = max(len(s1), len(s2))
    a = (ONE,) * (n - len(s1)) + tuple(s1)
    b = (ONE,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
        elif x == ONE:
            out.append(y)
        elif y == ONE:
            out.append(x)
        elif CTX().int_decide('eq', x - y) is True:
            out.append(x)
        elif engine().decide(T.mk_ind('eq', x - y)):
            out.append(x)
        elif engine().decide(T.mk_ind('eq', x - ONE)):
            out.append(y)
        elif engine().decide(T.mk_ind('eq', y - ONE)):
            out.append(x)
        else:
            raise ValueError('operands could not be broadcast together')
    return tuple(out)


def is_one(d):
    return d == ONE or CTX().int_decide('eq', d - ONE) is True


def reader(a, shp):
    """reader of array a broadcast to shape shp"""
    g = a.snap()
    k = len(shp) - len(a.shp)
    ones = [is_one(d) and not (shp[k + i] == ONE)
            for i, d in enumerate(a.shp)]
    if not any(ones) and k == 0:
        return g

    def f(idx):
        idx = idx[k:]
        return g([ZERO if o else i for i, o in zip(idx, ones)])
    return f


def map_struct(f, arrs, out):
    """keep the segment structure of one operand, the others scalars"""
    big = [k for k, a in enumerate(arrs) if a.shp]
    if len(big) != 1:
        return
    st = arrs[big[0]].get_struct()
    if st is None:
        return
    vals = [a.at([]) if not a.shp else None for a in arrs]

    def leaf(x):
        x = asarr(x)
        if x.shp:
            return elementwise(f, *[x if v is None else mk_scalar(v)
                                    for v in vals])
        return mk_scalar(f(*[x.at([]) if v is None else v for v in vals]),
                         out.dt)
    out.set_struct(VList(map_segs(st.segs, leaf)))


def elementwise(f, *args, **kw):
    dt = kw.get('dtype')
    if any(getattr(x, 'is_sparse', False) for x in args):
        return sparse_elementwise(f, args)
    if any(isinstance(x, (SArr, VList, list, tuple, SRange)) for x in args):
        arrs = [asarr(x) for x in args]
        shp = arrs[0].shp
        for a in arrs[1:]:
            shp = broadcast_shapes(shp, a.shp)
        if not shp and not any(isinstance(x, SArr) and False for x in args):
            return mk_scalar(f(*[a.at([]) for a in arrs]), dt or 'float')
        rs = [reader(a, shp) for a in arrs]
        if dt is None:
            dts = [a.dt for a in arrs]
            dt = 'int' if all(d == 'int' for d in dts) and f is not p_div \
                else 'float'
        # keep flat access when no broadcasting happens
        flat = None
        full_ops = [a for a in arrs if a.shp == shp]
        if all((a.shp == shp or not a.shp) for a in arrs):
            frs = []
            for a in arrs:
                if a.shp == shp and a.flat_ok():
                    frs.append(a.flat[1])
                elif not a.shp:
                    frs.append((lambda v: (lambda t: v))(a.at([])))
                else:
                    frs = None
                    break
            if frs is not None:
                def flat(t):
                    return f(*[r(t) for r in frs])

        def fn(*idx):
            return f(*[r(list(idx)) for r in rs])
        out = SArr(shp, fn, dt)
        if flat is not None:
            out.flat = (out.cell.fn, flat)
        if len(shp) == 1:
            map_struct(f, arrs, out)
        return out
    for x in args:
        if is_inf(x):
            raise Unsupported('arithmetic with inf')
        if not isinstance(x, (SV, SBool, int, float, Fr, bool)):
            return NotImplemented
    ps = [to_poly(x.p if isinstance(x, SBool) else x) for x in args]
    r = f(*ps)
    return mk_scalar(r, dt or 'float')


def sparse_elementwise(f, args):
    raise Unsupported('elementwise on sparse')


def compare(kind, a, b):
    if isinstance(a, (SArr, VList, list, tuple)) or \
            isinstance(b, (SArr, VList, list, tuple)):
        if is_inf(a) or is_inf(b):
            arr = a if isinstance(a, SArr) else b
            r = _cmp(kind, a if is_inf(a) else SV(ZERO),
                     b if is_inf(b) else SV(ZERO))
            p = ONE if r else ZERO
            return SArr(arr.shp, lambda *i: p, 'bool')
        if b is None or a is None:
            return kind == 'ne'
        return elementwise(lambda x, y: cmp_poly(kind, x, y), a, b,
                           dtype='bool')
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return kind == 'ne'
    for x in (a, b):
        if not isinstance(x, (SV, SBool, int, float, Fr, bool)):
            return NotImplemented
    return _cmp(kind, a, b)


# ---------------------------------------------------------------- ranges
class SRange(object):
    """range(lo, hi) with symbolic bounds (step 1)."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    @property
    def n(self):
        return self.hi - self.lo

    def vlen(self):
        return wrap_int(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                if i.step in (None, 1):
                    return self
                if i.step == -1:
                    return self.__reversed__()
            raise Unsupported('slice of range')
        i = to_poly(i)
        if engine().decide(T.mk_ind('ge', -i - ONE)):
            i = i + self.n
        if not engine().decide(T.mk_ind('ge', i) *
                               T.mk_ind('ge', self.n - ONE - i)):
            raise IndexError('range object index out of range')
        return wrap_int(self.lo + i)

    def __reversed__(self):
        from .vcrt import SymIter
        hi = self.hi
        return SymIter(self.n, lambda j: wrap_int(hi - ONE - j))

    def to_array(self):
        lo = self.lo
        return SArr((self.n,), lambda i: lo + i, 'int')

    def __eq__(self, o):
        if isinstance(o, range):
            o = SRange(const(o.start), const(o.stop))
        return isinstance(o, SRange) and self.lo == o.lo and self.hi == o.hi

    def __hash__(self):
        return hash((self.lo, self.hi))

    def __iter__(self):
        if self.n.is_const() and self.lo.is_const():
            return iter(range(int(self.lo.const()), int(self.hi.const())))
        raise Unsupported('iteration over a symbolic range')

    def __repr__(self):
        return 'range(%s, %s)' % (T.show(self.lo), T.show(self.hi))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mk_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    ps = []
    for x in a:
        if isinstance(x, float):
            raise TypeError("'float' object cannot be interpreted as integer")
        p = to_poly(x)
        if not T.poly_is_int(p):
            raise TypeError('non-integer range bound %s' % T.show(p))
        ps.append(p)
    if len(ps) == 1:
        lo, hi = ZERO, ps[0]
    else:
        lo, hi = ps[0], ps[1]
        if len(ps) == 3 and ps[2] != ONE:
            if all(p.is_int_const() for p in ps):
                return range(*[int(p.const()) for p in ps])
            st = ps[2]
            if st == -ONE:
                r = mk_range(wrap_int(hi + ONE), wrap_int(lo + ONE))
                return r[::-1]
            if CTX().int_decide('ge', st - ONE) is not True:
                raise Unsupported('range step')
            if not engine().decide(T.mk_ind('ge', hi - lo - ONE)):
                return range(0)
            from .vcrt import SymIter
            return SymIter(T.mk_idiv(hi - lo - ONE, st) + ONE,
                           lambda j: wrap_int(lo + j * st))
    if lo.is_const() and hi.is_const():
        return range(int(lo.const()), int(hi.const()))
    if CTX().int_decide('ge', hi - lo) is not True and \
            not engine().decide(T.mk_ind('ge', hi - lo)):
        return range(0)
    return SRange(lo, hi)


# ------------------------------------------------------------------ lists
class For(object):
    """A block of list items: for k in 0..n-1: items (with k free)."""
    __slots__ = ('k', 'n', 'segs')

    def __init__(self, k, n, segs):
        self.k, self.n, self.segs = k, n, segs   # k: Poly (bare int var)


class When(For):
    """items present if the 0/1 term n is 1 (k does not occur in them)"""
    __slots__ = ()


class VList(object):
    """A Python list whose contents may contain symbolic blocks."""

    def __init__(self, segs=None):
        self.segs = list(segs) if segs is not None else []
        self.guard = None
        e = Eng.cur
        self.seq = e.new_seq() if e is not None else 0

    def _g(self):
        if self.guard is not None:
            raise Unsupported('reading a list that a symbolic loop extends')

    def _j(self):
        e = engine()
        if e is not None:
            e.journal_list(self)

    def concrete(self):
        return not any(isinstance(s, For) for s in self.segs)

    def vlen(self):
        self._g()
        return wrap_int(seg_len(self.segs))

    def __len__(self):
        r = self.vlen()
        if isinstance(r, int):
            return r
        raise Unsupported('len of symbolic list')

    def __bool__(self):
        r = self.vlen()
        if isinstance(r, int):
            return r > 0
        return bool(r > 0)

    def __iter__(self):
        self._g()
        if not self.concrete():
            raise Unsupported('native iteration over symbolic list')
        i = 0
        while i < len(self.segs):
            yield self.segs[i]
            i += 1

    def append(self, x):
        self._j()
        self.segs.append(x)

    def extend(self, o):
        self._j()
        self.segs.extend(as_vlist(o).segs)

    def insert(self, i, x):
        self._need()
        self._j()
        self.segs.insert(i, x)

    def _need(self):
        self._g()
        if not self.concrete():
            raise Unsupported('list operation on symbolic list')

    def pop(self, *a):
        self._need()
        self._j()
        return self.segs.pop(*[operator.index(x) for x in a])

    def remove(self, x):
        self._need()
        for i, y in enumerate(self.segs):
            if y is x or bool(y == x):
                self._j()
                del self.segs[i]
                return
        raise ValueError('list.remove(x): x not in list')

    def index(self, x):
        self._need()
        for i, y in enumerate(self.segs):
            if y is x or bool(y == x):
                return i
        raise ValueError('not in list')

    def count(self, x):
        self._need()
        return builtins.sum(1 for y in self.segs if y is x or bool(y == x))

    def reverse(self):
        self._need()
        self._j()
        self.segs.reverse()

    def sort(self, key=None, reverse=False):
        self._need()
        self._j()
        self.segs.sort(key=key, reverse=reverse)

    def clear(self):
        self._j()
        self.segs = []

    def copy(self):
        return VList(self.segs)

    def __copy__(self):
        return VList(self.segs)

    def __deepcopy__(self, memo):
        import copy
        if id(self) in memo:
            return memo[id(self)]
        r = VList()
        memo[id(self)] = r
        self._g()
        if self.concrete():
            r.segs = [copy.deepcopy(x, memo) for x in self.segs]
        else:
            r.segs = list(self.segs)
        return r

    def __add__(self, o):
        if not isinstance(o, (VList, list)):
            return NotImplemented
        return VList(self.segs + as_vlist(o).segs)

    def __radd__(self, o):
        if not isinstance(o, (VList, list)):
            return NotImplemented
        return VList(as_vlist(o).segs + self.segs)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        if isinstance(n, int):
            return VList(self.segs * n)
        if isinstance(n, SV):
            return VList([For(T.fresh('k'), n.p, list(self.segs))])
        return NotImplemented

    __rmul__ = __mul__

    def __getitem__(self, i):
        self._g()
        if isinstance(i, slice):
            if self.concrete():
                return VList(self.segs[i])
            raise Unsupported('slice of symbolic list')
        if self.concrete() and (isinstance(i, int) or
                                (isinstance(i, SV) and i.p.is_int_const())):
            return self.segs[operator.index(i)]
        return seg_at(self.segs, to_poly(i))

    def __setitem__(self, i, v):
        self._need()
        self._j()
        if isinstance(i, slice):
            self.segs[i] = list(as_vlist(v).segs)
        else:
            self.segs[operator.index(i)] = v

    def __delitem__(self, i):
        self._need()
        self._j()
        del self.segs[operator.index(i)]

    def __contains__(self, x):
        self._need()
        return any(y is x or bool(y == x) for y in self.segs)

    def __eq__(self, o):
        if isinstance(o, (SArr,)):
            return compare('eq', self, o)
        if not isinstance(o, (VList, list)):
            return False
        a, b = self.segs, as_vlist(o).segs
        if not self.concrete() or not as_vlist(o).concrete():
            raise Unsupported('comparison of symbolic lists')
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is y:
                continue
            if not bool(x == y):
                return False
        return True

    def __ne__(self, o):
        r = self == o
        return not r

    def __hash__(self):
        raise TypeError('unhashable type: list')

    def __repr__(self):
        return 'VList(%r)' % (self.segs,)

    # numpy interop when lists meet arrays
    def __rsub__(self, o):
        return elementwise(lambda a, b: a - b, o, self)


def as_vlist(o):
    if isinstance(o, VList):
        return o
    if isinstance(o, SRange):
        k = T.fresh('k')
        return VList([For(k, o.n, [wrap_int(o.lo + k)])])
    if isinstance(o, SArr):
        n = o.shp[0]
        if n.is_const():
            return VList([o[i] for i in range(int(n.const()))])
        k = T.fresh('k')
        c = CTX()
        c.push()
        try:
            c.add_range(k, n)
            it = o[SV(k)]
        finally:
            c.pop()
        return VList([For(k, n, [it])])
    return VList(list(o))


def seg_len(segs):
    n = ZERO
    for s in segs:
        if isinstance(s, For):
            if s.segs:
                inner = seg_len(s.segs)
                if the_atom(s.k) in inner.fv():
                    n = n + T.mk_sum(s.k, s.n, inner)
                else:
                    n = n + s.n * inner
        else:
            n = n + ONE
    return n


def subst_val(v, mp):
    """Substitute index variables in a value."""
    if isinstance(v, SV):
        return SV(T.subst(v.p, mp))
    if isinstance(v, SBool):
        return wrap(T.subst(v.p, mp), True)
    if isinstance(v, (int, float, str, bool, type(None), Fr)):
        return v
    if isinstance(v, SArr):
        return subst_arr(v, mp)
    if isinstance(v, tuple):
        return tuple(subst_val(x, mp) for x in v)
    if isinstance(v, VList):
        return VList([subst_seg(s, mp) for s in v.segs])
    if isinstance(v, SRange):
        return SRange(T.subst(v.lo, mp), T.subst(v.hi, mp))
    if hasattr(v, 'vc_subst'):
        return v.vc_subst(mp)
    if callable(v):
        for x in closed_over(v):
            if isinstance(x, (SV, SBool)):
                if x.p.fv() & set(mp):
                    raise Unsupported('function made in a symbolic loop')
            elif isinstance(x, (SArr, VList, SRange)):
                if value_atoms(x) & set(mp):
                    raise Unsupported('function made in a symbolic loop')
        return v
    raise Unsupported('substitution in %r' % type(v))


def closed_over(f):
    """the values a function captured"""
    out = []
    for c in getattr(f, '__closure__', None) or ():
        try:
            out.append(c.cell_contents)
        except ValueError:
            pass
    out.extend(getattr(f, '__defaults__', None) or ())
    out.extend((getattr(f, '__kwdefaults__', None) or {}).values())
    return out


def value_atoms(x):
    if isinstance(x, (SV, SBool)):
        return x.p.fv()
    if isinstance(x, SRange):
        return x.lo.fv() | x.hi.fv()
    if isinstance(x, SArr):
        ps = [T.fresh('l') for _ in x.shp]
        c = CTX()
        c.push()
        try:
            for p, d in zip(ps, x.shp):
                c.add_range(p, d)
            r = set(x.at(ps).fv())
        finally:
            c.pop()
        for d in x.shp:
            r |= d.fv()
        return r
    if isinstance(x, VList):
        r = set()
        for s in x.segs:
            r |= {None} if isinstance(s, For) else set(value_atoms(s))
        return r
    return set()


def subst_arr(v, mp):
    g = v.snap()
    shp = tuple(T.subst(d, mp) for d in v.shp)

    def fn(*idx):
        # rename the substituted variables apart from the index arguments
        ivs = [T.fresh('l') for _ in idx]
        c = CTX()
        c.push()
        try:
            for a, q in mp.items():
                c.add_alias(a, q)
            for iv, d in zip(ivs, v.shp):
                c.add_range(iv, d)
            body = g(list(ivs))
        finally:
            c.pop()
        m2 = dict(mp)
        for iv, x in zip(ivs, idx):
            m2[the_atom(iv)] = x
        return T.subst(body, m2)
    r = SArr(shp, fn, v.dt)
    return r


def subst_seg(s, mp):
    if isinstance(s, For):
        return type(s)(s.k, T.subst(s.n, mp),
                       [subst_seg(x, mp) for x in s.segs])
    return subst_val(s, mp)


def seg_at(segs, i):
    """Element at position i (Poly) of a structured list."""
    if i.is_const() and i.const() < 0:
        i = i + seg_len(segs)
    off = ZERO
    for n_, s in enumerate(segs):
        ln = s_len(s)
        j = i - off
        last = n_ == len(segs) - 1
        # is 0 <= j < ln ?
        c = T.mk_ind('ge', ln - ONE - j)
        c0 = T.mk_ind('ge', j)
        both = c * c0
        if both == ONE:
            return seg_item(s, j)
        if not c.is_zero():
            r = engine().decide(c)
            if r:
                return seg_item(s, j)
        off = off + ln
    raise IndexError('list index out of range')


def s_len(s):
    return seg_len([s])


def seg_item(s, j):
    if not isinstance(s, For):
        return s
    inner = seg_len(s.segs)
    ka = the_atom(s.k)
    if ka in inner.fv():
        raise Unsupported('index into ragged list')
    if inner == ONE and len(s.segs) == 1 and not isinstance(s.segs[0], For):
        return subst_val(s.segs[0], {ka: j})
    q = T.mk_idiv(j, inner)
    r = T.mk_imod(j, inner)
    item = seg_at(s.segs, r)
    return subst_val(item, {ka: q})


# ------------------------------------------------------------- structured
def unravel(t, shp):
    """flat position -> multi index (row major)"""
    if len(shp) == 1:
        return [t]
    idx = []
    for d in reversed(shp[1:]):
        idx.append(T.mk_imod(t, d))
        t = T.mk_idiv(t, d)
    idx.append(t)
    return list(reversed(idx))


def ravel(idx, shp):
    t = ZERO
    for i, d in zip(idx, shp):
        t = t * d + i
        if T.has_mod(t):
            t = T.fold_divmod(t)
    return t


def norm_shape(shape, size=None):
    if isinstance(shape, SArr):
        n = shape.shp[0]
        shape = tuple(shape[i] for i in range(int(n.const())))
    if isinstance(shape, (int, SV)):
        shape = (shape,)
    shape = tuple(shape)
    ds = []
    neg = None
    for i, d in enumerate(shape):
        if isinstance(d, int) and d == -1:
            neg = i
            ds.append(ONE)
        else:
            ds.append(dim_poly(d))
    if neg is not None:
        rest = prod_poly(ds)
        if rest == ONE:
            ds[neg] = size
        else:
            q, r = T._divmod(size, rest)
            if not r.is_zero():
                raise Unsupported('reshape -1')
            ds[neg] = q
    return tuple(ds)


def reshape(a, shape, order='C'):
    a = asarr(a)
    size = prod_poly(a.shp)
    shp = norm_shape(shape, size)
    if shp == a.shp:
        return a[...] if a.shp else a
    new = prod_poly(shp)
    if new != size and not same_dim(new, size):
        raise ValueError('cannot reshape array')
    old = a.shp
    # insertion / removal of unit axes keeps the other indices
    if [d for d in old if d != ONE] == [d for d in shp if d != ONE]:
        def moved(idx, frm, to):
            rest = [i for i, d in zip(idx, frm) if d != ONE]
            out = []
            k = 0
            for d in to:
                if d == ONE:
                    out.append(ZERO)
                else:
                    out.append(rest[k])
                    k += 1
            return out
    else:
        def moved(idx, frm, to):
            return unravel(ravel(idx, frm), to)
        if not a.contig:
            # (numpy copies what is not laid out row by row)
            g = a.snap()
            a = SArr(old, lambda *i: g(list(i)), a.dt)

    def imap(idx):
        out = moved(idx, shp, old)
        return out if a.imap is None else a.imap(out)

    def inv(base):
        c = ONE
        if a.imap is not None:
            if a.inv is None:
                raise Unsupported('write through view')
            c, base = a.inv(base)
        return c, moved(base, old, shp)
    r = SArr(shp, None, a.dt, cell=a.cell, imap=imap, inv=inv)
    r.contig = a.contig
    if a.flat_ok():
        r.flat = a.flat
    elif len(old) == 1 and len(shp) > 1:
        # a reshaped flat vector remembers its flat reader
        g = a.snap()
        r.flat = (a.cell.fn, lambda t: g([t]))
    return r


def transpose(a, axes=None):
    a = asarr(a)
    n = len(a.shp)
    if n < 2 and axes is None:
        return a
    if axes is None:
        axes = tuple(reversed(range(n)))
    axes = tuple(operator.index(x) % n for x in axes)
    shp = tuple(a.shp[x] for x in axes)

    def imap(idx):
        out = [None] * n
        for k, x in enumerate(axes):
            out[x] = idx[k]
        return out if a.imap is None else a.imap(out)

    def inv(base):
        c = ONE
        if a.imap is not None:
            if a.inv is None:
                raise Unsupported('write through view')
            c, base = a.inv(base)
        return c, [base[x] for x in axes]
    r = SArr(shp, None, a.dt, cell=a.cell, imap=imap, inv=inv)
    r.tag = {'T_of': a}
    return r


def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
        keep = []
        for i, d in enumerate(a.shp):
            if d == ONE:
                continue
            if d.is_const() or CTX().int_decide('eq', d - ONE) is False:
                keep.append(i)
            elif engine().decide(T.mk_ind('eq', d - ONE)):
                continue
            else:
                keep.append(i)
    else:
        axs = axis if isinstance(axis, tuple) else (axis,)
        axs = [x % len(a.shp) for x in axs]
        for x in axs:
            if not same_dim(a.shp[x], ONE):
                raise ValueError('cannot select an axis to squeeze out')
        keep = [i for i in range(len(a.shp)) if i not in axs]
    n = len(a.shp)
    shp = tuple(a.shp[i] for i in keep)

    def imap(idx):
        out = [ZERO] * n
        for k, i in enumerate(keep):
            out[i] = idx[k]
        return out if a.imap is None else a.imap(out)

    def inv(base):
        c = ONE
        if a.imap is not None:
            if a.inv is None:
                raise Unsupported('write through view')
            c, base = a.inv(base)
        return c, [base[i] for i in keep]
    r = SArr(shp, None, a.dt, cell=a.cell, imap=imap, inv=inv)
    r.contig = a.contig
    return r


# --------------------------------------------------------------- indexing
def norm_index(i, d):
    """scalar index with negative wrap; bounds obligation"""
    p = to_poly(i)
    if p.is_const():
        if p.const() < 0:
            p = p + d
    else:
        if CTX().int_decide('ge', p) is None:
            # python's negative wrap cannot be excluded
            if engine().decide(T.mk_ind('ge', p)) is False:
                p = p + d
        elif CTX().int_decide('ge', p) is False:
            p = p + d
    # bounds
    c = T.mk_ind('ge', p) * T.mk_ind('ge', d - ONE - p)
    if c != ONE:
        if not engine().decide(c):
            raise IndexError('index out of bounds')
    return p


def clamp_slice(s, d):
    """-> (lo, n) for a step-1 slice of an axis of length d, None for a
    reversal, (lo, n, step) for larger steps"""
    if s.step is not None and s.step != 1:
        if s.step == -1 and s.start is None and s.stop is None:
            return None
        if isinstance(s.step, int) and s.step > 1:
            lo, n = clamp_slice(slice(s.start, s.stop), d)
            st = const(s.step)
            return lo, T.mk_idiv(n + st - ONE, st), st
        raise Unsupported('slice step')
    cx = CTX()

    def norm(v, default):
        if v is None:
            return default
        p = to_poly(v)
        if p.is_const() and p.const() < 0:
            p = p + d
            r = cx.int_decide('ge', p)
            if r is None:
                r = engine().decide(T.mk_ind('ge', p))
            if r is False:
                p = ZERO
        elif not p.is_const() and cx.int_decide('ge', p) is None:
            if not engine().decide(T.mk_ind('ge', p)):
                raise Unsupported('negative symbolic slice bound')
        r = cx.int_decide('ge', d - p)
        if r is None:
            r = engine().decide(T.mk_ind('ge', d - p))
        if r is False:
            p = d
        return p
    lo = norm(s.start, ZERO)
    hi = norm(s.stop, d)
    n = hi - lo
    r = cx.int_decide('ge', n)
    if r is None:
        r = engine().decide(T.mk_ind('ge', n))
    if r is False:
        n = ZERO
    return lo, n


def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(key)
    out = []
    nspec = 0
    for k in key:
        if isinstance(k, SArr) and k.dt == 'bool' and k.shp:
            nspec += len(k.shp)
        elif k is not None and k is not Ellipsis:
            nspec += 1
    if not any(k is Ellipsis for k in key):
        key = key + (Ellipsis,)
    for k in key:
        if k is Ellipsis:
            out.extend([slice(None)] * (len(a.shp) - nspec))
        else:
            out.append(k)
    if nspec > len(a.shp):
        raise IndexError('too many indices for array')
    return out


def is_advanced(k):
    return isinstance(k, (VList, list, SRange, range)) or \
        (isinstance(k, SArr) and bool(k.shp)) or \
        (isinstance(k, tuple))


def getitem(a, key):
    if isinstance(key, SArr) and key.dt == 'bool' and key.shp:
        return mask_get(a, key)
    ks = norm_key(a, key)
    if any(isinstance(k, SArr) and k.dt == 'bool' and k.shp for k in ks):
        return mask_axis_get(a, ks)
    if any(is_advanced(k) for k in ks):
        return advanced_get(a, ks)
    spec, shp = basic_spec(a, ks)
    if not shp:
        idx = [s[1] for s in spec]
        return mk_scalar(a.at(idx), a.dt)
    return make_view(a, spec, shp)


def basic_spec(a, ks):
    """per base axis: ('fix', e) or ('ax', view_axis, offset)"""
    spec = []
    shp = []
    ax = 0
    for k in ks:
        if k is None:
            shp.append(ONE)
            continue
        d = a.shp[ax]
        if isinstance(k, slice):
            r = clamp_slice(k, d)
            if r is None:
                spec.append(('rev', len(shp), d))
                shp.append(d)
            else:
                if len(r) == 3:
                    spec.append(('st', len(shp), r[0], r[2]))
                else:
                    spec.append(('ax', len(shp), r[0]))
                shp.append(r[1])
        else:
            if isinstance(k, SArr):
                k = k.item()
            if isinstance(k, (bool, SBool)):
                raise Unsupported('boolean scalar index')
            if isinstance(k, float):
                raise IndexError('only integers are valid indices')
            spec.append(('fix', norm_index(k, d)))
        ax += 1
    return spec, tuple(shp)


def make_view(a, spec, shp):
    nb = len(spec)

    def imap(idx):
        out = []
        for s in spec:
            if s[0] == 'fix':
                out.append(s[1])
            elif s[0] == 'ax':
                out.append(idx[s[1]] + s[2])
            elif s[0] == 'st':
                out.append(idx[s[1]] * s[3] + s[2])
            else:
                out.append(s[2] - ONE - idx[s[1]])
        return out if a.imap is None else a.imap(out)

    def inv(base):
        c = ONE
        if a.imap is not None:
            if a.inv is None:
                raise Unsupported('write through view')
            c, base = a.inv(base)
        idx = [ZERO] * len(shp)
        for s, b, d in zip(spec, base, a.shp):
            # (positions of a are within its shape)
            if s[0] == 'fix':
                c = c * T.mk_ind('eq', b - s[1])
            elif s[0] == 'ax':
                v = b - s[2]
                if not s[2].is_zero():
                    c = c * T.mk_ind('ge', v)
                if s[2] + shp[s[1]] != d:
                    c = c * T.mk_ind('ge', shp[s[1]] - ONE - v)
                idx[s[1]] = v
            elif s[0] == 'st':
                v = b - s[2]
                q = T.mk_idiv(v, s[3])
                c = c * T.mk_ind('ge', v) * T.mk_ind(
                    'ge', shp[s[1]] - ONE - q) * T.mk_ind(
                        'eq', T.mk_imod(v, s[3]))
                idx[s[1]] = q
            else:
                idx[s[1]] = s[2] - ONE - b
        return c, idx
    r = SArr(shp, None, a.dt, cell=a.cell, imap=imap, inv=inv)
    lead = True
    r.contig = a.contig
    for s, d in zip(spec, a.shp):
        if lead and s[0] == 'fix':
            continue
        if lead and s[0] == 'ax':
            lead = False
            continue
        if s[0] != 'ax' or shp[s[1]] != d:
            r.contig = False
    return r


def assign_view(v, valfn):
    """v[...] = valfn(view index); v may be an owner or a view."""
    cell = v.cell
    old = Cell(cell.fn)
    if v.imap is None:
        cell.set(lambda *i: valfn(*i))
        return
    if v.inv is None:
        raise Unsupported('write through view')
    inv = v.inv

    def fn(*base):
        c, idx = inv(list(base))
        return ite(c, lambda: valfn(*idx), lambda: old.get(base))
    cell.set(fn)


def value_reader(val, shp):
    """reader of val broadcast to shp"""
    if isinstance(val, (bool, int, float, Fr, SV, SBool)):
        p = to_poly(val.p if isinstance(val, SBool) else val)
        return lambda *i: p
    v = asarr(val)
    # broadcast: trailing alignment, value may have extra unit axes
    vs = v.shp
    while len(vs) > len(shp) and vs[0] == ONE:
        v = v[0]
        if not isinstance(v, SArr):
            p = to_poly(v)
            return lambda *i: p
        vs = v.shp
    if len(vs) > len(shp):
        raise ValueError('could not broadcast input array')
    k = len(shp) - len(vs)
    for x, y in zip(vs, shp[k:]):
        if x != y and x != ONE and not same_dim(x, y):
            raise ValueError('could not broadcast input array')
    r = reader(v, shp)
    return lambda *i: r(list(i))


def check_traced(a, val):
    """autograd cannot assign into arrays while differentiating"""
    live = Eng.cur.live if Eng.cur is not None else ()
    if not live:
        return
    for v in (a, val):
        if isinstance(v, SV):
            p = v.p
        elif isinstance(v, SArr):
            c = CTX()
            c.push()
            try:
                ivs = []
                for d in v.shp:
                    iv = T.fresh('q')
                    c.add_range(iv, d)
                    ivs.append(iv)
                p = v.at(ivs)
            finally:
                c.pop()
        else:
            continue
        if any(h in p.fv() for h in live):
            if v is a:
                raise TypeError("'ArrayBox' object does not support item "
                                "assignment")
            raise ValueError('setting an array element with a sequence.')


def cast_value(a, val):
    """the value as stored in an array of a's type"""
    if a.dt == 'float' or isinstance(val, MaskSel):
        return val
    if isinstance(val, (VList, list, tuple)):
        val = asarr(val)
    if a.dt == 'int':
        if isinstance(val, SArr):
            return val if val.dt != 'float' else val.astype(int)
        if isinstance(val, (SV, float, Fr)) and \
                not T.poly_is_int(to_poly(val)):
            return to_int(val)
    elif a.dt == 'bool':
        if isinstance(val, SArr):
            return val if val.dt == 'bool' else (val != 0)
        if isinstance(val, (SV, float, int, Fr)) and \
                not isinstance(val, bool):
            return SBool(ONE - T.mk_ind('eq', to_poly(val)))
    return val


def setitem(a, key, val):
    check_traced(a, val)
    val = cast_value(a, val)
    if isinstance(key, SArr) and key.dt == 'bool' and key.shp:
        return mask_set(a, key, val)
    if isinstance(val, MaskSel):
        raise Unsupported('masked value')
    ks = norm_key(a, key)
    if any(is_advanced(k) for k in ks):
        return advanced_set(a, ks, val)
    spec, shp = basic_spec(a, ks)
    v = make_view(a, spec, shp)
    assign_view(v, value_reader(val, shp))


class MaskSel(object):
    """a[mask]: the selected entries, in order."""

    def __init__(self, arr, mask):
        self.src, self.mask = arr.snap(), mask.snap()
        self.shp_ = arr.shp
        self.dt = arr.dt
        self.arr = arr
        self.marr = mask

    def to_array(self):
        return mask_axis_get(self.arr, [self.marr])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.to_array(), n)

    def __getitem__(self, k):
        return self.to_array()[k]


def _ms(name):
    def f(self, *a):
        return getattr(self.to_array(), name)(*a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
           '__rmul__', '__truediv__', '__rtruediv__', '__neg__', '__pow__',
           '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(MaskSel, _n, _ms(_n))
MaskSel.__hash__ = object.__hash__


def mask_get(a, mask):
    if len(mask.shp) != len(a.shp):
        return mask_axis_get(a, norm_key(a, mask))
    for x, y in zip(mask.shp, a.shp):
        if not same_dim(x, y):
            raise IndexError('boolean index did not match')
    return MaskSel(a, mask)


def mask_set(a, mask, val):
    if len(mask.shp) > len(a.shp):
        raise IndexError('too many indices')
    for x, y in zip(mask.shp, a.shp):
        if not same_dim(x, y):
            raise IndexError('boolean index did not match')
    if len(mask.shp) != len(a.shp):
        raise Unsupported('partial mask assignment')
    m = mask.snap()
    old = a.snap()
    if isinstance(val, MaskSel):
        # same mask required
        vm, src = val.mask, val.src
        ok = engine().same_elems(a.shp, m, vm)
        if not ok:
            raise Unsupported('assignment between different masks')
        assign_view(a, lambda *i: ite(m(list(i)), lambda: src(list(i)),
                                      lambda: old(list(i))))
        return
    if isinstance(val, SArr) and not all(d == ONE for d in val.shp):
        raise Unsupported('mask assignment of array')
    p = to_poly(val.p if isinstance(val, SBool) else val)
    assign_view(a, lambda *i: ite(m(list(i)), lambda: p,
                                  lambda: old(list(i))))


def select_symbol(mask):
    """Enumeration of the true positions of a 1-d mask: (count, sel)"""
    m = mask.snap()
    n = mask.shp[0]
    lam = T.mk_lam((n,), lambda ix: m(ix))
    k = T.fresh('s')
    c = CTX()
    c.push()
    try:
        c.add_range(k, n)
        cnt = T.mk_sum(k, n, m([k]))
    finally:
        c.pop()
    if n.is_const():
        # concrete length: decide each entry
        pos = []
        for i in range(int(n.const())):
            if engine().decide(m([const(i)])):
                pos.append(const(i))
        return const(len(pos)), lambda j: pick(pos, j)
    off = tail_mask(m([k]), k, n)
    if off is not None:
        return n - off, lambda j: j + off
    engine().register_mask(lam, m, n, cnt)
    return cnt, lambda j: T.app('I:sel', lam, j)


def tail_mask(p, k, n):
    """offset c if the mask is [k >= c] with 0 <= c <= n"""
    a = the_atom(p)
    if a is None or a.k != 'ind' or a.a[0] != 'ge':
        return None
    ka = the_atom(k)
    sp = T.split_by(a.a[1], ka)
    if sp is None or sp[0] != ONE or ka in sp[1].fv():
        return None
    off = -sp[1]
    c = CTX()
    if c.int_decide('ge', off) is not True or \
            c.int_decide('ge', n - off) is not True:
        return None
    return off


def pick(pos, j):
    if j.is_const():
        return pos[int(j.const())]
    out = ZERO
    for k, p in enumerate(pos):
        out = out + T.mk_ind('eq', j - const(k)) * p
    return out


def mask_axis_get(a, ks):
    ax = 0
    pos = None
    for i, k in enumerate(ks):
        if isinstance(k, SArr) and k.dt == 'bool' and k.shp:
            if len(k.shp) != 1 or pos is not None:
                raise Unsupported('mask indexing')
            pos = i
    if any(k is None for k in ks):
        raise Unsupported('mask with newaxis')
    mask = ks[pos]
    if not same_dim(mask.shp[0], a.shp[pos]):
        raise IndexError('boolean index did not match')
    cnt, sel = select_symbol(mask)
    g = a.snap()
    shp = a.shp[:pos] + (cnt,) + a.shp[pos + 1:]
    r = SArr(shp, lambda *i: g(list(i[:pos]) + [sel(i[pos])] +
                               list(i[pos + 1:])), a.dt)
    rest = list(ks)
    rest[pos] = slice(None)
    if all(isinstance(k, slice) and k == slice(None) for k in rest):
        return r
    return getitem(r, tuple(rest))


def advanced_get(a, ks):
    if any(k is None for k in ks):
        raise Unsupported('advanced indexing with newaxis')
    arrs = []
    for i, k in enumerate(ks):
        if isinstance(k, slice):
            arrs.append(None)
        elif isinstance(k, SArr) or is_advanced(k):
            arrs.append(asarr(k))
        else:
            arrs.append(asarr(k))
    posn = [i for i, x in enumerate(arrs) if x is not None]
    bs = arrs[posn[0]].shp
    for i in posn[1:]:
        bs = broadcast_shapes(bs, arrs[i].shp)
    contiguous = posn == list(range(posn[0], posn[-1] + 1))
    sl = {}
    for i, k in enumerate(ks):
        if arrs[i] is None:
            r = clamp_slice(k, a.shp[i])
            if r is None or len(r) != 2:
                raise Unsupported('slice with a step')
            sl[i] = r
    rs = {i: reader(arrs[i], bs) for i in posn}
    # bounds of the index arrays
    for i in posn:
        engine().index_bounds(bs, rs[i], a.shp[i])
    first = posn[0] if contiguous else 0
    shp = []
    layout = []
    done = False
    if first == 0 or not contiguous:
        shp.extend(bs)
        done = True
    for i in range(len(ks)):
        if arrs[i] is None:
            layout.append((i, len(shp)))
            shp.append(sl[i][1])
        elif not done:
            boff = len(shp)
            shp.extend(bs)
            done = True
    boff = 0 if (first == 0 or not contiguous) else boff
    nb = len(bs)
    lay = dict(layout)
    g = a.snap()
    dims = a.shp

    def fn(*idx):
        bidx = list(idx[boff:boff + nb])
        out = []
        for i in range(len(ks)):
            if i in lay:
                out.append(idx[lay[i]] + sl[i][0])
            else:
                p = rs[i](bidx)
                if p.is_const() and p.const() < 0:
                    p = p + dims[i]
                out.append(p)
        return g(out)
    if not shp:
        return mk_scalar(fn(), a.dt)
    return SArr(tuple(shp), fn, a.dt)


def advanced_set(a, ks, val):
    """a[ix, ...] = val for integer index arrays (positions proved distinct)
    """
    if any(k is None for k in ks):
        raise Unsupported('advanced assignment with newaxis')
    adv = [i for i, k in enumerate(ks) if is_advanced(k)]
    arrs = {}
    for i, k in enumerate(ks):
        if not isinstance(k, slice):
            arrs[i] = asarr(k)
    if len(arrs) != len(ks):
        if len(arrs) == 1 and len(ks) >= 1 and adv == [0] and \
                len(ks) == 1:
            pass
        else:
            raise Unsupported('advanced assignment with slices')
    bs = None
    for i in arrs:
        bs = arrs[i].shp if bs is None else broadcast_shapes(bs, arrs[i].shp)
    rs = [reader(arrs[i], bs) for i in range(len(ks))]
    for i in range(len(ks)):
        engine().index_bounds(bs, rs[i], a.shp[i])
    old = a.snap()
    vr = value_reader(val, bs)
    if all(d.is_const() for d in bs):
        import itertools
        writes = []
        for pt in itertools.product(*[range(int(d.const())) for d in bs]):
            p = [const(x) for x in pt]
            tgt = []
            for i, r in enumerate(rs):
                q = r(p)
                if q.is_const() and q.const() < 0:
                    q = q + a.shp[i]
                tgt.append(q)
            writes.append((tgt, vr(*p)))

        def fn(*idx):
            def go(k):
                if k < 0:
                    return old(list(idx))
                tgt, v = writes[k]
                c = ONE
                for x, y in zip(idx, tgt):
                    c = c * T.mk_ind('eq', x - y)
                return ite(c, lambda: v, lambda: go(k - 1))
            return go(len(writes) - 1)
        assign_view(a, fn)
        return
    # symbolic number of writes at distinct positions: membership indicator
    scalar = isinstance(val, (bool, int, float, Fr, SV, SBool))
    engine().distinct_positions(bs, rs)
    if not scalar:
        def fn3(*idx):
            def at(ix):
                return prod_poly([T.mk_ind('eq', x - r(ix))
                                  for x, r in zip(idx, rs)])
            return sum_over(bs, lambda ix: at(ix) * vr(*ix)) + \
                (ONE - sum_over(bs, at)) * old(list(idx))
        assign_view(a, fn3)
        return
    p = to_poly(val.p if isinstance(val, SBool) else val)

    def hit(idx):
        return sum_over(bs, lambda ix: prod_poly(
            [T.mk_ind('eq', x - r(ix)) for x, r in zip(idx, rs)]))

    def fn2(*idx):
        c = hit(idx)
        return c * p + (ONE - c) * old(list(idx))
    assign_view(a, fn2)


def sum_over(dims, fn):
    """Sum of fn(index list) over the box of dims."""
    c = CTX()
    ivs = []
    c.push()
    try:
        for d in dims:
            if d.is_const():
                ivs.append(None)
            else:
                iv = T.fresh('s')
                c.add_range(iv, d)
                ivs.append(iv)

        def go(k, acc):
            if k == len(dims):
                return fn(acc)
            if ivs[k] is None:
                out = ZERO
                for i in range(int(dims[k].const())):
                    out = out + go(k + 1, acc + [const(i)])
                return out
            return go(k + 1, acc + [ivs[k]])
        body = go(0, [])
        bs = [(the_atom(iv), d) for iv, d in zip(ivs, dims) if iv is not None]
        if not bs:
            return body
        return T.sum_poly(bs, body)
    finally:
        c.pop()


# -------------------------------------------------------- array functions
def full(shape, v, dtype=None):
    shp = norm_shape(shape)
    if isinstance(v, (SArr, VList, list, tuple)):
        r = value_reader(v, shp)
        return SArr(shp, lambda *i: r(*i), asarr(v).dt)
    dt = 'bool' if isinstance(v, (bool, SBool)) else 'float'
    if is_inf(v):
        raise Unsupported('array of inf')
    p = to_poly(v.p if isinstance(v, SBool) else v)
    if dtype is not None:
        dt = dtype_name(dtype)
    r = SArr(shp, lambda *i: p, dt)
    r.flat = (r.cell.fn, lambda t: p)
    return r


def stack_list(vl, newaxis=True):
    """np.array of a (structured) list of scalars / arrays"""
    if not vl.segs:
        return SArr((ZERO,), lambda i: ZERO)
    sample = first_item(vl.segs)
    if isinstance(sample, (VList, list, tuple)):
        vl = VList(map_segs(vl.segs, asarr))
        sample = first_item(vl.segs)
    if isinstance(sample, SRange) or isinstance(sample, range):
        vl = VList(map_segs(vl.segs, asarr))
        sample = first_item(vl.segs)
    if isinstance(sample, SForall):
        vl = VList(map_segs(vl.segs, lambda x: bool(x)))
        sample = first_item(vl.segs)
    if isinstance(sample, MaskSel):
        vl = VList(map_segs(vl.segs, lambda x: x.to_array()))
        sample = first_item(vl.segs)
    if isinstance(sample, (str, type(None))) or (
            not isinstance(sample, (SArr, SV, SBool, int, float, Fr))):
        return ObjArr(vl)
    shp = asarr(sample).shp
    dt = asarr(sample).dt
    for s in vl.segs:
        if isinstance(s, For):
            continue
        b = asarr(s)
        if len(b.shp) != len(shp):
            return ObjArr(vl)
        for x, y in zip(b.shp, shp):
            if not same_dim(x, y):
                return ObjArr(vl)
        if b.dt != dt:
            dt = 'float' if 'float' in (dt, b.dt) else 'int'
    n = seg_len(vl.segs)
    segs = list(vl.segs)
    # snapshot mutable arrays
    segs = map_segs(segs, lambda x: x.copy() if isinstance(x, SArr) else x)

    def fn(i, *rest):
        def val(item):
            if isinstance(item, SArr):
                return item.at(list(rest))
            return to_poly(item.p if isinstance(item, SBool) else item)
        return seg_read(segs, i, val)
    return SArr((n,) + shp, fn, dt)


class ObjArr(object):
    """numpy object array of a list (ragged rows)"""

    def __init__(self, vl):
        self.vl = vl

    def __iter__(self):
        return iter(self.vl)

    def __getitem__(self, i):
        return self.vl[i]

    def vlen(self):
        return self.vl.vlen()


def first_item(segs):
    s = segs[0]
    while isinstance(s, For):
        s = s.segs[0]
    return s


def map_segs(segs, f):
    out = []
    for s in segs:
        if isinstance(s, For):
            c = CTX()
            c.push()
            try:
                c.add_range(s.k, s.n)
                out.append(type(s)(s.k, s.n, map_segs(s.segs, f)))
            finally:
                c.pop()
        else:
            out.append(f(s))
    return out


def seg_read(segs, i, val):
    """Poly: val(item at position i), as an ite over the segments"""
    off = ZERO

    def go(n_, off):
        s = segs[n_]
        ln = s_len(s)
        if n_ == len(segs) - 1:
            return read_one(s, i - off)
        c = T.mk_ind('ge', off + ln - ONE - i)
        return ite(c, lambda: read_one(s, i - off),
                   lambda: go(n_ + 1, off + ln))

    def read_one(s, j):
        if not isinstance(s, For):
            return val(s)
        inner = seg_len(s.segs)
        ka = the_atom(s.k)
        if ka in inner.fv():
            raise Unsupported('index into ragged list')
        if inner == ONE:
            q, r = j, ZERO
        else:
            q, r = T._divmod(j, inner)
        return bind_read(s, q, r)

    def bind_read(s, q, r):
        ka = the_atom(s.k)
        c = CTX()
        nk = T.fresh('b')
        c.push()
        try:
            c.add_range(nk, s.n)
            if r.fv() and not r.is_const():
                pass
            body = seg_read([subst_seg(x, {ka: nk}) for x in s.segs], r, val)
        finally:
            c.pop()
        return T.subst(body, {the_atom(nk): q})
    return go(0, off)


def atleast_1d(a):
    a = asarr(a)
    if not a.shp:
        v = a.at([])
        return SArr((ONE,), lambda i: v, a.dt)
    return a


def concat(parts, axis=0):
    """concatenate a (structured) list of arrays along axis"""
    if isinstance(parts, SArr):
        parts = as_vlist(parts)
    if isinstance(parts, ObjArr):
        parts = parts.vl
    parts = as_vlist(parts) if not isinstance(parts, VList) else parts
    segs = parts.segs
    if not segs:
        raise ValueError('need at least one array to concatenate')
    segs = map_segs(segs, lambda x: asarr(x).copy() if True else x)
    sample = first_item(segs)
    nd = len(sample.shp)
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    dt = sample.dt
    for s in segs:
        if isinstance(s, SArr):
            if len(s.shp) != nd:
                raise ValueError('all the input arrays must have same ndim')
            for k in range(nd):
                if k != axis and not same_dim(s.shp[k], sample.shp[k]):
                    raise ValueError('concatenation dimensions must match')
            if s.dt != dt:
                dt = 'float' if 'float' in (dt, s.dt) else 'int'

    def ln(s):
        if isinstance(s, For):
            inner = ZERO
            for x in s.segs:
                inner = inner + ln(x)
            if the_atom(s.k) in inner.fv():
                return T.mk_sum(s.k, s.n, inner)
            return s.n * inner
        return s.shp[axis]
    total = ZERO
    for s in segs:
        total = total + ln(s)
    shp = list(sample.shp)
    shp[axis] = total

    def read(segs, i, idx):
        def go(n_, off):
            s = segs[n_]
            l_ = ln(s)
            if n_ == len(segs) - 1:
                return one(s, i - off)
            c = T.mk_ind('ge', off + l_ - ONE - i)
            return ite(c, lambda: one(s, i - off), lambda: go(n_ + 1,
                                                              off + l_))

        def one(s, j):
            if isinstance(s, SArr):
                ii = list(idx)
                ii[axis] = j
                return s.at(ii)
            inner = ZERO
            for x in s.segs:
                inner = inner + ln(x)
            ka = the_atom(s.k)
            if ka in inner.fv():
                raise Unsupported('index into ragged concatenation')
            q, r = T._divmod(j, inner)
            return bind(s, q, r)

        def bind(s, q, r):
            ka = the_atom(s.k)
            nk = T.fresh('b')
            c = CTX()
            c.push()
            try:
                c.add_range(nk, s.n)
                body = read([subst_seg(x, {ka: nk}) for x in s.segs], r, idx)
            finally:
                c.pop()
            return T.subst(body, {the_atom(nk): q})
        return go(0, ZERO)

    def fn(*idx):
        return read(segs, idx[axis], idx)
    r = SArr(tuple(shp), fn, dt)
    if nd == 1:
        r.set_struct(VList(segs))
    return r


def np_hstack(parts):
    if isinstance(parts, SArr) and len(parts.shp) == 1:
        return parts.copy()
    vl = as_vlist(parts.vl if isinstance(parts, ObjArr) else parts)
    vl = VList(map_segs(vl.segs, atleast_1d))
    s = first_item(vl.segs) if vl.segs else None
    if s is None:
        raise ValueError('need at least one array to concatenate')
    return concat(vl, 0 if len(s.shp) == 1 else 1)


def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list, VList)):
        return tuple(sorted(operator.index(x) % nd for x in axis))
    ax = operator.index(axis)
    if ax >= nd or ax < -nd:
        raise ValueError('axis out of bounds')
    return (ax % nd,)


def np_sum(a, axis=None, keepdims=False, dtype=None):
    if getattr(a, 'is_sparse', False):
        a = a.toarray()
    if isinstance(a, SV) or is_num(a):
        return a if isinstance(a, SV) else SV(to_poly(a))
    a = asarr(a)
    if not a.shp:
        return mk_scalar(a.at([]), 'int' if a.dt == 'bool' else a.dt)
    axs = norm_axis(axis, len(a.shp))
    g = a.snap()
    dims = [a.shp[i] for i in axs]
    keep = [i for i in range(len(a.shp)) if i not in axs]
    dt = 'int' if a.dt in ('bool', 'int') else 'float'

    def red(kidx):
        def f(ix):
            idx = [None] * len(a_shp)
            for i, x in zip(keep, kidx):
                idx[i] = x
            for i, x in zip(axs, ix):
                idx[i] = x
            return g(idx)
        return sum_over(dims, f)
    a_shp = a.shp
    if keepdims:
        shp = tuple(ONE if i in axs else d for i, d in enumerate(a.shp))
        return SArr(shp, lambda *idx: red([idx[i] for i in keep]), dt)
    if not keep:
        return mk_scalar(red([]), dt)
    return SArr(tuple(a.shp[i] for i in keep), lambda *idx: red(list(idx)),
                dt)


def np_mean(a, axis=None, keepdims=False):
    a = asarr(a)
    axs = norm_axis(axis, len(a.shp))
    n = SV(prod_poly([a.shp[i] for i in axs]))
    return np_sum(a, axis, keepdims) / n


def np_prod(a, axis=None, **kw):
    if isinstance(a, (tuple, list, VList)):
        a = list(a)
        out = ONE
        for x in a:
            out = out * to_poly(x)
        return wrap_int(out) if out.is_int_const() or T.poly_is_int(out) \
            else SV(out)
    a = asarr(a)
    if axis is not None and len(a.shp) != 1:
        raise Unsupported('prod axis')
    out = ONE
    n = prod_poly(a.shp)
    if not n.is_const():
        raise Unsupported('product over symbolic size')
    import itertools
    for pt in itertools.product(*[range(int(d.const())) for d in a.shp]):
        out = out * a.at([const(x) for x in pt])
    return wrap_int(out) if T.poly_is_int(out) else SV(out)


def _opaque_reduce(name, a, axis):
    a = asarr(a)
    axs = norm_axis(axis, len(a.shp))
    if all(a.shp[i] == ONE for i in axs):
        return squeeze(a, tuple(axs)) if len(axs) < len(a.shp) else a.item()
    if axis is None or len(axs) == len(a.shp):
        g = a.snap()
        lam = T.mk_lam(a.shp, lambda ix: g(ix))
        if lam.body.is_const():
            return SV(lam.body)
        return SV(T.app(name, lam))
    g = a.snap()
    keep = [i for i in range(len(a.shp)) if i not in axs]

    def fn(*kidx):
        def el(ix):
            idx = [None] * len(a.shp)
            for i, x in zip(keep, kidx):
                idx[i] = x
            for i, x in zip(axs, ix):
                idx[i] = x
            return g(idx)
        return T.app(name, T.mk_lam(tuple(a.shp[i] for i in axs), el))
    return SArr(tuple(a.shp[i] for i in keep), fn, a.dt)


def np_max(a, axis=None, **kw):
    if isinstance(a, SV) or is_num(a):
        return a
    return _opaque_reduce('maxof', a, axis)


def np_min(a, axis=None, **kw):
    if isinstance(a, SV) or is_num(a):
        return a
    return _opaque_reduce('minof', a, axis)


def np_all(a, axis=None):
    if isinstance(a, (SBool, bool, SForall)):
        return a
    a = asarr(a)
    if axis is not None:
        raise Unsupported('all axis')
    if not a.shp:
        return wrap(a.at([]), True)
    g = a.snap()
    if a.dt != 'bool':
        h = g
        g = lambda ix: ONE - T.mk_ind('eq', h(ix))
    if all(d.is_const() for d in a.shp):
        import itertools
        out = ONE
        for pt in itertools.product(*[range(int(d.const())) for d in a.shp]):
            out = out * g([const(x) for x in pt])
        return wrap(out, True)
    return SForall(a.shp, g)


def np_any(a, axis=None):
    if isinstance(a, (SBool, bool)):
        return a
    if isinstance(a, SForall):
        return a
    a = asarr(a)
    if axis is not None:
        raise Unsupported('any axis')
    if not a.shp:
        return wrap(a.at([]), True)
    g = a.snap()
    if a.dt != 'bool':
        h = g
        g = lambda ix: ONE - T.mk_ind('eq', h(ix))
    if all(d.is_const() for d in a.shp):
        import itertools
        out = ONE
        for pt in itertools.product(*[range(int(d.const())) for d in a.shp]):
            out = out * (ONE - g([const(x) for x in pt]))
        return wrap(ONE - out, True)
    return SForall(a.shp, lambda ix: ONE - g(ix), neg=True)


def matmul(a, b):
    if getattr(a, 'is_sparse', False) or getattr(b, 'is_sparse', False):
        return a.__matmul__(b) if getattr(a, 'is_sparse', False) \
            else b.__rmatmul__(a)
    if is_num(a) or is_num(b) or isinstance(a, SV) or isinstance(b, SV):
        raise ValueError('matmul: scalar operand')
    a, b = asarr(a), asarr(b)
    if not a.shp or not b.shp:
        raise ValueError('matmul: scalar operand')
    ga, gb = a.snap(), b.snap()
    if len(a.shp) == 1 and len(b.shp) == 1:
        if not same_dim(a.shp[0], b.shp[0]):
            raise ValueError('shapes not aligned')
        return SV(sum_over([a.shp[0]], lambda k: ga(k) * gb(k)))
    if len(b.shp) == 1:
        if not same_dim(a.shp[-1], b.shp[0]):
            raise ValueError('shapes not aligned')
        n = a.shp[-1]
        return SArr(a.shp[:-1], lambda *i: sum_over(
            [n], lambda k: ga(list(i) + k) * gb(k)))
    if len(a.shp) == 1:
        if not same_dim(a.shp[0], b.shp[-2]):
            raise ValueError('shapes not aligned')
        n = a.shp[0]
        return SArr(b.shp[:-2] + b.shp[-1:], lambda *i: sum_over(
            [n], lambda k: ga(k) * gb(list(i[:-1]) + k + [i[-1]])))
    if not same_dim(a.shp[-1], b.shp[-2]):
        raise ValueError('shapes not aligned')
    n = a.shp[-1]
    lead = broadcast_shapes(a.shp[:-2], b.shp[:-2])
    ra = reader(a, lead + a.shp[-2:])
    rb = reader(b, lead + b.shp[-2:])
    nl = len(lead)
    r = SArr(lead + (a.shp[-2], b.shp[-1]), lambda *i: sum_over(
        [n], lambda k: ra(list(i[:nl]) + [i[nl]] + k) *
        rb(list(i[:nl]) + k + [i[nl + 1]])))
    e = engine()
    if e is not None and len(a.shp) == len(b.shp):
        e.note_matmul(a, b, r)
    return r


def np_dot(a, b):
    if getattr(a, 'is_sparse', False) or getattr(b, 'is_sparse', False):
        return a * b
    a, b = asarr(a), asarr(b)
    if not a.shp or not b.shp:
        return a * b
    if len(b.shp) > 2 or (len(a.shp) > 2 and len(b.shp) > 1):
        raise Unsupported('dot of higher arrays')
    return matmul(a, b)


def np_diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    if offset != 0:
        raise Unsupported('diagonal offset')
    nd = len(a.shp)
    x, y = axis1 % nd, axis2 % nd
    if x > y:
        x, y = y, x
    if not same_dim(a.shp[x], a.shp[y]):
        raise Unsupported('diagonal of non-square')
    g = a.snap()
    keep = [i for i in range(nd) if i not in (x, y)]

    def fn(*idx):
        full_ = [None] * nd
        for i, v in zip(keep, idx[:-1]):
            full_[i] = v
        full_[x] = full_[y] = idx[-1]
        return g(full_)
    return SArr(tuple(a.shp[i] for i in keep) + (a.shp[x],), fn, a.dt)


def np_trace(a, offset=0, axis1=0, axis2=1):
    d = np_diagonal(a, offset, axis1, axis2)
    return np_sum(d) if len(d.shp) == 1 else np_sum(d, -1)


def make_diagonal(d, offset=0, axis1=0, axis2=1):
    """autograd's make_diagonal (only axis1=-1, axis2=-2 is implemented
    there)"""
    d = asarr(d)
    if not (offset == 0 and axis1 == -1 and axis2 == -2):
        raise NotImplementedError(
            'Currently make_diagonal only supports offset=0, axis1=-1, '
            'axis2=-2')
    g = d.snap()
    n = d.shp[-1]

    def fn(*idx):
        return ite(T.mk_ind('eq', idx[-2] - idx[-1]),
                   lambda: g(list(idx[:-1])), lambda: ZERO)
    return SArr(d.shp + (n,), fn, d.dt)


def np_diag(a, k=0):
    a = asarr(a)
    if k != 0:
        raise Unsupported('diag offset')
    if len(a.shp) == 1:
        g = a.snap()
        n = a.shp[0]
        return SArr((n, n), lambda i, j: ite(
            T.mk_ind('eq', i - j), lambda: g([i]), lambda: ZERO), a.dt)
    return np_diagonal(a)


def np_nonzero(a):
    a = asarr(a)
    if len(a.shp) != 1:
        raise Unsupported('nonzero of nd array')
    if a.dt != 'bool':
        a = a != 0
    cnt, sel = select_symbol(a)
    return (SArr((cnt,), lambda i: sel(i), 'int'),)


def np_argwhere(a):
    r = np_nonzero(a)[0]
    g = r.snap()
    return SArr((r.shp[0], ONE), lambda i, j: g([i]), 'int')


def expand_dims(a, axis):
    a = asarr(a)
    nd = len(a.shp) + 1
    ax = operator.index(axis)
    if ax < 0:
        ax = ax + nd
    if ax > len(a.shp) or ax < 0:
        if ax > len(a.shp):
            ax = len(a.shp)
        else:
            raise ValueError('axis')
    key = [slice(None)] * len(a.shp)
    key.insert(ax, None)
    return a[tuple(key)]


def broadcast_to(a, shape):
    a = asarr(a)
    shp = norm_shape(shape)
    k = len(shp) - len(a.shp)
    if k < 0:
        raise ValueError('broadcast')
    for x, y in zip(a.shp, shp[k:]):
        if x != ONE and not same_dim(x, y):
            raise ValueError('operands could not be broadcast together')
    r = reader(a, shp)
    return SArr(shp, lambda *i: r(list(i)), a.dt)


def tile(a, reps):
    a = asarr(a)
    reps = norm_shape(reps)
    nd = max(len(reps), len(a.shp))
    reps = (ONE,) * (nd - len(reps)) + reps
    k = nd - len(a.shp)
    ash = (ONE,) * k + a.shp
    g = a.snap()
    shp = tuple(x * y for x, y in zip(ash, reps))

    def fn(*idx):
        out = []
        for i, d, r in zip(idx, ash, reps):
            if d == ONE:
                out.append(ZERO)
            elif r == ONE:
                out.append(i)
            else:
                out.append(T.mk_imod(i, d))
        return g(out[k:])
    return SArr(shp, fn, a.dt)


def outer(a, b):
    a, b = asarr(a), asarr(b)
    a = reshape(a, (-1,)) if len(a.shp) != 1 else a
    b = reshape(b, (-1,)) if len(b.shp) != 1 else b
    ga, gb = a.snap(), b.snap()
    return SArr((a.shp[0], b.shp[0]), lambda i, j: ga([i]) * gb([j]))


def eye(n, m=None, k=0, dtype=None):
    if not isinstance(k, int):
        raise Unsupported('eye offset')
    n = dim_poly(n)
    m = n if m is None else dim_poly(m)
    kk = const(k)
    return SArr((n, m), lambda i, j: T.mk_ind('eq', i - j + kk))


def arange(*a, **kw):
    kw.pop('dtype', None)
    step = a[2] if len(a) == 3 else 1
    if not isinstance(step, int) or step < 1:
        raise Unsupported('arange step')
    if len(a) == 1:
        lo, hi = ZERO, to_poly(a[0])
    else:
        lo, hi = to_poly(a[0]), to_poly(a[1])
    n = hi - lo
    if not T.poly_is_int(n):
        raise Unsupported('arange of non-integers')
    if CTX().int_decide('ge', n) is not True and \
            not engine().decide(T.mk_ind('ge', n)):
        n = ZERO
    if step != 1:
        st = const(step)
        n = T.mk_idiv(n + st - ONE, st)
        return SArr((n,), lambda i: lo + st * i, 'int')
    return SArr((n,), lambda i: lo + i, 'int')


def linspace(a, b, num=50):
    a, b = to_poly(a), to_poly(b)
    num = num if isinstance(num, (int, SV)) else to_int(num)
    n = dim_poly(num)
    # a + i*(b-a)/(n-1); for n == 1 the single point a
    if n.is_const():
        m = int(n.const())
        step = (b - a).scale(Fr(1, m - 1)) if m > 1 else ZERO
    else:
        q, r = T.poly_divmod_exact(b - a, n - ONE)
        if r.is_zero() and q.is_const():
            step = q          # exact also for n == 1 (only index 0 is used)
        elif (b - a) == (n - ONE).scale((b - a).d.get(
                next(iter((n - ONE).d)), 0) or 1):
            step = ONE
        else:
            c = CTX()
            if c.int_decide('ge', n - const(2)) is not True:
                if engine().decide(T.mk_ind('eq', n - ONE)):
                    return SArr((ONE,), lambda i: a)
            step = (b - a) * T.mk_pow(n - ONE, -1)
    return SArr((n,), lambda i: a + step * i)


def to_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return int(x)
    if isinstance(x, SBool):
        return SV(x.p)
    if isinstance(x, str):
        return int(x)
    return wrap_int(to_int_poly(to_poly(x)))


def ravel_multi_index(multi, dims):
    dims = norm_shape(dims)
    arrs = [asarr(m) for m in multi]
    if len(arrs) != len(dims):
        raise ValueError('parameter multi_index must be a sequence of '
                         'length %d' % len(dims))
    shp = arrs[0].shp
    for a in arrs[1:]:
        shp = broadcast_shapes(shp, a.shp)
    rs = [reader(a, shp) for a in arrs]
    for r, d in zip(rs, dims):
        engine().index_bounds(shp, r, d, exc=ValueError)
    if not shp:
        return wrap_int(ravel([r([]) for r in rs], dims))
    return SArr(shp, lambda *i: ravel([r(list(i)) for r in rs], dims), 'int')


def unravel_index(t, dims):
    dims = norm_shape(dims)
    if isinstance(t, SArr):
        g = t.snap()
        return tuple(SArr(t.shp, (lambda k: lambda *i: unravel(
            g(list(i)), dims)[k])(k), 'int') for k in range(len(dims)))
    return tuple(wrap_int(x) for x in unravel(to_poly(t), dims))


def tril_indices(n, k=0, m=None):
    if k != 0 or m is not None:
        raise Unsupported('tril_indices offset')
    p = dim_poly(n)
    ln = (p * p + p).scale(Fr(1, 2))
    return (SArr((ln,), lambda t: T.app('trow', t), 'int'),
            SArr((ln,), lambda t: T.app('tcol', t), 'int'))


def tril(a, k=0):
    a = asarr(a)
    g = a.snap()
    kk = const(k)
    return SArr(a.shp, lambda *i: ite(T.mk_ind('ge', i[-2] - i[-1] + kk),
                                      lambda: g(list(i)), lambda: ZERO), a.dt)


def triu(a, k=0):
    a = asarr(a)
    g = a.snap()
    kk = const(k)
    return SArr(a.shp, lambda *i: ite(T.mk_ind('ge', i[-1] - i[-2] - kk),
                                      lambda: g(list(i)), lambda: ZERO), a.dt)


def where(c, *ab):
    if not ab:
        return np_nonzero(c)
    a, b = ab
    if isinstance(c, (bool, SBool)) and not isinstance(a, SArr) and \
            not isinstance(b, SArr):
        cp = bool_poly(c)
        return SV(ite(cp, lambda: to_poly(a), lambda: to_poly(b)))
    c, a, b = asarr(c), asarr(a), asarr(b)
    shp = broadcast_shapes(broadcast_shapes(c.shp, a.shp), b.shp)
    rc, ra, rb = reader(c, shp), reader(a, shp), reader(b, shp)
    if c.dt != 'bool':
        rc0 = rc
        rc = lambda ix: ONE - T.mk_ind('eq', rc0(ix))
    dt = 'bool' if a.dt == 'bool' and b.dt == 'bool' else 'float'
    return SArr(shp, lambda *i: ite(rc(list(i)), lambda: ra(list(i)),
                                    lambda: rb(list(i))), dt)


def p_max(a, b):
    return ite(T.mk_ind('ge', a - b), lambda: a, lambda: b)


def p_min(a, b):
    return ite(T.mk_ind('ge', b - a), lambda: a, lambda: b)


def einsum(*ops):
    """subscript strings or (array, index list, ...) form"""
    if isinstance(ops[0], str):
        sub = ops[0].replace(' ', '')
        arrs = [asarr(x) for x in ops[1:]]
        if '->' in sub:
            ins, out = sub.split('->')
        else:
            ins = sub
            letters = sorted(set(ins.replace(',', '')))
            out = ''.join(c for c in letters
                          if ins.replace(',', '').count(c) == 1)
        parts = ins.split(',')
        if '...' in sub:
            nell = None
            newparts = []
            for part, a in zip(parts, arrs):
                if '...' in part:
                    k = len(a.shp) - (len(part) - 3)
                    nell = k if nell is None else max(nell, k)
            fresh_l = [chr(0x100 + i) for i in range(nell or 0)]
            for part, a in zip(parts, arrs):
                if '...' in part:
                    k = len(a.shp) - (len(part) - 3)
                    part = part.replace('...', ''.join(fresh_l[nell - k:]))
                newparts.append(part)
            parts = newparts
            out = out.replace('...', ''.join(fresh_l))
        ilists = [list(p) for p in parts]
        olist = list(out)
    else:
        arrs, ilists = [], []
        i = 0
        while i + 1 < len(ops):
            arrs.append(asarr(ops[i]))
            ilists.append([operator.index(x) for x in as_vlist(ops[i + 1])])
            i += 2
        if i < len(ops):
            olist = [operator.index(x) for x in as_vlist(ops[i])]
        else:
            allv = [x for l in ilists for x in l]
            olist = sorted(set(x for x in allv if allv.count(x) == 1))
    dims = {}
    for a, il in zip(arrs, ilists):
        if len(a.shp) != len(il):
            raise ValueError('einstein sum subscripts string')
        for x, d in zip(il, a.shp):
            if x in dims:
                if dims[x] == ONE:
                    dims[x] = d
                elif d != ONE and not same_dim(dims[x], d):
                    raise ValueError('operands could not be broadcast')
            else:
                dims[x] = d
    for x in olist:
        if x not in dims:
            raise ValueError('einsum output subscript')
    summed = [x for x in dims if x not in olist]
    gs = [a.snap() for a in arrs]

    def fn(*idx):
        env = dict(zip(olist, idx))

        def body(ix):
            e2 = dict(env)
            e2.update(zip(summed, ix))
            out = ONE
            for g, a, il in zip(gs, arrs, ilists):
                out = out * g([ZERO if d == ONE and dims[x] != ONE else e2[x]
                               for x, d in zip(il, a.shp)])
            return out
        return sum_over([dims[x] for x in summed], body)
    shp = tuple(dims[x] for x in olist)
    if not shp:
        return SV(fn())
    return SArr(shp, fn)


# ------------------------------------------- structured one-dimensional data
def as_struct(x):
    """a one-dimensional array-like as nested segments when its structure is
    known, else as an array"""
    if isinstance(x, VList):
        return VList(x.segs)
    if isinstance(x, SArr):
        st = x.get_struct()
        if st is not None:
            return st
        if len(x.shp) != 1:
            raise ValueError('coordinate arrays must be one-dimensional')
        return x
    if isinstance(x, (SRange, range, tuple, list)):
        return as_struct(asarr(x))
    return as_struct(asarr(x))


def stack_struct(vl):
    r = stack_list(vl)
    r.set_struct(vl)
    return r


def struct_arr(x):
    if isinstance(x, SArr):
        return x
    s = x.segs and first_item(x.segs)
    if isinstance(s, SArr) and s.shp:
        return concat(x)
    return stack_struct(x)


def struct_len(x):
    if isinstance(x, SArr):
        return x.shp[0] if x.shp else ONE
    if isinstance(x, VList):
        n = ZERO
        for s in x.segs:
            n = n + struct_len(s)
        return n
    if isinstance(x, For):
        inner = ZERO
        for s in x.segs:
            inner = inner + struct_len(s)
        if the_atom(x.k) in inner.fv():
            return T.mk_sum(x.k, x.n, inner)
        return x.n * inner
    return ONE


def struct_sum(objs, leaf):
    """Sum over the aligned elements of several structured sequences."""
    objs = list(objs)
    if all(isinstance(o, VList) for o in objs):
        n = len(objs[0].segs)
        if any(len(o.segs) != n for o in objs):
            return struct_sum([struct_arr(o) for o in objs], leaf)
        out = ZERO
        for i in range(n):
            out = out + struct_sum([o.segs[i] for o in objs], leaf)
        return out
    if any(isinstance(o, VList) for o in objs):
        # align plain arrays with the single block of the structured ones
        vls = [o for o in objs if isinstance(o, VList)]
        v = vls[0]
        if len(v.segs) == 1 and isinstance(v.segs[0], For) and \
                len(v.segs[0].segs) == 1 and \
                struct_len(v.segs[0].segs[0]) == ONE:
            k, n = v.segs[0].k, v.segs[0].n
            new = []
            for o in objs:
                if isinstance(o, SArr):
                    c = CTX()
                    c.push()
                    try:
                        c.add_range(k, n)
                        new.append(VList([For(k, n, [mk_scalar(
                            o.at([k]), o.dt)])]))
                    finally:
                        c.pop()
                else:
                    new.append(o)
            return struct_sum(new, leaf)
        return struct_sum([struct_arr(o) for o in objs], leaf)
    if all(isinstance(o, For) for o in objs):
        o0 = objs[0]
        for o in objs[1:]:
            if o.n != o0.n or len(o.segs) != len(o0.segs):
                raise Unsupported('differently structured sequences')
        if isinstance(o0, When):
            out = ZERO
            for i in range(len(o0.segs)):
                out = out + struct_sum([o.segs[i] for o in objs], leaf)
            return out * o0.n
        k = T.fresh('s')
        c = CTX()
        c.push()
        try:
            c.add_range(k, o0.n)
            out = ZERO
            for i in range(len(o0.segs)):
                out = out + struct_sum(
                    [subst_seg(o.segs[i], {the_atom(o.k): k}) for o in objs],
                    leaf)
            return T.sum_poly([(the_atom(k), o0.n)], out)
        finally:
            c.pop()
    if all(isinstance(o, SArr) and o.shp for o in objs):
        st = [o.get_struct() for o in objs]
        if all(s is not None for s in st):
            return struct_sum(st, leaf)
        n = objs[0].shp[0]
        gs = [o.snap() for o in objs]
        return sum_over([n], lambda ix: leaf(*[g(ix) for g in gs]))
    if any(isinstance(o, (For, VList)) for o in objs):
        raise Unsupported('differently structured sequences')
    return leaf(*[to_poly(o.p if isinstance(o, SBool) else o)
                  for o in objs])


def struct_all(x, pred):
    """does the 0/1 term hold for every element? True or None"""
    if isinstance(x, VList):
        for s in x.segs:
            if struct_all(s, pred) is not True:
                return None
        return True
    if isinstance(x, For):
        c = CTX()
        c.push()
        try:
            if isinstance(x, When):
                if c.assume_bool(x.n) is False:
                    return True
            else:
                c.add_range(x.k, x.n)
            for s in x.segs:
                if struct_all(s, pred) is not True:
                    return None
            return True
        finally:
            c.pop()
    if isinstance(x, SArr) and x.shp:
        st = x.get_struct()
        if st is not None:
            return struct_all(st, pred)
        c = CTX()
        k = T.fresh('q')
        c.push()
        try:
            c.add_range(k, x.shp[0])
            b = T.resolve_inds(pred(x.at([k])))
            if b == ONE:
                return True
            return True if c.z3_bool(b, 1500, need=('t',)) else None
        finally:
            c.pop()
    b = T.resolve_inds(pred(to_poly(x)))
    if b == ONE:
        return True
    return True if CTX().z3_bool(b, 1500, need=('t',)) else None
