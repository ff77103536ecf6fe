"""Symbolic terms for the verifier.

A term is a polynomial (`Poly`) with rational coefficients over interned
atoms.  Atoms are scalar variables, applications of array / function symbols,
finite sums over index variables, 0/1 indicators of conditions, exponentials,
logarithms and (possibly fractional or negative) powers of polynomials.
Construction normalises: equal normal forms are equal terms.  Booleans are
terms with values in {0, 1}.

Conventions that matter for soundness
  * log(p) is log|p| (callers prove p > 0 before building a log);
  * exponents that are negative or fractional presuppose a non-zero /
    positive base, which callers prove (see core.Ctx.wd);
  * sums run over 0 <= k < n with n >= 0.
"""
from fractions import Fraction as Fr
import itertools

ONE_F = Fr(1)


class Unsupported(Exception):
    """The code left the subset that the verifier understands."""


_intern = {}
_counter = [0]


class Atom(object):
    __slots__ = ('k', 'a', 'id', 'fv', 'h', '_int')

    def __repr__(self):
        return show_atom(self)


EMPTY = frozenset()


def atom(k, *a):
    key = (k,) + a
    got = _intern.get(key)
    if got is not None:
        return got
    at = Atom()
    at.k, at.a = k, a
    _counter[0] += 1
    at.id = _counter[0]
    fv = set()
    h = 0
    if k == 'v':
        fv.add(at)
    elif k == 'bv':
        fv.add(at)
    elif k == 'f':
        fv.add(a[0])
        for x in a[1:]:
            fv |= x.fv()
            h = max(h, x.h())
    elif k == 'sum':
        bounds, body, d = a
        for b in bounds:
            fv |= b.fv()
            h = max(h, b.h())
        for at2, e in body:
            fv |= at2.fv
            h = max(h, at2.h)
        for i in range(len(bounds)):
            fv.discard(atom('bv', d + i))
        h = max(h, d + len(bounds))
    elif k == 'ind':
        fv |= a[1].fv()
        h = a[1].h()
    elif k == 'exp':
        for at2, e in a[0]:
            fv |= at2.fv
            h = max(h, at2.h)
    elif k in ('log', 'poly'):
        fv |= a[0].fv()
        h = a[0].h()
    at.fv = frozenset(fv)
    at.h = h
    at._int = None
    _intern[key] = at
    return at


INT_HEADS = {'idiv', 'imod', 'trow', 'tcol', 'nnz'}


def atom_is_int(a):
    if a._int is None:
        k = a.k
        if k == 'v':
            r = a.a[1] == 'i'
        elif k in ('bv', 'ind'):
            r = True
        elif k == 'f':
            hd = a.a[0]
            r = hd in INT_HEADS or (isinstance(hd, str) and hd.startswith('I:'))
        elif k == 'sum':
            r = all(atom_is_int(x) and e.denominator == 1 and e > 0
                    for x, e in a.a[1])
        else:
            r = False
        a._int = r
    return a._int


class Poly(object):
    __slots__ = ('d', '_hash', '_fv', '_h', '_key')

    def __init__(self, d):
        self.d = d
        self._hash = None
        self._fv = None
        self._h = None
        self._key = None

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.d.items()))
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for a, e in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    def h(self):
        if self._h is None:
            h = 0
            for m in self.d:
                for a, e in m:
                    if a.h > h:
                        h = a.h
            self._h = h
        return self._h

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(
                (tuple((a.id, e) for a, e in m), c) for m, c in self.d.items()))
        return self._key

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), Fr(0))

    def is_zero(self):
        return not self.d

    def is_int_const(self):
        return self.is_const() and self.const().denominator == 1

    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v == 0:
                    del d[m]
                else:
                    d[m] = v
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, c = mono_mul(m1, m2)
                c = c * c1 * c2
                if c == 0:
                    continue
                v = d.get(m)
                if v is None:
                    d[m] = c
                else:
                    v = v + c
                    if v == 0:
                        del d[m]
                    else:
                        d[m] = v
        return Poly(d)

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('Poly has no truth value')


def mono_mul(m1, m2):
    """Product of two monomials -> (monomial, rational factor)."""
    if not m1:
        return m2, ONE_F
    if not m2:
        return m1, ONE_F
    out = []
    c = ONE_F
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            if a.k == 'ind':
                out.append((a, ONE_F))
            else:
                g = e + f
                if g != 0:
                    if a.k == 'num' and g.denominator == 1:
                        c = c * Fr(a.a[0]) ** int(g)
                    elif a.k == 'num' and (g >= 1 or g < 0):
                        fl = g.numerator // g.denominator
                        c = c * Fr(a.a[0]) ** fl
                        out.append((a, g - fl))
                    else:
                        out.append((a, g))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    if _ZA:
        for a, e in out:
            z = _ZA.get(a)
            if z is not None:
                # x [x == 0] = 0
                for b, f in out:
                    if b is z and f > 0:
                        return (), Fr(0)
    return tuple(out), c


_ZA = {}     # indicator [x == 0] of one atom x -> x


def _note_eq(t):
    (m, _), = t.d.items()
    q = m[0][0].a[1]
    if len(q.d) == 1:
        (mq, _), = q.d.items()
        if len(mq) == 1 and mq[0][1] == 1:
            _ZA[m[0][0]] = mq[0][0]
    return t


ZERO = Poly({})
ONE = Poly({(): ONE_F})


def const(c):
    if c == 0:
        return ZERO
    return Poly({(): Fr(c)})


def of_atom(a, e=ONE_F):
    return Poly({((a, Fr(e)),): ONE_F})


def of_mono(m, c=ONE_F):
    return Poly({m: c})


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


def var(name, sort='r'):
    return of_atom(atom('v', name, sort))


def fresh(base='k', sort='i'):
    return var(fresh_name(base), sort)


def the_atom(p):
    """The atom of a poly that is a single bare atom, else None."""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


# ---------------------------------------------------------------- lambdas
class Lam(object):
    """A closed array argument: dims and body over bound variables."""
    __slots__ = ('dims', 'body', 'd', '_hash')

    def __init__(self, dims, body, d):
        self.dims, self.body, self.d = dims, body, d
        self._hash = hash((dims, body, d))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Lam) and self.dims == o.dims and \
            self.d == o.d and self.body == o.body

    def fv(self):
        s = set(self.body.fv())
        for i in range(len(self.dims)):
            s.discard(atom('bv', self.d + i))
        for x in self.dims:
            s |= x.fv()
        return frozenset(s)

    def h(self):
        return max([self.d + len(self.dims), self.body.h()] +
                   [x.h() for x in self.dims])

    def key(self):
        return (tuple(x.key() for x in self.dims), self.body.key(), self.d)

    def open(self):
        ivs = [fresh('l') for _ in self.dims]
        return ivs, subst(self.body, {
            atom('bv', self.d + i): iv for i, iv in enumerate(ivs)})

    def at(self, idx, simplify=True):
        return subst(self.body, {
            atom('bv', self.d + i): x for i, x in enumerate(idx)},
            simplify=simplify)

    def __repr__(self):
        return 'Lam[%s](%s)' % (','.join(map(show, self.dims)), show(self.body))


def mk_lam(dims, fn):
    """fn: list of index polys -> Poly"""
    ivs = [fresh('l') for _ in dims]
    with_ranges = [(iv, n) for iv, n in zip(ivs, dims)]
    CTX().push()
    try:
        for iv, n in with_ranges:
            CTX().add_range(iv, n)
        body = fn(ivs)
    finally:
        CTX().pop()
    d = body.h()
    mp = {the_atom(iv): of_atom(atom('bv', d + i)) for i, iv in enumerate(ivs)}
    body2 = subst(body, mp, simplify=False)
    # nested heights may not grow under renaming, but be safe
    if body2.h() > d:
        d = body2.h()
        mp = {the_atom(iv): of_atom(atom('bv', d + i))
              for i, iv in enumerate(ivs)}
        body2 = subst(body, mp, simplify=False)
    return Lam(tuple(dims), body2, d)


# ------------------------------------------------------------ context hook
_ctx = [None]


def CTX():
    return _ctx[0]


def set_ctx(c):
    _ctx[0] = c


# ------------------------------------------------------------- indicators
def mk_ind(kind, p, simplify=True):
    """kind: 'ge' (p >= 0), 'gt' (p > 0), 'eq' (p == 0).  For integer terms
    'gt' is turned into 'ge' of p - 1."""
    if p.is_const():
        c = p.const()
        ok = (c >= 0) if kind == 'ge' else (c > 0) if kind == 'gt' else c == 0
        return ONE if ok else ZERO
    inds = top_inds(p)
    if inds:
        return lift_one(p, inds, lambda q: mk_ind(kind, q, simplify))
    if kind == 'eq':
        p = int_scale(p)
    isint = poly_is_int(p)
    if isint and kind == 'gt':
        p = p - ONE
        kind = 'ge'
        if p.is_const():
            return ONE if p.const() >= 0 else ZERO
    if isint and simplify:
        r = CTX().int_decide(kind, p) if CTX() is not None else None
        if r is not None:
            return ONE if r else ZERO
        if kind == 'eq' and CTX() is not None:
            q = sel_split(p)
            if q is not None:
                return q
            sp = radix_split(p)
            if sp is not None:
                return mk_ind('eq', sp[0]) * mk_ind('eq', sp[1])
            sp = tri_split(p)
            if sp is not None:
                return mk_ind('eq', sp[0]) * mk_ind('eq', sp[1])
        elif kind == 'ge' and CTX() is not None and \
                any(len(m) > 1 for m in p.d):
            q = ge_split(p)
            if q is not None:
                return mk_ind('ge', q)
    # canonical orientation
    lead = canon_sign(p)
    if kind == 'eq':
        if isint:
            p = -p if lead < 0 else p
        else:
            p = p.scale(1 / lead)
        return _note_eq(of_atom(atom('ind', 'eq', p)))
    if binderlike(p):
        # the orientation must survive renaming of bound variables
        return of_atom(atom('ind', kind, p))
    if isint:
        if lead < 0:
            # p >= 0  <=>  not (-p - 1 >= 0)
            q = -p - ONE
            l2 = canon_sign(q)
            if l2 > 0:
                return ONE - of_atom(atom('ind', 'ge', q))
            return of_atom(atom('ind', 'ge', p))
        return of_atom(atom('ind', 'ge', p))
    if lead < 0:
        q = (-p).scale(1 / -lead)
        if kind == 'ge':
            return ONE - of_atom(atom('ind', 'gt', q))
        return ONE - of_atom(atom('ind', 'ge', q))
    p = p.scale(1 / lead)
    return of_atom(atom('ind', kind, p))


def sel_split(p):
    """[x == sel(j)] for the enumeration sel of the true positions of a mask:
    sel is injective, and x is the j-th true position exactly when the mask is
    true at x and j positions before x are true."""
    if len(p.d) < 2:
        return None
    for m, k in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'f' and \
                m[0][0].a[0] == 'I:sel' and abs(k) == 1:
            a = m[0][0]
            lam, j = a.a[1:]
            x = of_atom(a) - p if k == 1 else p + of_atom(a)
            b = the_atom(x)
            if b is not None and b.k == 'f' and b.a[:2] == a.a[:2]:
                return mk_ind('eq', j - b.a[2])
            c = CTX()
            info = c.masks.get(lam)
            if not c.rank_mode or info is None:
                return None
            m, n, cnt = info
            if a in x.atoms() or not (
                    c.nonneg(x) and c.nonneg(n - ONE - x) and c.nonneg(j) and
                    c.nonneg(cnt - ONE - j)):
                continue
            return m([x]) * mk_ind('eq', app('I:rank', lam, x) - j)
    return None


def binderlike(p):
    for a in p.fv():
        if isinstance(a, Atom) and (a.k == 'bv' or (
                a.k == 'v' and a.a[1] == 'i' and a.a[0][:2] in ('s!', 'l!'))):
            return True
    return False


def canon_sign(p):
    """Coefficient of the canonical leading non-constant monomial."""
    best = None
    for m, c in p.d.items():
        if m == ():
            continue
        k = tuple((a.id, e) for a, e in m)
        if best is None or k < best[0]:
            best = (k, c)
    return best[1] if best is not None else 1


def poly_is_int(p):
    dens = False
    for m, c in p.d.items():
        if c.denominator != 1:
            dens = True
        for a, e in m:
            if e.denominator != 1 or e < 0 or not atom_is_int(a):
                return False
    return is_integer_valued(p) if dens else True


_iscale = {}


def int_scale(p):
    """p scaled (for p == 0) to coprime integer coefficients when it is a
    polynomial in integer atoms, halved where that is still integer valued
    (triangular positions): the form the splitting rules read"""
    r = _iscale.get(p)
    if r is not None:
        return r
    r = p
    ok = True
    for m, c in p.d.items():
        for a, e in m:
            if e.denominator != 1 or e < 0 or not atom_is_int(a):
                ok = False
    if ok and p.d:
        from math import gcd
        g = 0
        den = 1
        for c in p.d.values():
            den = den * c.denominator // gcd(den, c.denominator)
        for c in p.d.values():
            g = gcd(g, abs(int(c * den)))
        r = p.scale(Fr(den, g))
        if any(len(m) > 1 or (m and m[0][1] > 1) for m in r.d):
            h = r.scale(Fr(1, 2))
            if is_integer_valued(h):
                r = h
    _iscale[p] = r
    return r


_intval = {}


def is_integer_valued(p):
    """A polynomial with rational coefficients over integer atoms is integer
    valued iff it is on the grid {0..deg_i}."""
    r = _intval.get(p)
    if r is not None:
        return r
    ats = sorted(p.atoms(), key=lambda a: a.id)
    if any(not atom_is_int(a) for a in ats):
        r = False
    else:
        degs = []
        for a in ats:
            dg = 0
            for m in p.d:
                for b, e in m:
                    if b is a:
                        if e < 0 or e.denominator != 1:
                            return False
                        dg = max(dg, int(e))
            degs.append(dg)
        r = True
        tot = 1
        for dg in degs:
            tot *= dg + 1
        if tot > 4000:
            r = False
        else:
            for pt in itertools.product(*[range(dg + 1) for dg in degs]):
                val = dict(zip(ats, pt))
                s = Fr(0)
                for m, c in p.d.items():
                    t = c
                    for a, e in m:
                        t *= Fr(val[a]) ** int(e)
                    s += t
                if s.denominator != 1:
                    r = False
                    break
    _intval[p] = r
    return r


def top_inds(p):
    s = set()
    for m in p.d:
        for a, e in m:
            if a.k == 'ind':
                s.add(a)
    return s


def set_ind(p, a, val):
    """Replace indicator atom a (top level factor) by 0/1."""
    d = {}
    for m, c in p.d.items():
        has = False
        m2 = []
        for b, e in m:
            if b is a:
                has = True
            else:
                m2.append((b, e))
        if has:
            if not val:
                continue
            m = tuple(m2)
        v = d.get(m)
        v = c if v is None else v + c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return Poly(d)


def lift_one(p, inds, f):
    a = min(inds, key=lambda x: x.id)
    c = CTX()
    ia = of_atom(a)
    out = ZERO
    for val in (1, 0):
        q = set_ind(p, a, val)
        fact = ia if val else ONE - ia
        if c is not None:
            c.push()
            try:
                ok = c.assume_ind(a, bool(val))
                if ok is False:
                    continue
                q = resolve_inds(q)
                out = out + fact * f(q)
            finally:
                c.pop()
        else:
            out = out + fact * f(q)
    return out


def resolve_inds(p):
    """Evaluate top level indicators decided by the current context."""
    c = CTX()
    for a in sorted(top_inds(p), key=lambda x: x.id):
        r = c.decide_ind(a)
        if r is not None:
            p = set_ind(p, a, r)
    return p


# --------------------------------------------------------- integer algebra
def split_by(p, a):
    """p = a*q + r with r free of a at top level (a has exponent 1) or None."""
    q, r = {}, {}
    for m, c in p.d.items():
        hit = [x for x in m if x[0] is a]
        if hit:
            if hit[0][1] != 1:
                return None
            q[tuple(x for x in m if x[0] is not a)] = c
        else:
            r[m] = c
    return Poly(q), Poly(r)


def poly_divmod_exact(p, b):
    """Split p = b*q + r, where b is a monomial or a (triangular) polynomial;
    monomials of p that are multiples of b's structure go to q."""
    ab = the_atom(b)
    if ab is not None:
        sp = split_by(p, ab)
        if sp is None:
            # allow higher powers
            q, r = {}, {}
            for m, c in p.d.items():
                hit = [x for x in m if x[0] is ab]
                if hit:
                    e = hit[0][1] - 1
                    rest = tuple(x for x in m if x[0] is not ab)
                    mm = mono_mul(rest, ((ab, e),) if e != 0 else ())[0]
                    q[mm] = c
                else:
                    r[m] = c
            return Poly(q), Poly(r)
        return sp
    if b.is_const():
        c = b.const()
        q, r = {}, {}
        for m, v in p.d.items():
            w = v / c
            if w.denominator == 1:
                q[m] = w
            else:
                if m == () and w.denominator != 1 and v.denominator == 1 \
                        and c.denominator == 1:
                    fl = v.numerator // c.numerator
                    if fl:
                        q[m] = Fr(fl)
                    r[m] = v - fl * c
                else:
                    r[m] = v
        return Poly(q), Poly(r)
    if len(b.d) == 1:
        (bm, bc), = b.d.items()
        q, r = {}, {}
        bd = dict(bm)
        for m, c in p.d.items():
            md = dict(m)
            if all(md.get(a, 0) >= e for a, e in bd.items()):
                mm = tuple((a, md[a] - bd.get(a, 0)) for a, e in m
                           if md[a] - bd.get(a, 0) != 0)
                q[mm] = c / bc
            else:
                r[m] = c
        return Poly(q), Poly(r)
    # general divisor: divide greedily by the leading monomial of b
    lead = max(b.d, key=lambda m: (sum(e for a, e in m),
                                   tuple((-a.id, e) for a, e in m)))
    lc = b.d[lead]
    ld = dict(lead)
    q = ZERO
    r = p
    rem = ZERO
    guard = 0
    while r.d:
        guard += 1
        if guard > 200:
            return ZERO, p
        cand = [m for m in r.d if all(dict(m).get(a, 0) >= e
                                      for a, e in ld.items())]
        if not cand:
            break
        m = max(cand, key=lambda m: (sum(e for a, e in m),
                                     tuple((-a.id, e) for a, e in m)))
        md = dict(m)
        t = of_mono(tuple((a, md[a] - ld.get(a, 0)) for a, e in m
                          if md[a] - ld.get(a, 0) != 0), r.d[m] / lc)
        q = q + t
        r = r - t * b
    return q, r


def mk_idiv(a, b):
    return _divmod(a, b)[0]


def mk_imod(a, b):
    return _divmod(a, b)[1]


def _divmod(a, b):
    if a.is_const() and b.is_const():
        x, y = a.const(), b.const()
        if x.denominator == 1 and y.denominator == 1 and y != 0:
            return const(x.numerator // y.numerator), \
                const(x.numerator % y.numerator)
    if b == ONE:
        return a, ZERO
    if b.is_const() and b.const() > 0 and b.const().denominator == 1 and \
            is_integer_valued(a.scale(1 / b.const())):
        return a.scale(1 / b.const()), ZERO
    q, r = poly_divmod_exact(a, b)
    c = CTX()
    # 0 <= r < b  ==>  quotient q, remainder r
    if poly_is_int(q) and poly_is_int(r):
        if r.is_zero() or (c.nonneg(r) and c.nonneg(b - r - ONE)):
            return q, r
        if c.nonneg(-r - ONE) and c.nonneg(b + r):
            return q - ONE, r + b
        if not q.is_zero():
            dq, dm = _divmod(r, b)
            return q + dq, dm
    at = atom('f', 'idiv', a, b)
    am = atom('f', 'imod', a, b)
    return of_atom(at), of_atom(am)


def int_atom_candidates(p):
    s = set()
    for m in p.d:
        for a, e in m:
            s.add(a)
    return s


def radix_split(p):
    """p = m*q + s with |s| < m (m >= 1): p == 0 iff q == 0 and s == 0."""
    c = CTX()
    cands = []
    for m in p.d:
        if len(m) >= 2 or (len(m) == 1 and m[0][1] > 1):
            for a, e in m:
                if a not in cands:
                    cands.append(a)
    divs = [of_atom(a) for a in sorted(cands, key=lambda a: a.id)]
    # triangular divisors m(m+1)/2
    for a in list(cands):
        t = of_atom(a)
        divs.append((t * t + t).scale(Fr(1, 2)))
    divs.extend(c.radix_hints)
    for m in p.d:
        if m != () and len(m) == 1 and m[0][1] == 1 \
                and abs(p.d[m]) > 1 and p.d[m].denominator == 1:
            k = const(abs(p.d[m]))
            if k not in divs:
                divs.append(k)
    for b in divs:
        q, s = poly_divmod_exact(p, b)
        if q.is_zero() or s.is_zero() or q.is_const():
            if q.is_zero():
                continue
            if s.is_zero() and not q.is_const() and \
                    (b.is_const() or c.nonneg(b - ONE)):
                return q, ZERO
            continue
        if not (poly_is_int(q) and poly_is_int(s)):
            continue
        if c.nonneg(b - ONE - s) and c.nonneg(b - ONE + s):
            return q, s
    return None


def ge_split(p):
    """p = b*q + s with b >= 1 and 0 <= s < b: p >= 0 iff q >= 0; with
    -b <= s < 0: iff q >= 1.  Returns the new left hand side."""
    c = CTX()
    for v in sorted({a for m in p.d if len(m) > 1 for a, e in m},
                    key=lambda a: a.id):
        sp = split_by(p, v)
        if sp is None or sp[0].is_const() or v in sp[0].fv() or \
                v in sp[1].fv():
            continue
        q, r = sp
        if not poly_is_int(q):
            continue
        for t in (0, 1, -1):
            b = of_atom(v) - const(t)
            s = r + q.scale(t)
            if not poly_is_int(s) or not c.nonneg(b - ONE):
                continue
            if c.nonneg(s) and c.nonneg(b - ONE - s):
                return q
            if c.nonneg(-ONE - s) and c.nonneg(b + s):
                return q - ONE
    return None


def tri_split(p):
    """(k2 + k1(k1+1)/2) - (j2 + j1(j1+1)/2) == 0 with 0<=k2<=k1, 0<=j2<=j1
    iff k1 == j1 and k2 == j2."""
    c = CTX()
    pos, neg = [], []
    for m, co in p.d.items():
        if len(m) == 1 and m[0][1] == 2:
            if co == Fr(1, 2):
                pos.append(m[0][0])
            elif co == Fr(-1, 2):
                neg.append(m[0][0])
    for a in pos:
        for b in neg:
            A, B = of_atom(a), of_atom(b)
            rest = p - (A * A + A).scale(Fr(1, 2)) \
                + (B * B + B).scale(Fr(1, 2))
            # rest = k2 - j2
            ks = ZERO
            js = ZERO
            for m, co in rest.d.items():
                if co > 0:
                    ks = ks + of_mono(m, co)
                else:
                    js = js + of_mono(m, -co)
            if c.nonneg(ks) and c.nonneg(js) and c.nonneg(A - ks) \
                    and c.nonneg(B - js):
                return A - B, ks - js
    return None


def mk_tri(t):
    """t = k2 + k1(k1+1)/2 with 0 <= k2 <= k1  ->  (k1, k2) or None."""
    if t.is_const() and t.const().denominator == 1:
        n = int(t.const())
        k1 = 0
        while (k1 + 1) * (k1 + 2) // 2 <= n:
            k1 += 1
        return const(k1), const(n - k1 * (k1 + 1) // 2)
    c = CTX()
    # quadratic part must be (1/2) L^2 ; read L off
    lin = {}
    for m, co in t.d.items():
        if len(m) == 1 and m[0][1] == 2:
            r = _fsqrt(co * 2)
            if r is None:
                return None
            lin[m[0][0]] = r
    L = ZERO
    for a, r in lin.items():
        L = L + of_atom(a).scale(r)
    for sh in (0, -1, 1, -2, 2):
        b = L + const(sh)
        a2 = t - (b * b + b).scale(Fr(1, 2))
        if c.nonneg(a2) and c.nonneg(b - a2):
            return b, a2
    return None


def _fsqrt(x):
    if x < 0:
        return None
    from math import isqrt
    a, b = isqrt(x.numerator), isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return Fr(a, b)
    return None


# ------------------------------------------------------------ applications
SYMM_HEADS = {'M:invS'}      # array symbols that are symmetric matrices
REWRITE_APP = {}        # head -> fn(args) -> Poly or None (context rules)


def has_mod(p):
    for m in p.d:
        for a, e in m:
            if a.k == 'f' and a.a[0] == 'imod':
                return True
    return False


def fold_divmod(p):
    """b*idiv(a, b) + imod(a, b) = a"""
    for _ in range(12):
        q = _fold1(p)
        if q is None:
            return p
        p = q
    return p


def _fold1(p):
    for m, c in p.d.items():
        for a, e in m:
            if a.k != 'f' or a.a[0] != 'imod' or e != 1:
                continue
            num, b = a.a[1], a.a[2]
            rest = of_mono(tuple(x for x in m if x[0] is not a), c)
            dv = atom('f', 'idiv', num, b)
            other = rest * b * of_atom(dv)
            if all(p.d.get(mm) == cc for mm, cc in other.d.items()):
                return p - other - rest * of_atom(a) + rest * num
    return None


def app(head, *args):
    """Application of a symbol; integer index arguments are Polys, array
    arguments Lams."""
    if head == 'idiv':
        return mk_idiv(*args)
    if head == 'imod':
        return mk_imod(*args)
    if head in ('trow', 'tcol'):
        r = mk_tri(args[0])
        if r is not None:
            return r[0] if head == 'trow' else r[1]
        return of_atom(atom('f', head, *args))
    if any(isinstance(x, Poly) and len(x.d) > 1 and has_mod(x)
           for x in args):
        args = tuple(fold_divmod(x) if isinstance(x, Poly) else x
                     for x in args)
    for i, x in enumerate(args):
        if isinstance(x, Poly):
            inds = top_inds(x)
            if inds:
                return lift_one(x, inds, lambda q: app(
                    head, *(args[:i] + (q,) + args[i + 1:])))
    if head == 'abs' and canon_sign(args[0]) < 0:
        args = (-args[0],)
    if isinstance(head, tuple) and head[0] == 'D':
        # derivative symbol: ('D', f, nargs, slots) with slot indices appended
        head, args = canon_D(head, args)
    args = canon_symm(head, args)
    c = CTX()
    if c is not None:
        f = c.app_rules.get(head)
        if f is not None:
            r = f(args)
            if r is not None:
                return r
    return of_atom(atom('f', head, *args))


def canon_symm(head, args):
    """order the two matrix indices of a symmetric matrix symbol"""
    if isinstance(head, tuple) and head[0] == 'D':
        n, h = head[2], head[1]
    else:
        n, h = len(args), head
    if h in SYMM_HEADS and args[n - 1].key() < args[n - 2].key():
        args = args[:n - 2] + (args[n - 1], args[n - 2]) + args[n:]
    return args


def canon_D(head, args):
    _, f, nargs, slots = head
    base = args[:nargs]
    rest = args[nargs:]
    # slots: tuple of (argpos, nidx)
    items = []
    p = 0
    for (pos, nidx) in slots:
        items.append((pos, nidx, rest[p:p + nidx]))
        p += nidx
    items.sort(key=lambda t: (t[0], t[1], tuple(x.key() for x in t[2])))
    slots2 = tuple((a, b) for a, b, _ in items)
    rest2 = tuple(x for _, _, xs in items for x in xs)
    return ('D', f, nargs, slots2), base + rest2


# ------------------------------------------------------------ powers, etc.
def factor_small(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_pow(c, e):
    """c > 0 rational, e rational -> Poly"""
    if e.denominator == 1:
        return const(c ** int(e))
    out = ONE
    fs = {}
    for p, k in factor_small(c.numerator).items():
        fs[p] = fs.get(p, 0) + k
    for p, k in factor_small(c.denominator).items():
        fs[p] = fs.get(p, 0) - k
    for p, k in fs.items():
        g = e * k
        fl = g.numerator // g.denominator
        out = out.scale(Fr(p) ** fl)
        if g != fl:
            out = out * of_atom(atom('num', p), g - fl)
    return out


def mono_content(p):
    """(coef, common monomial (integer or fractional powers), rest)"""
    items = list(p.d.items())
    common = dict(items[0][0])
    for m, c in items[1:]:
        md = dict(m)
        for a in list(common):
            if a.k == 'ind':
                if a not in md:
                    del common[a]
                continue
            e = md.get(a, 0)
            common[a] = min(common[a], e)
        for a, e in md.items():
            if a not in common and e < 0:
                common[a] = e
    common = {a: e for a, e in common.items() if e != 0 and a.k != 'ind'}
    if common:
        inv = tuple(sorted(((a, -e) for a, e in common.items()),
                           key=lambda t: t[0].id))
        rest = p * of_mono(inv)
    else:
        rest = p
    lead = canon_lead(rest)
    rest = rest.scale(1 / lead)
    mono = tuple(sorted(common.items(), key=lambda t: t[0].id))
    return lead, mono, rest


def canon_lead(p):
    best = None
    for m, c in p.d.items():
        k = tuple((a.id, e) for a, e in m)
        if best is None or k < best[0]:
            best = (k, c)
    # normalise by the absolute value of the constant-ish leading coefficient
    return best[1]


def mk_pow(p, e):
    """p ** e for rational e.  Negative: p != 0; fractional: p > 0 (proved by
    the caller)."""
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if e.denominator == 1 and e > 0:
        out = ONE
        base = p
        n = int(e)
        while n:
            if n & 1:
                out = out * base
            n >>= 1
            if n:
                base = base * base
        return out
    inds = top_inds(p)
    if inds:
        return lift_one(p, inds, lambda q: mk_pow(q, e))
    if p.is_zero():
        return undef()
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return _mono_pow(m, c, e)
    p2 = cancel(p)
    if p2 is not p:
        return mk_pow(p2, e)
    facs = factor(p)
    out = None
    coef, lst = facs
    sign = 1
    if coef < 0:
        if e.denominator != 1:
            # move the sign into one factor of odd power
            for i, (f, k) in enumerate(lst):
                if k % 2 == 1:
                    lst[i] = (-f, k)
                    coef = -coef
                    break
            else:
                return undef()
        else:
            sign = -1 if int(e) % 2 else 1
            coef = -coef
    out = const_pow(coef, e).scale(sign)
    for f, k in lst:
        if len(f.d) == 1:
            (m, c), = f.d.items()
            out = out * _mono_pow(m, c, e * k)
        else:
            out = out * _poly_pow(f, e * k)
    return out


def _poly_pow(f, e):
    if e.denominator == 1 and e > 0:
        return mk_pow(f, e)
    if e.denominator != 1:
        c = CTX()
        if (e * 2).denominator == 1 and (2 * e) % 2 == 1:
            pass
        if c.sign(f) == -1:
            f = -f
        # fractional part with |.| semantics: even powers need positivity
        fl = e.numerator // e.denominator
        fr = e - fl
        base = of_atom(atom('poly', f), fr)
        if fl:
            return base * _poly_pow(f, Fr(fl))
        return base
    return of_atom(atom('poly', f), e)


def _mono_pow(m, c, e):
    if e.denominator != 1:
        if c < 0:
            # (-a)(..): find a factor known negative
            for i, (a, k) in enumerate(m):
                if k % 2 == 1 and CTX().sign(of_atom(a)) == -1:
                    neg = of_atom(atom('poly', -of_atom(a)), e * k)
                    rest = m[:i] + m[i + 1:]
                    return neg * _mono_pow(rest, -c, e)
            return of_atom(atom('poly', of_mono(m, c)), e)
        out = const_pow(c, e)
        for a, k in m:
            g = k * e
            s = CTX().sign(of_atom(a)) if CTX() is not None else None
            if s == 1:
                out = out * of_atom(a, g)
            elif k % 2 == 0 and k.denominator == 1:
                # (a^2)^e = |a|^(2e)
                if s == -1:
                    out = out * mk_pow(-of_atom(a), g)
                else:
                    out = out * mk_pow(app('abs', of_atom(a)), g)
            else:
                out = out * of_atom(a, g)
        return out
    out = const(c ** int(e)) if c != 0 else undef()
    lst = []
    for a, k in m:
        if a.k == 'ind':
            raise Unsupported('power of indicator')
        lst.append((a, k * e))
    acc = out
    for a, k in lst:
        if a.k == 'poly' and k > 0 and k.denominator == 1:
            acc = acc * mk_pow(a.a[0], k)
        else:
            acc = acc * of_atom(a, k)
    return acc


def expand_polys(p):
    """Expand positive integer powers of polynomial atoms."""
    for m in p.d:
        for a, e in m:
            if a.k == 'poly' and e >= 1:
                break
        else:
            continue
        break
    else:
        return p
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for a, e in m:
            if a.k == 'poly' and e >= 1:
                fl = e.numerator // e.denominator
                t = t * mk_pow(a.a[0], fl)
                if e != fl:
                    t = t * of_atom(a, e - fl)
            else:
                t = t * of_mono(((a, e),))
        out = out + t
    return expand_polys(out)


def undef():
    return of_atom(atom('v', fresh_name('undef'), 'r'))


def mk_exp(p):
    if p.is_zero():
        return ONE
    inds = top_inds(p)
    if inds:
        return lift_one(p, inds, mk_exp)
    p = cancel(p)
    out = ONE
    for m, c in p.d.items():
        if len(m) == 1 and m[0][0].k == 'log' and m[0][1] == 1:
            base = m[0][0].a[0]
            s = CTX().sign(base)
            if s == 1:
                out = out * mk_pow(base, c)
                continue
            if s == -1:
                out = out * mk_pow(-base, c)
                continue
        out = out * of_atom(atom('exp', m), c)
    return out


def mk_log(p):
    """log |p|"""
    inds = top_inds(p)
    if inds:
        return lift_one(p, inds, mk_log)
    if p.is_zero():
        return undef()
    if p.is_const():
        c = abs(p.const())
        out = ZERO
        for q, k in factor_small(c.numerator).items():
            out = out + of_atom(atom('log', const(q))).scale(k)
        for q, k in factor_small(c.denominator).items():
            out = out - of_atom(atom('log', const(q))).scale(k)
        return out
    if len(p.d) > 1:
        p2 = cancel(p)
        if p2 is not p:
            return mk_log(p2)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = mk_log(const(c))
        for a, e in m:
            out = out + _log_atom(a).scale(e)
        return out
    coef, lst = factor(p)
    out = mk_log(const(coef))
    for f, k in lst:
        if len(f.d) == 1:
            out = out + mk_log(f).scale(k)
        else:
            if canon_lead(f) < 0:
                f = -f
            out = out + of_atom(atom('log', f)).scale(k)
    return out


def _log_atom(a):
    if a.k == 'exp':
        return of_mono(a.a[0])
    if a.k == 'poly':
        return mk_log(a.a[0])
    if a.k == 'num':
        return of_atom(atom('log', const(a.a[0])))
    if a.k == 'f' and a.a[0] == 'abs':
        return mk_log(a.a[1])
    return of_atom(atom('log', of_atom(a)))


# --------------------------------------- rational normalisation and factors
def has_neg(p):
    for m in p.d:
        for a, e in m:
            if a.k == 'poly' and e < 0:
                return True
    return False


def denominators(p):
    """atoms with negative integer powers of 'poly' kind -> max power"""
    den = {}
    for m in p.d:
        for a, e in m:
            if a.k == 'poly' and e < 0:
                fl = -(e.numerator // e.denominator)
                den[a] = max(den.get(a, 0), fl)
    return den


def clear_den(p):
    """Multiply p by the (non-zero) denominators until none is left; returns
    the numerator polynomial and the list of (poly, power) used."""
    used = []
    guard = 0
    while True:
        den = denominators(p)
        if not den:
            return p, used
        guard += 1
        if guard > 20:
            return p, used
        for a, k in den.items():
            base = a.a[0]
            used.append((base, k))
            d = ZERO
            pw = {}
            for m, c in p.d.items():
                e = Fr(0)
                rest = []
                for b, f in m:
                    if b is a:
                        e = f
                    else:
                        rest.append((b, f))
                g = e + k
                t = of_mono(tuple(rest), c)
                fl = g.numerator // g.denominator
                if fl not in pw:
                    pw[fl] = mk_pow(base, fl)
                t = t * pw[fl]
                if g != fl:
                    t = t * of_atom(a, g - fl)
                d = d + t
            p = d


_cancel_cache = {}


def cancel(p):
    """Bring a sum with polynomial denominators over a common denominator and
    cancel exact divisions; returns p itself when there is nothing to do."""
    if len(p.d) < 2 or not has_neg(p):
        return p
    r = _cancel_cache.get(p)
    if r is not None:
        return r
    num, used = clear_den(p)
    if num.is_zero():
        _cancel_cache[p] = ZERO
        return ZERO
    if len(num.d) > 200:
        _cancel_cache[p] = p
        return p
    dens = {}
    for b, k in used:
        dens[b] = dens.get(b, 0) + k
    out = num
    outden = []
    for b, k in dens.items():
        while k > 0:
            q, r = poly_divmod_exact(out, b)
            if r.is_zero() and len(b.d) > 1:
                out = q
                k -= 1
            else:
                break
        if k > 0:
            outden.append((b, k))
    # keep the quotient as (factored numerator) * inverse denominators
    if not outden:
        res = out
    else:
        inv = ONE
        for b, k in outden:
            inv = inv * of_atom(atom('poly', b), -k)
        if len(out.d) == 1:
            res = out * inv
        else:
            coef, mono, rest = mono_content(out)
            # represent as product with an explicit positive power
            res = _Frac(out, inv)
    if isinstance(res, _Frac):
        # expanded form (no further simplification possible)
        res2 = out * inv
        _cancel_cache[p] = p if res2 == p else res2
        return _cancel_cache[p]
    _cancel_cache[p] = res
    return res


class _Frac(object):
    def __init__(self, n, d):
        self.n, self.d = n, d


_factor_cache = {}


def factor(p):
    """p = coef * prod f_i^k_i (f_i Polys, possibly single atoms with any
    exponents).  Denominators are cleared first."""
    r = _factor_cache.get(p)
    if r is not None:
        return r[0], list(r[1])
    num, used = clear_den(p)
    lst = []
    for b, k in used:
        lst.append((b, -k))
    coef, mono, rest = mono_content(num)
    for a, e in mono:
        lst.append((of_atom(a), e))
    if len(rest.d) > 1:
        c2, fs = _sym_factor(rest)
        coef = coef * c2
        lst.extend(fs)
    else:
        (m, c), = rest.d.items()
        coef = coef * c
        for a, e in m:
            lst.append((of_atom(a), e))
    # merge
    merged = {}
    order = []
    for f, k in lst:
        if f not in merged:
            merged[f] = Fr(0)
            order.append(f)
        merged[f] += k
    lst = [(f, merged[f]) for f in order if merged[f] != 0]
    _factor_cache[p] = (coef, lst)
    return coef, list(lst)


def _sym_factor(p):
    import sympy
    if len(p.d) > 60:
        return ONE_F, [(p, Fr(1))]
    ats = sorted(p.atoms(), key=lambda a: a.id)
    # scale fractional exponents: use atom^(1/q) as generator
    den = {}
    for m in p.d:
        for a, e in m:
            q = den.get(a, 1)
            den[a] = q * e.denominator // _gcd(q, e.denominator)
    syms = {a: sympy.Symbol('x%d' % i) for i, a in enumerate(ats)}
    expr = []
    for m, c in p.d.items():
        t = sympy.Rational(c.numerator, c.denominator)
        for a, e in m:
            g = e * den[a]
            if g < 0:
                return ONE_F, [(p, Fr(1))]
            t = t * syms[a] ** int(g)
        expr.append(t)
    try:
        coef, fl = sympy.factor_list(sympy.Add(*expr))
    except Exception:
        return ONE_F, [(p, Fr(1))]
    inv = {s: a for a, s in syms.items()}
    out = []
    cf = Fr(int(coef.p), int(coef.q))
    for f, k in fl:
        pol = sympy.Poly(f, *[syms[a] for a in ats])
        q = ZERO
        for mon, c in pol.terms():
            m = tuple((a, Fr(int(e), den[a])) for a, e in zip(ats, mon) if e)
            cc = Fr(int(c.p), int(c.q)) if hasattr(c, 'p') else Fr(str(c))
            # re-multiply so that 'num' atoms normalise
            t = const(cc)
            for x in m:
                t = t * of_mono((x,))
            q = q + t
        lead = canon_lead(q)
        q = q.scale(1 / lead)
        cf = cf * lead ** int(k)
        out.append((q, Fr(int(k))))
    return cf, out


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


# ------------------------------------------------------------------- sums
def mk_sum(iv, n, p):
    """Sum over 0 <= iv < n of p (iv a bare integer variable Poly)."""
    a = the_atom(iv)
    if n.is_const():
        k = n.const()
        if k.denominator != 1:
            raise Unsupported('non-integer bound')
        out = ZERO
        for i in range(int(k)):
            out = out + subst(p, {a: const(i)})
        return out
    if not a.a[0].startswith('s!'):
        iv2 = fresh('s')
        p = subst(p, {a: iv2}, simplify=False)
        iv, a = iv2, the_atom(iv2)
    return sum_poly([(a, n)], p)


def open_sum(at):
    """sum atom -> (list of (iv atom, bound), body Poly)"""
    bounds, body, d = at.a
    ivs = [fresh('s') for _ in bounds]
    mp = {atom('bv', d + i): iv for i, iv in enumerate(ivs)}
    bp = ONE
    for x, e in body:
        bp = bp * mk_pow(subst(of_atom(x), mp, simplify=False), e)
    return [(the_atom(iv), b) for iv, b in zip(ivs, bounds)], bp


def _sum_mono(binders, m):
    """Sum over binders of the monomial m -> Poly (normal form)."""
    # merge nested sums that depend on a binder
    bset = {a for a, n in binders}
    for x, e in m:
        if x.k == 'sum' and e > 0 and e.denominator == 1 and (x.fv & bset):
            rest = []
            for y, f in m:
                if y is x:
                    if f > 1:
                        rest.append((y, f - 1))
                else:
                    rest.append((y, f))
            bs, body = open_sum(x)
            full = of_mono(tuple(rest)) * body
            out = ZERO
            c = CTX()
            c.push()
            try:
                free = []
                for a, n in bs:
                    dep = n.fv() & bset
                    if dep:
                        # a bound that depends on an outer index
                        top = n
                        for b, nn in binders:
                            if b not in dep:
                                continue
                            sp = split_by(top, b)
                            if sp is None or not sp[0].is_const() or \
                                    b in sp[1].fv() or nn.fv() & bset:
                                raise Unsupported('dependent sum bound')
                            top = subst(top, {b: nn - ONE if sp[0].const()
                                              > 0 else ZERO})
                        full = full * mk_ind('ge', n - ONE - of_atom(a))
                        n = top
                    free.append((a, n))
                    c.add_range(of_atom(a), n)
                bs = free
                for mm, co in full.d.items():
                    out = out + _sum_mono(binders + bs, mm).scale(co)
            finally:
                c.pop()
            return out
    # delta elimination and range restriction
    for x, e in m:
        if x.k != 'ind' or not (x.fv & bset):
            continue
        kind, q = x.a
        for bi, (a, n) in enumerate(binders):
            if a not in q.fv():
                continue
            sp = split_by(q, a)
            if sp is None or not sp[0].is_const() or sp[0].is_zero():
                continue
            co = sp[0].const()
            r = sp[1]
            if a in r.fv():
                continue
            if kind == 'eq':
                val = r.scale(-1 / co)
                if abs(co) != 1 and not poly_is_int(val):
                    continue
                if any(a in nn.fv() and b in r.fv() for b, nn in binders):
                    continue
                rest = of_mono(tuple(y for y in m if y[0] is not x))
                body = mk_ind('ge', val) * mk_ind('ge', n - ONE - val)
                if body.is_zero():
                    return ZERO
                nb = [(b, subst(nn, {a: val}) if a in nn.fv() else nn)
                      for b, nn in binders[:bi] + binders[bi + 1:]]
                body = subst(rest, {a: val}) * body
                return sum_poly(nb, body)
            if kind == 'ge' and abs(co) == 1 and not (r.fv() & bset):
                cx = CTX()
                if co == 1:
                    # a >= e, e = -r
                    ee = -r
                    if cx.nonneg(ee) and cx.nonneg(n - ee):
                        rest = of_mono(tuple(y for y in m if y[0] is not x))
                        na = fresh('s')
                        body = subst(rest, {a: na + ee})
                        nb = binders[:bi] + [(the_atom(na), n - ee)] + \
                            binders[bi + 1:]
                        return sum_poly(nb, body)
                else:
                    # a <= e, e = r : bound e + 1
                    ee = r
                    if cx.nonneg(ee + ONE) and cx.nonneg(n - ee - ONE):
                        rest = of_mono(tuple(y for y in m if y[0] is not x))
                        nb = binders[:bi] + [(a, ee + ONE)] + binders[bi + 1:]
                        return sum_poly(nb, rest)
    return _close(binders, m)


def sum_poly(binders, p):
    c = CTX()
    c.push()
    try:
        for a, n in binders:
            c.add_range(of_atom(a), n)
        for a, n in binders:
            if n.is_const():
                rest = [(b, k) for b, k in binders if b is not a]
                out = ZERO
                for i in range(int(n.const())):
                    out = out + sum_poly(rest, subst(p, {a: const(i)}))
                return out
        sp = _radix_split(c, binders, p)
        if sp is not None:
            return sp
        p = resimp_inds(resolve_inds(p))
        sp = _range_split(c, binders, p)
        if sp is not None:
            return sp
        out = ZERO
        for m, co in p.d.items():
            out = out + (_sum_mono(binders, m) if binders else of_mono(m)
                         ).scale(co)
        return out
    finally:
        c.pop()


def decoded(p, ats):
    """atoms idiv(t, b), imod(t, b) inside p with t one of the atoms"""
    out, seen = [], set()

    def walk(x):
        if isinstance(x, Poly):
            if x.fv() & ats:
                for b in x.atoms():
                    walk(b)
        elif isinstance(x, Atom):
            if x in seen or not (x.fv & ats):
                return
            seen.add(x)
            if x.k == 'f' and x.a[0] in ('idiv', 'imod') and \
                    the_atom(x.a[1]) in ats:
                out.append(x)
            for y in x.a:
                walk(y)
        elif isinstance(x, Lam):
            for d in x.dims:
                walk(d)
            walk(x.body)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return out


def _radix_split(c, binders, p):
    """a sum over t < m b whose terms decode t as (t // b, t % b) is a sum over
    the two digits"""
    bset = {a for a, n in binders}
    for x in decoded(p, bset):
        t, b = the_atom(x.a[1]), x.a[2]
        if b.is_const() or (b.fv() & bset):
            continue
        i = [k for k, (a, n) in enumerate(binders) if a is t][0]
        n = binders[i][1]
        if any(t in m.fv() for a, m in binders):
            continue
        q, r = poly_divmod_exact(n, b)
        if not r.is_zero() or not c.nonneg(b) or not c.nonneg(q):
            continue
        h, l = fresh('s'), fresh('s')
        c.push()
        try:
            c.add_range(h, q)
            c.add_range(l, b)
            body = subst(p, {t: b * h + l})
        finally:
            c.pop()
        return sum_poly(binders[:i] + [(the_atom(h), q), (the_atom(l), b)] +
                        binders[i + 1:], body)
    return None


def _range_split(c, binders, p):
    """Sum of f + [a >= e] g + [a < e] h as three sums with plain ranges."""
    inds = [x for x in top_inds(p) if x.a[0] == 'ge']
    if not inds:
        return None
    bset = {a for a, n in binders}
    for x in sorted(inds, key=lambda y: y.id):
        q = x.a[1]
        if not poly_is_int(q):
            continue
        for bi, (a, n) in enumerate(binders):
            if a not in q.fv():
                continue
            sp = split_by(q, a)
            if sp is None or not sp[0].is_const() or \
                    abs(sp[0].const()) != 1:
                continue
            r = sp[1]
            if r.fv() & bset or any(a in nn.fv() for b, nn in binders):
                continue
            up = sp[0].const() == 1
            e = -r if up else r + ONE
            if not (c.nonneg(e) and c.nonneg(n - e)):
                continue
            p1, p0 = set_ind(p, x, 1), set_ind(p, x, 0)
            com = Poly({m: k for m, k in p1.d.items() if p0.d.get(m) == k})
            lo, hi = (p0 - com, p1 - com) if up else (p1 - com, p0 - com)
            out = ZERO
            if com.d:
                out = out + sum_poly(binders, com)
            if lo.d:
                out = out + sum_poly(binders[:bi] + [(a, e)] +
                                     binders[bi + 1:], lo)
            if hi.d:
                na = fresh('s')
                c.push()
                try:
                    c.add_range(na, n - e)
                    hi = subst(hi, {a: na + e})
                finally:
                    c.pop()
                out = out + sum_poly(binders[:bi] + [(the_atom(na), n - e)] +
                                     binders[bi + 1:], hi)
            return out
    return None


def resimp_inds(p):
    """Re-normalise equality indicators under the current ranges."""
    for a in sorted(top_inds(p), key=lambda x: x.id):
        if a.a[0] != 'eq':
            continue
        q = mk_ind('eq', a.a[1])
        if the_atom(q) is a:
            continue
        p0 = set_ind(p, a, 0)
        p1 = set_ind(p, a, 1)
        # p = a*(p1-p0) + p0
        p = q * (p1 - p0) + p0
    return p


def _close(binders, m):
    """No further elimination: split into connected components and close."""
    bound_atoms = [a for a, n in binders]
    bset = set(bound_atoms)
    out = ONE
    free = [(x, e) for x, e in m if not (x.fv & bset)]
    dep = [(x, e) for x, e in m if x.fv & bset]
    for x, e in free:
        out = out * (of_mono(((x, e),)))
    comps = []     # list of (set of atoms, list of factors)
    nmap = dict(binders)
    for x, e in dep:
        s = set(x.fv & bset)
        merged = [c for c in comps if c[0] & s]
        comps = [c for c in comps if not (c[0] & s)]
        fs = [(x, e)]
        for c in merged:
            s |= c[0]
            fs = c[1] + fs
        comps.append((s, fs))
    used = set()
    for s, fs in comps:
        used |= s
    for a, n in binders:
        if n.fv() & bset:
            raise Unsupported('dependent sum bound')
        if a not in used:
            out = out * n
    for s, fs in comps:
        bs = [(a, nmap[a]) for a in bound_atoms if a in s]
        out = out * _close_comp(bs, fs)
    return out


def _close_comp(bs, fs):
    if len(bs) == 1 and len(fs) == 1 and fs[0][0] is bs[0][0]:
        n = bs[0][1]
        if fs[0][1] == 1:
            return (n * n - n).scale(Fr(1, 2))
        if fs[0][1] == 2:
            return (n * (n - ONE) * (n.scale(2) - ONE)).scale(Fr(1, 6))
    d = 0
    for x, e in fs:
        d = max(d, x.h)
    for a, n in bs:
        d = max(d, n.h())
    best = None
    for perm in _perms(bs, fs):
        mp = {a: of_atom(atom('bv', d + i)) for i, (a, n) in enumerate(perm)}
        body = ONE
        for x, e in fs:
            y = subst(of_atom(x), mp, simplify=False)
            ya = the_atom(y)
            if ya is not None:
                body = body * of_mono(((ya, e),))
            else:
                body = body * mk_pow(y, e)
        if len(body.d) != 1:
            raise Unsupported('sum body not monomial after renaming')
        (bm, bc), = body.d.items()
        key = (tuple(n.key() for a, n in perm),
               tuple((x.id, e) for x, e in bm))
        if best is None or key < best[0]:
            best = (key, perm, bm, bc)
    _, perm, bm, bc = best
    at = atom('sum', tuple(n for a, n in perm), bm, d)
    return of_atom(at).scale(bc)


def _refine(bs, fs, col):
    """Colour refinement of the binders (invariant under renaming); col: list
    of colours, refined until stable."""
    mark = of_atom(atom('v', '@mark', 'i'))
    n = len(bs)
    while True:
        anon = [of_atom(atom('v', '@anon%d' % q, 'i')) for q in col]
        sigs = []
        for i, (a, dim) in enumerate(bs):
            sig = []
            for x, e in fs:
                if a in x.fv:
                    mp = {b: anon[k] for k, (b, _) in enumerate(bs)
                          if b in x.fv}
                    mp[a] = mark
                    y = subst(of_atom(x), mp, simplify=False)
                    sig.append((y.key(), e))
            sig.sort()
            sigs.append((col[i], tuple(sig)))
        srt = sorted(set(sigs))
        pos = {}
        k = 0
        cnt = {}
        for s in sigs:
            cnt[s] = cnt.get(s, 0) + 1
        for s in srt:
            pos[s] = k
            k += cnt[s]
        new = [pos[s] for s in sigs]
        if len(set(new)) == len(set(col)):
            return new
        col = new
        if len(srt) == n:
            return col


def _swap_ok(bs, fs, i, j):
    """exchanging the two binders leaves the product unchanged"""
    a, b = bs[i][0], bs[j][0]
    mp = {a: of_atom(b), b: of_atom(a)}
    p = q = ONE
    for x, e in fs:
        if a in x.fv or b in x.fv:
            y = subst(of_atom(x), mp, simplify=False)
            ya = the_atom(y)
            if ya is None:
                return False
            p = p * of_mono(((x, e),))
            q = q * of_mono(((ya, e),))
    return p == q


def _perms(bs, fs):
    """Orders of the binders among which the canonical one is chosen: leaves
    of an individualisation-refinement tree."""
    if len(bs) == 1:
        return [bs]
    col = [sum(1 for b, m in bs if m.key() < n.key()) for a, n in bs]
    out = []

    def go(col):
        col = _refine(bs, fs, col)
        cells = {}
        for i, q in enumerate(col):
            cells.setdefault(q, []).append(i)
        big = sorted(q for q in cells if len(cells[q]) > 1)
        if not big:
            if len(out) >= 720:
                raise Unsupported('too many symmetric binders')
            out.append([bs[i] for i in sorted(range(len(bs)),
                                              key=lambda i: col[i])])
            return
        q = big[0]
        tried = []
        for i in cells[q]:
            if any(_swap_ok(bs, fs, i, j) for j in tried):
                continue
            tried.append(i)
            c = [x + 1 if (x == q and k != i) else x
                 for k, x in enumerate(col)]
            go(c)
    go(col)
    return out


# ----------------------------------------------------------- substitution
def subst(p, mp, simplify=True, heads=None, memo=None):
    """Substitute variable atoms (mp: atom -> Poly) and array symbols
    (heads: name -> fn(args) -> Poly)."""
    if not mp and not heads:
        return p
    keys = set(mp) if mp else set()
    if heads:
        keys |= set(heads)
    if not (p.fv() & keys):
        return p
    if memo is None:
        memo = {}
    out = ZERO
    for m, c in p.d.items():
        t = None
        keep = []
        for a, e in m:
            if a.fv & keys:
                q = _subst_atom(a, mp, simplify, heads, memo, keys)
                qa = the_atom(q)
                if qa is not None:
                    q = of_mono(((qa, e if qa.k != 'ind' else ONE_F),))
                elif e != 1:
                    q = mk_pow(q, e)
                t = q if t is None else t * q
            else:
                keep.append((a, e))
        kp = of_mono(tuple(keep), c)
        out = out + (kp if t is None else kp * t)
    return out


# substitute below binders under the ranges of the bound variables
WITH_RANGES = [0]


def _under(ivs, dims, p, mp, simplify, heads):
    if not WITH_RANGES[0]:
        return subst(p, mp, simplify, heads)
    c = CTX()
    c.push()
    try:
        for iv, n in zip(ivs, dims):
            c.add_range(iv, n)
        return subst(p, mp, simplify, heads)
    finally:
        c.pop()


def _subst_atom(a, mp, simplify, heads, memo, keys):
    r = memo.get(a)
    if r is not None:
        return r
    k = a.k
    if k in ('v', 'bv'):
        r = mp.get(a) if mp else None
        if r is None:
            r = of_atom(a)
    elif k == 'f':
        args = []
        for x in a.a[1:]:
            if isinstance(x, Lam):
                args.append(_subst_lam(x, mp, simplify, heads, keys))
            else:
                args.append(subst(x, mp, simplify, heads, memo))
        if heads and a.a[0] in heads:
            r = heads[a.a[0]](*args)
        elif simplify:
            r = app(a.a[0], *args)
        else:
            hd, ar = a.a[0], tuple(args)
            if isinstance(hd, tuple) and hd[0] == 'D':
                hd, ar = canon_D(hd, ar)
            ar = canon_symm(hd, ar)
            if hd == 'abs' and canon_sign(ar[0]) < 0:
                ar = (-ar[0],)
            r = of_atom(atom('f', hd, *ar))
    elif k == 'sum':
        bs, body = open_sum(a)
        body2 = _under([of_atom(x) for x, n in bs], [n for x, n in bs],
                       body, mp, simplify, heads)
        bs2 = [(x, subst(n, mp, simplify, heads)) for x, n in bs]
        if simplify:
            r = sum_poly(bs2, body2)
        else:
            if len(body2.d) != 1:
                r = sum_poly(bs2, body2)
            else:
                (bm, bc), = body2.d.items()
                r = _close(bs2, bm).scale(bc)
    elif k == 'ind':
        if simplify:
            r = mk_ind(a.a[0], subst(a.a[1], mp, simplify, heads, memo))
        else:
            r = mk_ind(a.a[0], subst(a.a[1], mp, simplify, heads, memo),
                       simplify=False)
    elif k == 'exp':
        r = mk_exp(subst(of_mono(a.a[0]), mp, simplify, heads, memo))
    elif k == 'log':
        r = mk_log(subst(a.a[0], mp, simplify, heads, memo))
    elif k == 'poly':
        r = subst(a.a[0], mp, simplify, heads, memo)
        # the caller raises to the exponent
    else:
        raise Unsupported('subst ' + k)
    memo[a] = r
    return r


def _subst_lam(x, mp, simplify, heads, keys):
    if not (x.fv() & keys):
        return x
    ivs, body = x.open()
    dims = tuple(subst(n, mp, simplify, heads) for n in x.dims)
    body = _under(ivs, x.dims, body, mp, simplify, heads)
    d = body.h()
    mp2 = {the_atom(iv): of_atom(atom('bv', d + i)) for i, iv in enumerate(ivs)}
    body = subst(body, mp2, simplify=False)
    return Lam(dims, body, d)


# ------------------------------------------------------------ derivatives
DERIV = {'gammaln': 'digamma', 'digamma': 'trigamma', 'trigamma': 'polygamma2'}


def diff(p, target, idx=None):
    """Derivative of p w.r.t. scalar variable atom `target` (idx None), or
    w.r.t. entry idx of the array symbol named `target`."""
    if target not in p.fv():
        return ZERO
    out = ZERO
    for m, c in p.d.items():
        for i, (a, e) in enumerate(m):
            if target in a.fv:
                da = diff_atom(a, target, idx)
                if da.is_zero():
                    continue
                rest = m[:i] + m[i + 1:]
                t = of_mono(rest, c * e)
                if e != 1:
                    t = t * of_atom(a, e - 1) if a.k != 'poly' else \
                        t * _poly_pow(a.a[0], e - 1)
                out = out + t * da
    return out


def diff_atom(a, target, idx):
    k = a.k
    if k == 'v':
        return ONE if a is target else ZERO
    if k == 'f':
        hd = a.a[0]
        args = a.a[1:]
        if hd == target:
            out = ONE
            for x, y in zip(args, idx):
                out = out * mk_ind('eq', x - y)
            return out
        if hd in DERIV:
            return app(DERIV[hd], args[0]) * diff(args[0], target, idx)
        if hd == 'abs':
            raise Unsupported('derivative of abs')
        out = ZERO
        if isinstance(hd, tuple) and hd[0] == 'D':
            _, f, nargs, slots = hd
        else:
            f, nargs, slots = hd, len(args), ()
        for pos in range(len(args)):
            x = args[pos]
            if target not in x.fv():
                continue
            if pos >= nargs:
                raise Unsupported('derivative w.r.t. an index')
            if isinstance(x, Lam):
                ivs, body = x.open()
                c = CTX()
                c.push()
                try:
                    for iv, n in zip(ivs, x.dims):
                        c.add_range(iv, n)
                    db = diff(body, target, idx)
                finally:
                    c.pop()
                dh = ('D', f, nargs, slots + ((pos, len(ivs)),))
                t = app(dh, *(args + tuple(ivs))) * db
                out = out + sum_poly(
                    [(the_atom(iv), n) for iv, n in zip(ivs, x.dims)], t)
            else:
                dh = ('D', f, nargs, slots + ((pos, 0),))
                out = out + app(dh, *args) * diff(x, target, idx)
        return out
    if k == 'sum':
        bs, body = open_sum(a)
        c = CTX()
        c.push()
        try:
            for x, n in bs:
                c.add_range(of_atom(x), n)
            db = diff(body, target, idx)
        finally:
            c.pop()
        return sum_poly(bs, db)
    if k == 'ind':
        return ZERO
    if k == 'exp':
        return of_atom(a) * diff(of_mono(a.a[0]), target, idx)
    if k == 'log':
        return diff(a.a[0], target, idx) * mk_pow(a.a[0], -1)
    if k == 'poly':
        return diff(a.a[0], target, idx)
    raise Unsupported('diff ' + k)


# --------------------------------------------------------------- printing
def show(p):
    if not p.d:
        return '0'
    out = []
    for m, c in p.d.items():
        s = []
        for a, e in m:
            t = show_atom(a)
            if e != 1:
                t += '^%s' % (e if e.denominator == 1 else '(%s)' % e)
            s.append(t)
        body = '*'.join(s)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(body)
        elif c == -1:
            out.append('-' + body)
        else:
            out.append('%s*%s' % (c, body))
    return ' + '.join(out)


def _sh(x):
    return show(x) if isinstance(x, Poly) else repr(x)


def show_atom(a):
    k = a.k
    if k == 'v':
        return a.a[0]
    if k == 'bv':
        return '_%d' % a.a[0]
    if k == 'f':
        hd = a.a[0]
        if isinstance(hd, tuple):
            hd = '.'.join(str(x) for x in hd)
        return '%s(%s)' % (hd, ', '.join(_sh(x) for x in a.a[1:]))
    if k == 'sum':
        bounds, body, d = a.a
        return 'SUM{%s}[%s]' % (
            ','.join('_%d<%s' % (d + i, show(b))
                     for i, b in enumerate(bounds)), show(of_mono(body)))
    if k == 'ind':
        op = {'ge': '>=', 'gt': '>', 'eq': '=='}[a.a[0]]
        return '[%s %s 0]' % (show(a.a[1]), op)
    if k == 'exp':
        return 'exp(%s)' % show(of_mono(a.a[0]))
    if k == 'log':
        return 'log(%s)' % show(a.a[0])
    if k == 'poly':
        return '(%s)' % show(a.a[0])
    if k == 'num':
        return str(a.a[0])
    return '<%s>' % k
