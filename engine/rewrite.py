"""Rewriting of sums by identities of trusted matrix symbols:
    sum_v inv(A)(u,v) A(v,j) = [u == j]          (inverse)
    sum_i V(i,k) V(i,l) = [k == l], sum_k V(i,k) V(j,k) = [i == j]   (eigh)
and by hypotheses that are sums (registered by contracts)."""
from . import terms as T
from .terms import ZERO, ONE, const, Unsupported, CTX, the_atom, of_atom


class SumRule(object):
    """sum over `binders` of the product of `factors` (atoms) == rhs, where
    the pattern variables `pvars` stand for arbitrary index terms.
    binders: [(atom, bound Poly)], factors: [(atom, int)],
    rhs: Poly over the pattern variables."""

    def __init__(self, binders, factors, pvars, rhs, name=''):
        self.binders = list(binders)
        self.factors = []
        for a, e in factors:
            if e.denominator != 1 or e < 1:
                raise Unsupported('rule with a fractional power')
            self.factors += [a] * int(e)
        self.pvars = set(pvars)
        self.rhs = rhs
        self.name = name

    def apply(self, binders, m):
        """(binders', polynomial) or None"""
        tb = {a: n for a, n in binders}
        tf = []
        for a, e in m:
            tf.append([a, e])
        pb = {a: n for a, n in self.binders}
        c = CTX()

        def same(p, q):
            return p == q or (p - q).is_zero() or \
                (T.poly_is_int(p - q) and c.int_decide('eq', p - q) is True)

        def mpoly(pat, tgt, bind):
            """list of extended bindings"""
            fv = pat.fv()
            a = the_atom(pat)
            if a is not None and a in self.pvars:
                if a in bind:
                    return [bind] if same(bind[a], tgt) else []
                b = dict(bind)
                b[a] = tgt
                return [b]
            if a is not None and a in pb:
                t = the_atom(tgt)
                if t is None or t not in tb:
                    return []
                if a in bind:
                    return [bind] if the_atom(bind[a]) is t else []
                if any(v is not a and the_atom(bind[v]) is t
                       for v in pb if v in bind):
                    return []
                n = pb[a]
                if n.fv() & (self.pvars | set(pb)):
                    n = T.subst(n, {k: v for k, v in bind.items()})
                    if n.fv() & (self.pvars | set(pb)):
                        return []
                if not same(n, tb[t]):
                    return []
                b = dict(bind)
                b[a] = tgt
                return [b]
            loc = (self.pvars | set(pb)) & fv
            if not loc:
                return [bind] if same(pat, tgt) else []
            unb = [v for v in loc if v not in bind]
            if not unb:
                q = T.subst(pat, {v: bind[v] for v in loc})
                return [bind] if same(q, tgt) else []
            if len(unb) == 1:
                sp = T.split_by(pat, unb[0])
                if sp is not None and sp[0].is_const() and \
                        abs(sp[0].const()) == 1 and unb[0] not in sp[1].fv():
                    r = sp[1]
                    if r.fv() & loc:
                        r = T.subst(r, {v: bind[v] for v in loc
                                        if v in bind})
                    val = (tgt - r).scale(1 / sp[0].const())
                    return mpoly(of_atom(unb[0]), val, bind)
            return []

        def matom(pat, tgt, bind):
            if pat.k != tgt.k:
                return []
            if not (pat.fv & (self.pvars | set(pb))):
                return [bind] if pat is tgt else []
            if pat.k == 'f':
                if pat.a[0] != tgt.a[0] or len(pat.a) != len(tgt.a):
                    return []
                orders = [list(range(1, len(pat.a)))]
                if pat.a[0] in T.SYMM_HEADS or pat.a[0] == 'M:invS':
                    o = orders[0]
                    orders.append(o[:-2] + [o[-1], o[-2]])
                out = []
                for o in orders:
                    bs = [bind]
                    for i, j in enumerate(o):
                        x, y = pat.a[1 + i], tgt.a[j]
                        nb = []
                        for b in bs:
                            nb += marg(x, y, b)
                        bs = nb
                        if not bs:
                            break
                    for b in bs:
                        if b not in out:
                            out.append(b)
                return out
            if pat.k == 'ind':
                return mpoly(pat.a[1], tgt.a[1], bind) \
                    if pat.a[0] == tgt.a[0] else []
            if pat.k == 'exp':
                return mpoly(T.of_mono(pat.a[0]), T.of_mono(tgt.a[0]), bind)
            if pat.k in ('log', 'poly'):
                return mpoly(pat.a[0], tgt.a[0], bind)
            if pat.k == 'v':
                return mpoly(of_atom(pat), of_atom(tgt), bind)
            return []

        def marg(x, y, b):
            if isinstance(x, T.Poly) != isinstance(y, T.Poly):
                return []
            if isinstance(x, T.Poly):
                return mpoly(x, y, b)
            loc = x.fv() & (self.pvars | set(pb)) \
                if isinstance(x, T.Lam) else ()
            if loc:
                if any(v not in b for v in loc):
                    return []
                x = T._subst_lam(x, {v: b[v] for v in loc}, True, None,
                                 set(loc))
            return [b] if x == y else []

        found = []

        def search(i, bind, used):
            if found:
                return
            if i == len(self.factors):
                r = finish(bind, used)
                if r is not None:
                    found.append(r)
                return
            pat = self.factors[i]
            for j, (a, e) in enumerate(tf):
                if e.denominator != 1 or e - used.get(j, 0) < 1:
                    continue
                for b in matom(pat, a, bind):
                    u = dict(used)
                    u[j] = u.get(j, 0) + 1
                    search(i + 1, b, u)
                    if found:
                        return

        def finish(bind, used):
            gone = set()
            for v in pb:
                if v not in bind:
                    return None
                gone.add(the_atom(bind[v]))
            rest = []
            for j, (a, e) in enumerate(tf):
                e2 = e - used.get(j, 0)
                if e2 != 0:
                    if a.fv & gone:
                        return None
                    rest.append((a, e2))
            for v in self.pvars:
                if v in bind and bind[v].fv() & gone:
                    return None
            nb = []
            for a, n in binders:
                if a in gone:
                    continue
                if n.fv() & gone:
                    return None
                nb.append((a, n))
            rhs = self.rhs
            if rhs.fv() & self.pvars:
                if any(v not in bind for v in rhs.fv() & self.pvars):
                    return None
                rhs = T.subst(rhs, {v: bind[v] for v in self.pvars
                                    if v in bind})
            return nb, T.of_mono(tuple(rest)) * rhs

        search(0, {}, {})
        return found[0] if found else None


def pv(base='pv'):
    return T.fresh(base)


def inverse_rules(at):
    """rules for the inverse of the matrix named in the atom"""
    lam = at.a[1]
    head = at.a[0]
    n = lam.dims[0]
    v, j, u = pv(), pv(), pv()
    c = CTX()
    c.push()
    try:
        for x in (v, j, u):
            c.add_range(x, n)
        out = []
        for side in ('left', 'right'):
            if side == 'right' and head == 'M:invS':
                break
            body = lam.at([v, j] if side == 'left' else [j, v])
            body = T.resolve_inds(body)
            if not body.d:
                return []
            inv = T.app(head, lam, u, v) if side == 'left' else \
                T.app(head, lam, v, u)
            ms = sorted(body.d.items(), key=lambda mc: T.Poly(
                {mc[0]: T.ONE_F}).key())
            # the leading monomial must mention both indices
            lead = [(m, co) for m, co in ms
                    if {the_atom(v), the_atom(j)} <= fvm(m) and
                    not any(a.k == 'ind' for a, e in m)]
            for m, co in lead[:1]:
                rest = T.Poly({k: x for k, x in body.d.items() if k != m})
                rhs = T.mk_ind('eq', u - j) - \
                    T.mk_sum(v, n, inv * rest)
                bs = [(the_atom(v), n)]
                fs = []
                for a, e in m:
                    if a.k == 'sum' and e == 1:
                        b2, bd = T.open_sum(a)
                        bs += b2
                        (m2, c2), = bd.d.items()
                        co = co * c2
                        fs += list(m2)
                    else:
                        fs.append((a, e))
                ia = the_atom(inv)
                out.append(SumRule(bs, [(ia, T.ONE_F)] + fs,
                                   [the_atom(u), the_atom(j)],
                                   rhs.scale(1 / co), 'inverse'))
        return out
    finally:
        c.pop()


def fvm(m):
    s = set()
    for a, e in m:
        s |= a.fv
    return s


def eig_rules(at):
    lam = at.a[1]
    n = lam.dims[0]
    i, j, k = pv(), pv(), pv()
    V = lambda a, b: the_atom(T.app('M:eigvec', lam, a, b))
    one = T.ONE_F
    ai, aj, ak = the_atom(i), the_atom(j), the_atom(k)
    out = [
        SumRule([(ai, n)], [(V(i, j), one), (V(i, k), one)], [aj, ak],
                T.mk_ind('eq', j - k), 'eigenvectors orthonormal'),
        SumRule([(ai, n)], [(V(j, i), one), (V(k, i), one)], [aj, ak],
                T.mk_ind('eq', j - k), 'eigenvectors complete')]
    c = CTX()
    r = c.projections.get(lam)
    if r is not None:
        c.push()
        try:
            for x in (j, k):
                c.add_range(x, n)
            out.append(SumRule(
                [(ai, r)], [(V(j, i + n - r), one), (V(k, i + n - r), one)],
                [aj, ak], lam.at([j, k]), 'range of a projection'))
        finally:
            c.pop()
    return out


def expand_eig(p):
    """V(i,l) -> sum_j P(i,j) V(j,l) for the columns l of a projection P that
    have eigenvalue 1; None if there are none"""
    c = CTX()
    if not c.projections:
        return None
    hit = [False]

    def eigvec(lam, i, l):
        r = c.projections.get(lam)
        n = lam.dims[0]
        if r is None or c.int_decide('ge', l - n + r) is not True:
            return of_atom(T.atom('f', 'M:eigvec', lam, i, l))
        hit[0] = True
        j = T.fresh('j')
        c.push()
        try:
            c.add_range(j, n)
            return T.mk_sum(j, n, lam.at([i, j]) * of_atom(
                T.atom('f', 'M:eigvec', lam, j, l)))
        finally:
            c.pop()
    def at(a):
        bs, body = T.open_sum(a)
        c.push()
        try:
            for v, n in bs:
                c.add_range(of_atom(v), n)
            return T.sum_poly(bs, T.subst(body, {},
                                          heads={'M:eigvec': eigvec}))
        finally:
            c.pop()
    from .prove import map_sums
    q = map_sums(p, at)
    q = T.subst(q, {}, heads={'M:eigvec': eigvec}) if q is p else q
    return q if hit[0] else None


AUTO = {'M:inv': inverse_rules, 'M:invS': inverse_rules,
        'M:eigvec': eig_rules}


def auto_rules(p):
    """rules for the matrix symbols inside p"""
    c = CTX()
    out = []
    seen = set()

    def see(a):
        if a.k == 'f' and a.a[0] in AUTO:
            key = (a.a[0], a.a[1])
            if key in seen or any(isinstance(v, T.Atom) and v.k == 'bv'
                                  for v in a.a[1].fv()):
                return
            seen.add(key)
            ck = (c.ver, 'rules') + key
            r = c.cache.get(ck)
            if r is None:
                r = c.cache[ck] = AUTO[a.a[0]](a)
            out.extend(r)
    from .prove import walk_atoms
    walk_atoms(p, see)
    return out


def rewrite(p, rules, limit=40):
    """apply the rules to the sums of p until nothing changes"""
    from .prove import map_sums
    changed = [False]

    def at(a):
        bs, body = T.open_sum(a)
        c = CTX()
        c.push()
        try:
            for v, n in bs:
                c.add_range(of_atom(v), n)
            out = ZERO
            hit = False
            for m, co in body.d.items():
                r = None
                for rule in rules + auto_rules(body):
                    r = rule.apply(bs, m)
                    if r is not None:
                        break
                if r is None:
                    out = out + T.sum_poly(bs, T.Poly({m: co}))
                else:
                    hit = True
                    nb, q = r
                    out = out + (T.sum_poly(nb, q) if nb else q).scale(co)
            if hit:
                changed[0] = True
                return out
            # sums nested in the factors
            inner = map_sums(body, at)
            if inner != body:
                return T.sum_poly(bs, inner)
            return of_atom(a)
        finally:
            c.pop()
    for _ in range(limit):
        changed[0] = False
        q = map_sums(p, at)
        if not changed[0]:
            return q
        p = T.resolve_inds(q)
        if p.is_zero():
            return p
    return p


def useful(p):
    """does p mention a symbol with identities?"""
    c = CTX()
    if c.sum_rules:
        return True
    hit = []

    def see(a):
        if a.k == 'f' and a.a[0] in AUTO:
            hit.append(a)
    from .prove import walk_atoms
    walk_atoms(p, see)
    return bool(hit)
