"""Discharging of equality obligations: normal form, common denominators,
identities of the trusted matrix symbols, case analysis on indicators and z3
(cvc5 as a second opinion when z3 gives up)."""
import time

from fractions import Fraction as Fr

import z3

from . import terms as T
from . import core
from .terms import ZERO, ONE, const, Unsupported, CTX, the_atom, of_atom


def rebuild(p):
    """Re-normalise every atom of p under the current facts."""
    mp = {a: of_atom(a) for a in p.fv()
          if isinstance(a, T.Atom) and a.k == 'v'}
    if mp:
        p = T.subst(p, mp)
    return T.resolve_inds(p)


def nf(p):
    """Normal form attempts that need no case analysis."""
    p = T.resolve_inds(p)
    if p.is_zero():
        return p
    q = T.expand_polys(p)
    if q.is_zero():
        return q
    if T.has_neg(q):
        try:
            n, used = T.clear_den(q)
            n = T.expand_polys(n)
            if n.is_zero():
                return n
            if T.has_neg(n) is False and len(n.d) < len(q.d):
                q = n
        except Unsupported:
            pass
    return q


def simplify(p):
    """normal form with the identities of the matrix symbols"""
    p = nf(p)
    if rewrite.useful(p):
        p = nf(rewrite.rewrite(p, CTX().sum_rules))
    return p


def map_sums(p, f, memo=None):
    """rebuild p with f applied to every sum atom"""
    if memo is None:
        memo = {}
    if not any(_has_sum(a) for m in p.d for a, e in m):
        return p
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for a, e in m:
            if _has_sum(a):
                r = memo.get(a)
                if r is None:
                    r = memo[a] = _map_atom(a, f, memo)
                t = t * T.mk_pow(r, e)
            else:
                t = t * T.of_mono(((a, e),))
        out = out + t
    return out


_hs = {}


def _has_sum(a):
    r = _hs.get(a)
    if r is None:
        r = _hs[a] = a.k == 'sum' or any(_hs_any(x) for x in a.a)
    return r


def _hs_any(x):
    if isinstance(x, T.Poly):
        return any(_has_sum(b) for b in x.atoms())
    if isinstance(x, T.Atom):
        return _has_sum(x)
    if isinstance(x, tuple):
        return any(_hs_any(y) for y in x)
    return False


def _map_atom(a, f, memo):
    k = a.k
    if k == 'sum':
        return f(a)
    if k == 'exp':
        return T.mk_exp(map_sums(of_mono_(a.a[0]), f, memo))
    if k == 'log':
        return T.mk_log(map_sums(a.a[0], f, memo))
    if k == 'poly':
        return map_sums(a.a[0], f, memo)
    if k == 'ind':
        return T.mk_ind(a.a[0], map_sums(a.a[1], f, memo))
    if k == 'f':
        return T.app(a.a[0], *[map_sums(x, f, memo) if isinstance(x, T.Poly)
                               else x for x in a.a[1:]])
    return of_atom(a)


def of_mono_(m):
    return T.of_mono(m)


def const_offset(p, v):
    """p = v + r: constant part of r, or None"""
    sp = T.split_by(p, v)
    if sp is None or sp[0] != ONE:
        return None
    return sp[1].d.get((), 0)


def int_args(p, v, out):
    for a in p.atoms():
        _int_args(a, v, out)


def _int_args(a, v, out):
    if v not in a.fv:
        return
    if a.k == 'f':
        for x in a.a[1:]:
            if isinstance(x, T.Poly) and v in x.fv():
                o = const_offset(x, v)
                if o is not None and T.poly_is_int(x):
                    out.append(o)
                else:
                    int_args(x, v, out)
        return
    for x in a.a:
        if isinstance(x, T.Poly):
            int_args(x, v, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], T.Atom):
                    _int_args(y[0], v, out)


def align_sum(a):
    """Sums with a bound n + c (c a constant) over n terms instead, shifted
    so that index arguments carry no constant offset."""
    if len(a.a[0]) != 1:
        return of_atom(a)
    bs, body = T.open_sum(a)
    (v, n), = bs
    c = n.d.get((), 0)
    if n.is_const() or c.denominator != 1 or abs(c) > 4:
        return of_atom(a)
    if not CTX().nonneg(n - const(c)):
        return of_atom(a)
    offs = []
    int_args(body, v, offs)
    sh = 0
    if offs:
        sh = min(offs)
        if sh.denominator != 1 or abs(sh) > 4:
            sh = 0
    sh = int(sh)
    base = n - const(c)
    iv = of_atom(v)
    # sum over sh <= t < n + sh of body(t - sh)
    b2 = T.subst(body, {v: iv - const(sh)}) if sh else body
    out = T.mk_sum(iv, base, b2)
    lo, hi = sh, int(c) + sh       # want lo <= t < base + hi
    for t in range(0, lo):
        out = out - T.subst(b2, {v: const(t)})
    for t in range(lo, 0):
        out = out + T.subst(b2, {v: const(t)})
    for t in range(0, hi):
        out = out + T.subst(b2, {v: base + const(t)})
    for t in range(hi, 0):
        out = out - T.subst(b2, {v: base + const(t)})
    return out


def align(p):
    return map_sums(p, align_sum)


def solve_eq(a):
    """for an equality indicator: (variable atom, value) or None"""
    return solve_eq_poly(a.a[1])


def solve_eq_poly(p):
    for v in sorted(p.atoms(), key=lambda x: -x.id):
        if v.k != 'v':
            continue
        sp = T.split_by(p, v)
        if sp is None or not sp[0].is_const() or sp[0].is_zero():
            continue
        c = sp[0].const()
        if v.a[1] == 'i' and abs(c) != 1:
            continue
        r = sp[1].scale(-1 / c)
        if v in r.fv():
            continue
        if v.a[1] == 'i' and not T.poly_is_int(r):
            continue
        return v, r
    return None


def inner_inds(p, out=None, seen=None):
    """indicators (free of bound variables) anywhere inside p"""
    if out is None:
        out, seen = [], set()

    def at(a):
        if a in seen:
            return
        seen.add(a)
        if a.k == 'ind' and a.h == 0:
            if a not in out:
                out.append(a)
        for x in a.a:
            walk(x)

    def walk(x):
        if isinstance(x, T.Poly):
            for b in x.atoms():
                at(b)
        elif isinstance(x, T.Atom):
            at(x)
        elif isinstance(x, T.Lam):
            walk(x.body)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return [a for a in out if not any(
        isinstance(v, T.Atom) and v.k == 'bv' for v in a.fv)]


class Budget(object):
    def __init__(self, n):
        self.n = n


def zero(p, depth=4, budget=None):
    """(proved?, back end, detail) for p == 0 under the current facts."""
    if budget is None:
        budget = Budget(300)
    budget.n -= 1
    if p.is_zero():
        return True, 'normal-form', None
    q = nf(p)
    if q.is_zero():
        return True, 'normal-form', None
    c = CTX()
    if _hs_any(q):
        q1 = align(q)
        if q1 != q:
            q1 = nf(q1)
            if q1.is_zero():
                return True, 'sum-alignment', None
    for rule in c.rules:
        r = rule(q)
        if r is not None:
            q = nf(r)
            if q.is_zero():
                return True, 'rewriting', None
    eng = _eng()
    if eng is not None:
        eng.check_time()
    if depth > 0 and budget.n > 0 and gather(q, depth, budget):
        return True, 'entry of the sum', None
    if rewrite.useful(q):
        q1 = nf(rewrite.rewrite(q, c.sum_rules))
        if q1.is_zero():
            return True, 'matrix identities', None
        if q1 != q:
            q = q1
        q1 = rewrite.expand_eig(q)
        if q1 is not None:
            q1 = nf(rewrite.rewrite(nf(q1), c.sum_rules))
            if q1.is_zero():
                return True, 'matrix identities', None
    if depth > 0 and budget.n > 0:
        c.push()
        try:
            q2 = split_vars(q)
            if q2 is not q:
                return zero(q2, depth, budget)
        finally:
            c.pop()
        r = q3 = None
        q3 = split_bounds(q)
        if q3 is not q:
            return zero(q3, depth, budget)
        r = range_question(q)
        if r is not None:
            det = None
            for f in (r, -r - ONE):
                c.push()
                try:
                    c.add_fact('ge', f)
                    if not feasible_quick(c):
                        continue
                    ok, b, det = zero(rebuild(q), depth - 1, budget)
                    if not ok:
                        return ok, b, det
                finally:
                    c.pop()
            return True, 'case-split', None
    if depth > 0 and budget.n > 0:
        cand = sorted(T.top_inds(q), key=lambda x: x.id)
        if not cand:
            cand = [a for a in inner_inds(q)]
        if cand:
            # prefer equalities (substitution)
            a = next((x for x in cand if x.a[0] == 'eq' and solve_eq(x)),
                     cand[0])
            ok_all, back = True, 'case-split'
            det = None
            for val in (1, 0):
                c.push()
                try:
                    if c.assume_ind(a, bool(val)) is False:
                        continue
                    if not feasible_quick(c):
                        continue
                    r = T.set_ind(q, a, val)
                    if val and a.a[0] == 'eq':
                        s = solve_eq(a)
                        if s is not None:
                            inherit(c, *s)
                            r = T.subst(r, {s[0]: s[1]})
                    elif a.a[0] == 'ge' and T.poly_is_int(a.a[1]):
                        d = a.a[1] if val else -a.a[1] - ONE
                        if c.nonneg(-d):
                            s = solve_eq_poly(d)
                            if s is not None:
                                inherit(c, *s)
                                r = T.subst(r, {s[0]: s[1]})
                    r = rebuild(r)
                    ok, b, det = zero(r, depth - 1, budget)
                    if not ok:
                        ok_all = False
                        break
                finally:
                    c.pop()
            if ok_all:
                return True, back, None
            return False, None, det
    if depth > 0 and budget.n > 0:
        r = enumerate_small(q, depth, budget)
        if r is not None:
            return r
        q1 = congruence(q)
        if q1 is not None:
            return zero(q1, depth - 1, budget)
    if depth > 0 and budget.n > 0:
        q1 = use_equalities(q)
        if q1 is not None:
            return zero(q1, depth - 1, budget)
    if len(q.d) <= 80:
        r = c.z3_decide('eq', q, timeout=2500)
        if r is True:
            return True, 'z3', None
        if not any(a.k == 'ind' for a in q.atoms()) and c.facts and \
                z3_zero(c, q):
            return True, 'z3', None
    return False, None, 'residual: ' + T.show(q)[:600]


def congruence(q):
    """q with applications of one function at equal arguments (equal as
    rational functions) identified"""
    by = {}
    for a in q.atoms():
        if a.k == 'f' and len(a.a) > 1 and all(
                isinstance(x, T.Poly) for x in a.a[1:]):
            by.setdefault((a.a[0], len(a.a)), []).append(a)
    sub = {}
    for l in by.values():
        if len(l) > 12:
            continue
        l.sort(key=lambda a: a.id)
        for i, a in enumerate(l):
            for b in l[:i]:
                if b not in sub and all(
                        x == y or T.cancel(x - y).is_zero()
                        for x, y in zip(a.a[1:], b.a[1:])):
                    sub[a] = b
                    break
    if not sub:
        return None
    out = ZERO
    for m, co in q.d.items():
        t = const(co)
        for a, e in m:
            t = t * T.of_mono(((sub.get(a, a), e),))
        out = out + t
    return out


def gather(q, depth, budget):
    """a combination of sums over the same range whose terms involve
    conditions on reals: zero if the combined term is"""
    if len(q.d) < 2 or len(q.d) > 60:
        return False
    bound = None
    k = T.fresh('s')
    tot = ZERO
    real_ind = False
    for m, co in q.d.items():
        sums = [(a, e) for a, e in m if a.k == 'sum']
        if len(sums) != 1 or sums[0][1] != 1 or len(sums[0][0].a[0]) != 1:
            return False
        bs, body = T.open_sum(sums[0][0])
        (v, n), = bs
        if bound is None:
            bound = n
        elif bound != n:
            return False
        real_ind = real_ind or any(not T.poly_is_int(x.a[1])
                                   for x in T.top_inds(body))
        t = T.subst(body, {v: k}).scale(co)
        for a, e in m:
            if a.k != 'sum':
                t = t * T.of_mono(((a, e),))
        tot = tot + t
    if not real_ind:
        return False
    c = CTX()
    c.push()
    try:
        c.add_range(k, bound)
        return zero(rebuild(tot), depth - 1, budget)[0]
    finally:
        c.pop()


def enumerate_small(q, depth, budget):
    """case split over an index variable with a small constant range"""
    c = CTX()
    best = None
    for a in q.fv():
        if not isinstance(a, T.Atom) or a.k != 'v' or a.a[1] != 'i':
            continue
        los = [p.const() for p in c.lo.get(a, ()) if p.is_const()]
        his = [p.const() for p in c.hi.get(a, ()) if p.is_const()]
        if los and his:
            n = min(his) - max(los) + 1
            if n <= 12 and (best is None or n < best[0]):
                best = (n, a, int(max(los)), int(min(his)))
    if best is None:
        return None
    _, a, lo, hi = best
    for t in range(lo, hi + 1):
        c.push()
        try:
            c.add_fact('eq', of_atom(a) - const(t))
            inherit(c, a, const(t))
            if not feasible_quick(c):
                continue
            ok, b, det = zero(rebuild(T.subst(q, {a: const(t)})), depth,
                              budget)
            if not ok:
                return ok, b, det
        finally:
            c.pop()
    return True, 'case-split', None


def walk_atoms(p, f, seen=None):
    """f on every atom inside p (bodies of sums and Lams included)"""
    if seen is None:
        seen = set()

    def walk(x):
        if isinstance(x, T.Poly):
            for b in x.atoms():
                walk(b)
        elif isinstance(x, T.Atom):
            if x not in seen:
                seen.add(x)
                f(x)
                for y in x.a:
                    walk(y)
        elif isinstance(x, T.Lam):
            for d in x.dims:
                walk(d)
            walk(x.body)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)


POSITIONAL = ('trow', 'tcol', 'idiv', 'imod')


def has_idiv(p):
    return any(a.k == 'f' and a.a[0] == 'idiv' for a in p.atoms())


def split_vars(p):
    """Write index variables in the positional form their decoded parts ask
    for: t = r(r+1)/2 + c where row/column of a triangular position occur.
    Returns the new term (facts on the new variables are added to the current
    context, which the caller pushed)."""
    c = CTX()
    for _ in range(6):
        hit = []

        def see(a):
            if a.k == 'f' and a.a[0] in POSITIONAL:
                t = the_atom(a.a[1])
                if t is not None and t.k == 'v' and not hit and \
                        c.lo.get(t) and c.hi.get(t) and c.nonneg(of_atom(t)):
                    hit.append((t, a))
        walk_atoms(p, see)
        if not hit:
            return p
        t, a = hit[0]
        if a.a[0] in ('idiv', 'imod'):
            b = a.a[2]
            if t in b.fv() or not c.nonneg(b - ONE):
                return p
            r, k = T.fresh('r'), T.fresh('c')
            ra, ka = the_atom(r), the_atom(k)
            c.add_lo(ra, ZERO)
            c.add_range(k, b)
            for h in c.hi.get(t, ()):
                hq = T.mk_idiv(h, b)
                if not (hq.fv() & {t}) and not has_idiv(hq):
                    c.add_hi(ra, hq)
            v = b * r + k
            inherit(c, t, v)
            p = rebuild(T.subst(p, {t: v}))
            continue
        r, k = T.fresh('r'), T.fresh('c')
        ra, ka = the_atom(r), the_atom(k)
        c.add_lo(ra, ZERO)
        c.add_lo(ka, ZERO)
        c.add_hi(ka, r)
        for h in c.hi.get(t, ()):
            hr = T.mk_tri(h)
            if hr is not None:
                c.add_hi(ra, hr[0])
        v = (r * (r + ONE)).scale(Fr(1, 2)) + k
        inherit(c, t, v)
        p = rebuild(T.subst(p, {t: v}))
    return p


def split_bounds(p):
    """sums with the same terms and two bounds in known order: the longer one
    as the shorter one plus the rest"""
    c = CTX()
    sums = {}
    for m in p.d:
        for a, e in m:
            if a.k == 'sum' and len(a.a[0]) == 1:
                sums.setdefault(a.a[1], [])
                if a not in sums[a.a[1]]:
                    sums[a.a[1]].append(a)
    for body, ats in sums.items():
        for a in ats:
            for b in ats:
                if a is b:
                    continue
                na, nb = a.a[0][0], b.a[0][0]
                d = na - nb
                if d.is_const() or not c.nonneg(d):
                    continue
                bs, bd = T.open_sum(a)
                (v, n), = bs
                t = T.fresh('s')
                c.push()
                try:
                    c.add_range(t, d)
                    bd2 = T.subst(bd, {v: t + nb})
                finally:
                    c.pop()
                rep = of_atom(b) + T.mk_sum(t, d, bd2)
                q = core._repl(p, a, rep)
                if a not in q.atoms():
                    return q
    return p


def use_equalities(q):
    """replace array entries and real variables by what the path and the
    assumptions say they are equal to; None when nothing applies"""
    c = CTX()
    mp = []
    for kind, p in c.facts:
        if kind != 'eq' or T.poly_is_int(p):
            continue
        for s in mp:
            p = T.subst(p, s)
        for v in sorted(p.atoms(), key=lambda x: -x.id):
            if v.k != 'v' or v.a[1] == 'i':
                continue
            sp = T.split_by(p, v)
            if sp is None or not sp[0].is_const() or sp[0].is_zero() or \
                    v in sp[1].fv():
                continue
            mp.append({v: sp[1].scale(-1 / sp[0].const())})
            break
    out = q
    for s in mp:
        if out.fv() & set(s):
            out = rebuild(T.subst(out, s))
    if c.eqs:
        out = c.equal_entries(out)
    return None if out == q else out


def range_question(p):
    """an order between a bound of a sum and a threshold inside it that would
    let the sum be split, or None"""
    c = CTX()
    cand = []

    def see(a):
        if a.k != 'sum' or any(isinstance(v, T.Atom) and v.k == 'bv'
                               for v in a.fv):
            return
        bs, body = T.open_sum(a)
        own = {b for b, n in bs}
        for x in T.top_inds(body):
            if x.a[0] != 'ge' or not T.poly_is_int(x.a[1]):
                continue
            for b, n in bs:
                if b not in x.a[1].fv():
                    continue
                sp = T.split_by(x.a[1], b)
                if sp is None or not sp[0].is_const() or \
                        abs(sp[0].const()) != 1 or sp[1].fv() & own:
                    continue
                e = -sp[1] if sp[0].const() == 1 else sp[1] + ONE
                for q in (e, n - e):
                    if not c.nonneg(q) and not c.nonneg(-q) and \
                            not any(isinstance(v, T.Atom) and v.k == 'bv'
                                    for v in q.fv()):
                        cand.append(q)
    walk_atoms(p, see)
    return cand[0] if cand else None


def inherit(c, v, r):
    """v is replaced by r: keep v's range facts for r"""
    for l in c.lo.get(v, ()):
        c.add_fact('ge', r - l)
    for h in c.hi.get(v, ()):
        c.add_fact('ge', h - r)


def feasible_quick(c):
    return c.z3_feasible(300) != z3.unsat


def z3_zero(c, q):
    return False


def _eng():
    from .sym import Eng
    return Eng.cur


def holds(p, depth=4):
    """0/1 term p is 1"""
    p = T.resolve_inds(p)
    if p == ONE:
        return True, 'normal-form', None
    c = CTX()
    r = c.z3_bool(p, 3000, need=('t',))
    if r is True:
        return True, 'z3', None
    if len(p.d) == 1:
        (m, k), = p.d.items()
        if k == 1 and all(a.k == 'ind' for a, e in m) and \
                any(_has_sum(a) for a, e in m):
            for a, e in m:
                if a.a[0] != 'eq':
                    break
                ok, be, det = zero(a.a[1], depth)
                if not ok:
                    return False, be, det
            else:
                return True, 'case-split', None
    if any(a.k == 'f' and a.a[0] in POSITIONAL for a in _all_atoms(p)):
        c.push()
        try:
            p2 = split_vars(p)
            if p2 is not p:
                return holds(p2, depth)
        finally:
            c.pop()
    return zero(p - ONE, depth)


def _all_atoms(p):
    out = []
    walk_atoms(p, out.append)
    return out


from . import rewrite  # noqa: E402
