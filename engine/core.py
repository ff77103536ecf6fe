"""Verification context: facts about the current path, decision procedures
(interval / substitution reasoning, z3, cvc5), path exploration and proof
obligations."""
import itertools
import time
from fractions import Fraction as Fr

import z3

from . import terms as T
from .terms import (Poly, Lam, ZERO, ONE, const, of_atom, atom, the_atom,
                    Unsupported)


class PathEnd(Exception):
    """The current path is infeasible."""


class Stats(object):
    def __init__(self):
        self.z3_time = 0.0
        self.z3_calls = 0
        self.backends = {}

    def count(self, b):
        self.backends[b] = self.backends.get(b, 0) + 1


STATS = Stats()


class Ctx(object):
    def __init__(self):
        self.stack = []
        self.lo = {}          # atom -> list of Poly   (atom >= poly)
        self.hi = {}          # atom -> list of Poly   (atom <= poly)
        self.facts = []       # (kind, Poly): poly kind 0
        self.bools = []       # Poly (0/1 valued) known to be 1
        self.foralls = []     # universally quantified facts
        self.masks = {}       # lam -> (mask, length, count)
        self.rank_mode = False
        self.axioms = {}      # head -> fn(args) -> list of (kind, Poly)
        self.signs = {}       # head or atom -> 1 / -1  (strict)
        self.app_rules = {}
        self.eqs = []         # (head, matcher): entries known to be equal
        self.rules = []       # sum rewriting rules (matrix identities)
        self.sum_rules = []   # hypotheses and lemmas: see rewrite.SumRule
        self.projections = {} # Lam -> rank, matrices shown to be projections
        self.radix_hints = []
        self.ver = 0
        self._vc = 0
        self.cache = {}
        self.wd_fail = []
        self.sdepth = 0

    # ---- scoping
    def push(self):
        self.stack.append((dict(self.lo), dict(self.hi), len(self.facts),
                           len(self.bools), len(self.foralls), self.ver))

    def pop(self):
        lo, hi, nf, nb, na, ver = self.stack.pop()
        self.lo, self.hi = lo, hi
        del self.facts[nf:]
        del self.bools[nb:]
        del self.foralls[na:]
        self.ver = ver

    def bump(self):
        self._vc += 1
        self.ver = self._vc

    # ---- facts
    def add_lo(self, a, p):
        cur = self.lo.get(a, ())
        if p not in cur:
            self.lo[a] = cur + (p,)
            self.bump()

    def his(self, a):
        """upper bounds of the atom, those of decoded positions included"""
        cur = self.hi.get(a, ())
        if a.k != 'f' or a.a[0] not in ('idiv', 'imod', 'trow', 'tcol',
                                         'I:sel', 'I:rank'):
            return cur
        key = (self.ver, 'his', a)
        r = self.cache.get(key)
        if r is None:
            self.cache[key] = cur
            out = list(cur)
            h = a.a[0]
            if h in ('I:sel', 'I:rank'):
                info = self.masks.get(a.a[1])
                if info is not None and h == 'I:sel':
                    out.append(info[1] - ONE)
                elif info is not None:
                    out.append(info[2])
                    out.append(info[2] - info[0]([a.a[2]]))
                self.cache[key] = tuple(out)
                return self.cache[key]
            t = the_atom(a.a[1])
            if h == 'idiv' and self.syn_nonneg(a.a[1]) and \
                    self.syn_nonneg(a.a[2] - ONE):
                out.append(a.a[1])
            if h == 'tcol':
                out.append(T.app('trow', a.a[1]))
            elif h == 'imod':
                out.append(a.a[2] - ONE)
            if t is not None and h in ('idiv', 'trow'):
                for b in self.his(t):
                    if h == 'trow':
                        q = T.mk_tri(b)
                        q = q and q[0]
                    else:
                        q = T.mk_idiv(b, a.a[2])
                        qa = the_atom(q)
                        if qa is not None and qa.k == 'f' and \
                                qa.a[0] == 'idiv':
                            q = None
                    if q is not None:
                        out.append(q)
            r = self.cache[key] = tuple(out)
        return r

    def add_hi(self, a, p):
        cur = self.hi.get(a, ())
        if p not in cur:
            self.hi[a] = cur + (p,)
            self.bump()

    def add_range(self, iv, n):
        a = the_atom(iv)
        self.add_lo(a, ZERO)
        self.add_hi(a, n - ONE)

    def add_fact(self, kind, p):
        """p >= 0 ('ge'), p > 0 ('gt'), p == 0 ('eq')"""
        if p.is_const():
            return
        if kind == 'gt' and T.poly_is_int(p):
            kind, p = 'ge', p - ONE
        if (kind, p) in self.facts:
            return
        self.facts.append((kind, p))
        # bounds for single variables with unit coefficient
        if T.poly_is_int(p):
            for a in p.atoms():
                if a.k != 'v':
                    continue
                sp = T.split_by(p, a)
                if sp is None or not sp[0].is_const() or sp[0].is_zero():
                    continue
                c = sp[0].const()
                r = sp[1]
                if abs(c) != 1 or a in r.fv():
                    continue
                if kind in ('ge', 'eq'):
                    if c == 1:
                        self.add_lo(a, -r)
                    else:
                        self.add_hi(a, r)
                if kind == 'eq':
                    if c == 1:
                        self.add_hi(a, -r)
                    else:
                        self.add_lo(a, r)
        self.bump()

    def equal_entries(self, p, ranges=()):
        """p with the known equalities of array entries applied"""
        T.WITH_RANGES[0] += 1
        self.push()
        try:
            for iv, n in ranges:
                self.add_range(iv, n)
            for head, match in self.eqs:
                if head not in p.fv():
                    continue

                def fn(*args):
                    r = match(args)
                    return T.app(head, *args) if r is None else r
                p = T.subst(p, {}, heads={head: fn})
            return p
        finally:
            self.pop()
            T.WITH_RANGES[0] -= 1

    def add_equalities(self, lam, ivs, body):
        """for every index: entry of an array == the rest of the equation"""
        for kind, p in bool_facts(body):
            if kind != 'eq':
                continue
            p = self.equal_entries(p, list(zip(ivs, lam.dims)))
            best = None
            for a in p.atoms():
                if a.k != 'f' or not isinstance(a.a[0], str) or \
                        not a.a[0].startswith('A:') or \
                        set(a.a[1:]) != set(ivs) or \
                        len(a.a) != len(ivs) + 1:
                    continue
                sp = T.split_by(p, a)
                if sp is None or not sp[0].is_const() or sp[0].is_zero() or \
                        a.a[0] in sp[1].fv():
                    continue
                if best is None or a.id > best[0].id:
                    best = a, sp[1].scale(-1 / sp[0].const())
            if best is None:
                continue
            a, r = best
            pos = [list(ivs).index(x) for x in a.a[1:]]
            mp = [the_atom(x) for x in ivs]

            def match(args, pos=pos, r=r, mp=mp, dims=lam.dims):
                ix = [None] * len(pos)
                for k, x in zip(pos, args):
                    ix[k] = x
                for x, d in zip(ix, dims):
                    if not self.nonneg(x) or not self.nonneg(d - ONE - x):
                        return None
                return T.subst(r, dict(zip(mp, ix)))
            self.eqs.append((a.a[0], match))
            self.bump()

    def add_alias(self, a, q):
        """a stands for the term q: a inherits the bounds of q"""
        b = the_atom(q)
        if b is not None:
            for l in self.lo.get(b, ()):
                self.add_lo(a, l)
            for h in self.hi.get(b, ()):
                self.add_hi(a, h)
        elif self.nonneg(q):
            self.add_lo(a, ZERO)

    def assume_ind(self, a, val):
        """Assume indicator atom a has the value; False if contradictory."""
        r = self.decide_ind(a)
        if r is not None:
            return r == val
        kind, p = a.a
        isint = T.poly_is_int(p)
        if val:
            self.add_fact(kind, p)
        elif kind == 'ge':
            self.add_fact('gt', -p)
        elif kind == 'gt':
            self.add_fact('ge', -p)
        else:
            self.facts.append(('ne', p))
            self.bump()
        return True

    def assume_bool(self, p):
        """Assume the 0/1 term p is 1."""
        p = T.resolve_inds(p)
        if p == ONE:
            return True
        if p.is_zero():
            return False
        inds = T.top_inds(p)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and all(a.k == 'ind' for a, e in m):
                for a, e in m:
                    if self.assume_ind(a, True) is False:
                        return False
                return True
        if len(inds) == 1:
            a, = inds
            p1, p0 = T.set_ind(p, a, 1), T.set_ind(p, a, 0)
            if p1 == ONE and p0.is_zero():
                return self.assume_ind(a, True)
            if p0 == ONE and p1.is_zero():
                return self.assume_ind(a, False)
        # 1 - product (negated conjunction) etc.
        q = ONE - p
        if len(q.d) == 1:
            (m, c), = q.d.items()
            if c == 1 and len(m) == 1 and m[0][0].k == 'ind':
                return self.assume_ind(m[0][0], False)
        if len(inds) > 1 and len(inds) <= 8:
            # implied literals
            for a in inds:
                for v in (0, 1):
                    if T.set_ind(p, a, v).is_zero():
                        if self.assume_ind(a, v == 0) is False:
                            return False
                        return self.assume_bool(T.set_ind(p, a, 1 - v))
        self.bools.append(p)
        self.bump()
        return True

    # ---- integer reasoning
    def atom_nonneg(self, a, depth=0):
        if a.k == 'ind' or a.k == 'exp' or a.k == 'num':
            return True
        s = self.atom_sign(a)
        if s == 1:
            return True
        for l in self.lo.get(a, ()):
            if l.is_zero() or (l.is_const() and l.const() >= 0):
                return True
            if depth < 3 and self.syn_nonneg(l, depth + 1):
                return True
        if a.k == 'sum':
            return all(self.atom_nonneg(x, depth) or e % 2 == 0
                       for x, e in a.a[1] if x.k != 'bv')
        if a.k == 'f':
            if a.a[0] in ('idiv', 'imod', 'abs', 'trow', 'tcol') or \
                    (isinstance(a.a[0], str) and a.a[0].startswith(
                        ('I:size', 'I:sel', 'I:rank'))):
                return True
        return False

    def syn_nonneg(self, p, depth=0):
        for m, c in p.d.items():
            if c < 0:
                return False
            for a, e in m:
                if e.denominator == 1 and int(e) % 2 == 0:
                    continue
                if not self.atom_nonneg(a, depth):
                    return False
        return True

    def nonneg(self, p):
        """Can p >= 0 be established for the integer term p?"""
        if p.is_const():
            return p.const() >= 0
        key = (self.ver, 'nn', p)
        r = self.cache.get(key)
        if r is None:
            r = self._nonneg(p)
            self.cache[key] = r
        return r

    def _nonneg(self, p):
        if self.syn_nonneg(p):
            return True
        if self._refuted(p):
            return False
        if self._subst_nonneg(p, 0, set()):
            return True
        if self._tri_nonneg(p):
            return True
        if self._idiv_nonneg(p):
            return True
        return self._linear_nonneg(p, [12])

    def _idiv_nonneg(self, p):
        """idiv(x, b) + r >= 0 iff x + b r >= 0;  r - idiv(x, b) >= 0 iff
        b r + b - 1 - x >= 0 (b >= 1); idiv is monotone"""
        pos, neg = [], []
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].k == 'f' and \
                    m[0][0].a[0] == 'idiv' and abs(c) == 1:
                (pos if c == 1 else neg).append(m[0][0])
        for a in pos:
            for b in neg:
                if a.a[2] != b.a[2] or not self.nonneg(a.a[2] - ONE):
                    continue
                if self.nonneg(p - of_atom(a) + of_atom(b)) and \
                        self.nonneg(a.a[1] - b.a[1]):
                    return True
        for m in p.d:
            for a, e in m:
                if (len(m) < 2 and abs(p.d[m]) == 1) or e != 1 or \
                        a.k != 'f' or a.a[0] != 'idiv':
                    continue
                # x - b + 1 <= b idiv(x, b) <= x
                x, b = a.a[1], a.a[2]
                sp = T.split_by(p, a)
                if sp is None or a in sp[0].fv() or a in sp[1].fv():
                    continue
                if (sp[0] + b).is_zero() and self.nonneg(b - ONE) and \
                        self.nonneg(sp[1] - x):
                    return True
                if (sp[0] - b).is_zero() and self.nonneg(b - ONE) and \
                        self.nonneg(sp[1] + x - b + ONE):
                    return True
        for a, s in [(a, 1) for a in pos] + [(a, -1) for a in neg]:
            x, b = a.a[1], a.a[2]
            r = p - of_atom(a).scale(s)
            if any(y.k == 'f' and y.a[0] == 'idiv' for y in r.atoms()) or \
                    not self.nonneg(b - ONE):
                continue
            if self.nonneg(x + b * r if s == 1 else b * r + b - ONE - x):
                return True
        return False

    # a point that satisfies the facts and where p < 0 shows that the search
    # for a proof is pointless (never used to conclude anything else)
    def _refuted(self, p):
        key = (self.ver, 'samples')
        samples = self.cache.get(key)
        if samples is None:
            samples = self.cache[key] = [{} for i in range(8)]
        for i, val in enumerate(samples):
            if val is None:
                continue
            x = self._eval(p, val, i)
            if x is None:
                continue
            if x is False:
                samples[i] = None
                continue
            if x < 0 and self._facts_hold(val, i, samples):
                return True
        return False

    def _facts_hold(self, val, i, samples):
        for kind, f in self.facts:
            x = self._eval(f, val, i)
            if x is None:
                continue
            if x is False or not (x >= 0 if kind == 'ge' else x > 0 if kind ==
                                  'gt' else x == 0 if kind == 'eq' else
                                  x != 0):
                if x is False:
                    samples[i] = None
                return False
        return True

    def _eval(self, p, val, i):
        out = 0
        for m, c in p.d.items():
            t = c
            for a, e in m:
                if e.denominator != 1 or e < 0:
                    return None
                v = val.get(a)
                if v is None:
                    v = self._sample(a, val, i)
                    if v is None or v is False:
                        return v
                t = t * v ** int(e)
            out = out + t
        return out

    def _sample(self, a, val, i):
        if a in val:
            return val[a]
        if a.k == 'f' and a.a[0] in ('idiv', 'imod') and len(a.a) == 3:
            x, b = (self._eval(q, val, i) for q in a.a[1:])
            if x is None or x is False or b is None or b is False or \
                    b.denominator != 1 or x.denominator != 1 or b <= 0:
                return None
            val[a] = x // b if a.a[0] == 'idiv' else x % b
            return val[a]
        if a.k != 'v' or a.a[1] != 'i':
            return None
        val[a] = None
        lo, hi = 0, None
        for l in self.lo.get(a, ()):
            x = self._eval(l, val, i)
            if x is None or x is False:
                return None
            lo = max(lo, x)
        for h in self.hi.get(a, ()):
            x = self._eval(h, val, i)
            if x is None or x is False:
                return None
            hi = x if hi is None else min(hi, x)
        pick = (i * 7 + a.id * 5) % 8
        if hi is None:
            v = lo + (0, 1, 2, 3, 1, 5, 2, 4)[pick] if i else lo
        elif hi < lo:
            return False
        elif i == 1:
            v = hi
        elif i == 0:
            v = lo
        else:
            v = min(hi, lo + (0, 1, 0, 2, 100, 3, 100, 1)[pick])
        val[a] = v
        return v

    def _linear_nonneg(self, p, budget):
        """p is linear and decreasing in an index: its least value is at the
        upper bound of the index"""
        if len(p.d) > 40:
            return False
        for a in sorted(p.atoms(), key=lambda x: x.id):
            if budget[0] <= 0:
                return False
            if a.k != 'v' or a.a[1] != 'i':
                continue
            his = self.hi.get(a)
            if not his:
                continue
            sp = T.split_by(p, a)
            if sp is None or sp[0].is_const() or a in sp[0].fv() or \
                    a in sp[1].fv() or not self.syn_nonneg(-sp[0]):
                continue
            for h in his:
                if a in h.fv():
                    continue
                budget[0] -= 1
                q = sp[0] * h + sp[1]
                if self.syn_nonneg(q) or self._linear_nonneg(q, budget):
                    return True
                return self._tri_nonneg(q)
        return False

    def _tri_nonneg(self, p):
        """n(n+1)/2 - 1 - t >= 0 for a triangular position t whose row is
        below n"""
        for m, co in p.d.items():
            if len(m) == 1 and m[0][1] == 2 and co == T.Fr(1, 2):
                A = T.of_atom(m[0][0])
                t = (A * A + A).scale(T.Fr(1, 2)) - ONE - p
                if t.is_const():
                    continue
                r = T.mk_tri(t)
                if r is not None and self.nonneg(A - ONE - r[0]):
                    return True
        # A(A+1)/2 >= B(B+1)/2 + B + 1 for B < A
        half = T.Fr(1, 2)
        pos = [m[0][0] for m, co in p.d.items()
               if len(m) == 1 and m[0][1] == 2 and co == half]
        neg = [m[0][0] for m, co in p.d.items()
               if len(m) == 1 and m[0][1] == 2 and co == -half]
        for a in pos:
            for b in neg:
                A, B = T.of_atom(a), T.of_atom(b)
                q = p - (A * A + A).scale(half) + (B * B + B).scale(half) \
                    + B + ONE
                if self.nonneg(q) and self.nonneg(A - ONE - B) and \
                        self.nonneg(B):
                    return True
        return False

    def _subst_nonneg(self, p, depth, seen):
        if self.syn_nonneg(p):
            return True
        if depth > 6 or len(p.d) > 60 or p in seen or len(seen) > 150:
            return False
        seen.add(p)
        for m, c in p.d.items():
            if c >= 0 or len(m) < 2:
                continue
            for a, e in m:
                # -w b idiv(x, b) >= -w x  for w >= 0
                if e != 1 or a.k != 'f' or a.a[0] != 'idiv':
                    continue
                x, b = a.a[1], a.a[2]
                sp = T.split_by(p, a)
                if sp is None or a in sp[0].fv() or a in sp[1].fv():
                    continue
                if (sp[0] + b).is_zero() and self.syn_nonneg(b) and \
                        self._subst_nonneg(sp[1] - x, depth + 1, seen):
                    return True
        # pick an atom that appears in a negative monomial (or any) and
        # replace it using one of its bounds
        cands = []
        for m, c in p.d.items():
            for a, e in m:
                if a not in cands and e > 0 and e.denominator == 1:
                    cands.append(a)
        for a in cands:
            neg_in = any(c < 0 and any(b is a for b, e in m)
                         for m, c in p.d.items())
            if neg_in:
                for h in self.his(a):
                    # a = h - t with t >= 0
                    if a in h.fv():
                        continue
                    t = self._tvar(a, 'h', h)
                    q = _repl(p, a, h - t)
                    if self._subst_nonneg(q, depth + 1, seen):
                        return True
            for l in self.lo.get(a, ()):
                if a in l.fv() or l.is_zero():
                    continue
                t = self._tvar(a, 'l', l)
                q = _repl(p, a, l + t)
                if self._subst_nonneg(q, depth + 1, seen):
                    return True
        if depth == 0:
            for kind, f in self.facts:
                if kind in ('ge', 'gt'):
                    if self.syn_nonneg(p - f):
                        return True
                elif kind == 'eq':
                    if self.syn_nonneg(p - f) or self.syn_nonneg(p + f):
                        return True
        return False

    def _tvar(self, a, tag, p):
        t = T.var('t!%d!%s!%d' % (a.id, tag, hash(p) & 0xffffff), 'i')
        ta = the_atom(t)
        if ta not in self.lo:
            self.lo[ta] = (ZERO,)
        return t

    def int_decide(self, kind, p):
        """Truth value of `p kind 0` for an integer term, or None."""
        if p.is_const():
            c = p.const()
            return (c >= 0) if kind == 'ge' else (c == 0) if kind == 'eq' \
                else c > 0
        key = (self.ver, kind, p)
        if key in self.cache:
            return self.cache[key]
        r = self._int_decide(kind, p)
        self.cache[key] = r
        return r

    def _int_decide(self, kind, p):
        if kind == 'gt':
            kind, p = 'ge', p - ONE
        if kind == 'ge':
            if self.nonneg(p):
                return True
            if self.nonneg(-p - ONE):
                return False
        else:
            if self.nonneg(p - ONE) or self.nonneg(-p - ONE):
                return False
            for k2, f in self.facts:
                if k2 == 'ne' and (f == p or f == -p):
                    return False
                if k2 == 'eq' and (f == p or f == -p):
                    return True
            if self.nonneg(p) and self.nonneg(-p):
                return True
        if not any(a.k in ('v', 'f') for a in p.atoms()):
            return None
        # integers only: z3 when the context has extra facts
        if self.facts:
            return self.z3_decide(kind, p, timeout=150)
        return None

    def decide_ind(self, a):
        kind, p = a.a
        if T.poly_is_int(p):
            return self.int_decide(kind, p)
        return self.real_decide(kind, p)

    def inst_facts(self, p):
        """facts plus the instances of the quantified facts at the array
        atoms of p"""
        if not self.axioms:
            return self.facts
        out = None
        for a in p.atoms():
            if a.k == 'f' and a.a[0] in self.axioms:
                key = (self.ver, 'ax', a)
                got = self.cache.get(key)
                if got is None:
                    self.cache[key] = ()        # no recursion
                    got = []
                    for kind, q in self.axioms[a.a[0]](a.a[1:]):
                        if kind == 'bool':
                            got.extend(bool_facts(q))
                        else:
                            got.append((kind, q))
                    self.cache[key] = got
                if got:
                    if out is None:
                        out = list(self.facts)
                    out.extend(got)
        return self.facts if out is None else out

    def real_decide(self, kind, p):
        if p.is_const():
            return self.int_decide(kind, p)
        key = (self.ver, 'r' + kind, p)
        if key in self.cache:
            return self.cache[key]
        s = self.sign(p)
        r = None
        if s == 1:
            r = kind in ('ge', 'gt')
        elif s == -1:
            r = False
        else:
            for k2, f in self.inst_facts(p):
                if f == p:
                    if k2 == kind or (k2, kind) == ('gt', 'ge') or \
                            (k2, kind) == ('eq', 'ge'):
                        r = True
                    elif (k2, kind) in (('eq', 'gt'), ('ne', 'eq'),
                                        ('gt', 'eq')):
                        r = False
                elif f == -p:
                    if (k2 == 'gt') or (k2 == 'ge' and kind == 'gt') or \
                            (k2 == 'eq' and kind == 'gt') or \
                            (k2 == 'ne' and kind == 'eq'):
                        r = False
                    if k2 == 'eq' and kind in ('ge', 'eq'):
                        r = True
                if r is not None:
                    break
        self.cache[key] = r
        return r

    # ---- signs of real terms
    def atom_sign(self, a):
        """1 if a > 0 known, -1 if a < 0 known, else None"""
        if self.sdepth > 4:
            return None
        self.sdepth += 1
        try:
            return self._atom_sign(a)
        finally:
            self.sdepth -= 1

    def _atom_sign(self, a):
        if a.k in ('exp', 'num'):
            return 1
        if a in self.signs:
            return self.signs[a]
        if a.k == 'f':
            hd = a.a[0]
            if hd in self.signs:
                v = self.signs[hd]
                return v(a.a[1:]) if callable(v) else v
            if hd in ('pi', 'trigamma'):
                return 1
            if hd == 'abs':
                if self.sign(a.a[1]) is not None:
                    return 1
            return None
        if a.k == 'v':
            for l in self.lo.get(a, ()):
                if l.is_const() and l.const() >= 1:
                    return 1
                if not l.is_const() and self.syn_nonneg(l - ONE, 1):
                    return 1
            return None
        if a.k == 'log' and a.a[0].is_const():
            return 1 if a.a[0].const() > 1 else None
        if a.k == 'sum':
            bounds, body, d = a.a
            # strictly positive body and non-empty range
            neg = 1
            for x, e in body:
                if x.k == 'bv' or x.k == 'ind':
                    return None
                s = self.atom_sign(x)
                if s is None:
                    if int(e) % 2 == 0:
                        return None
                    return None
                if s == -1 and e % 2 == 1:
                    neg = -neg
            for b in bounds:
                if not self.nonneg(b - ONE):
                    return None
            return neg
        if a.k == 'poly':
            s = self.sign(a.a[0])
            return s
        return None

    def sign(self, p):
        if p.is_const():
            c = p.const()
            return 1 if c > 0 else -1 if c < 0 else None
        key = (self.ver, 'sg', p)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = None
        r = self._sign(p)
        self.cache[key] = r
        return r

    def mono_sign(self, m):
        """(sign, strict) sign in {1,-1,0(unknown)}"""
        s = 1
        strict = True
        for a, e in m:
            if a.k == 'ind':
                strict = False
                continue
            if a.k == 'poly' and e.denominator != 1:
                continue            # principal power, positive
            t = self.atom_sign(a)
            if t is None:
                if e.denominator == 1 and int(e) % 2 == 0:
                    strict = False
                    continue
                if self.atom_nonneg(a):
                    strict = False
                    continue
                return 0, False
            if t == -1 and e.denominator == 1 and int(e) % 2 == 1:
                s = -s
        return s, strict

    def _sign(self, p):
        pos = neg = unk = False
        strict = False
        for m, c in p.d.items():
            s, st = self.mono_sign(m)
            if s == 0:
                unk = True
                break
            if s * c > 0:
                pos = True
            else:
                neg = True
            strict = strict or st
        if not unk and strict:
            if pos and not neg:
                return 1
            if neg and not pos:
                return -1
        # product form
        if len(p.d) == 1:
            return None
        facts = self.inst_facts(p)
        for k, f in facts:
            if k == 'gt' and not T.poly_is_int(f):
                if f == p or self._pos_multiple(p, f):
                    return 1
                if f == -p or self._pos_multiple(-p, f):
                    return -1
        q = T.cancel(p)
        if q is not p:
            return self.sign(q)
        if len(p.d) <= 12:
            try:
                coef, lst = T.factor(p)
            except Unsupported:
                lst = []
            if len(lst) > 1 or (len(lst) == 1 and lst[0][0] != p
                                and lst[0][0] != -p):
                s = 1 if coef > 0 else -1
                for f, e in lst:
                    if e.denominator == 1 and int(e) % 2 == 0:
                        t = self.sign(f)
                        if t is None:
                            return None
                        continue
                    t = self.sign(f)
                    if t is None:
                        return None
                    s *= t
                return s
            # f + nonneg for a positive fact f
            for k, f in facts:
                if k == 'gt' or k == 'ge':
                    for q, r in ((p, 1), (-p, -1)):
                        d = q - f
                        s2 = self._weak(d)
                        if s2 == 2 or (s2 == 1 and k == 'gt'
                                       and not T.poly_is_int(f)):
                            return r
            if T.poly_is_int(p):
                if self.nonneg(p - ONE):
                    return 1
                if self.nonneg(-p - ONE):
                    return -1
        return None

    def _weak(self, p):
        """2: p > 0, 1: p >= 0, 0 unknown (syntactic)"""
        if p.is_zero():
            return 1
        strict = False
        for m, c in p.d.items():
            s, st = self.mono_sign(m)
            if s * c <= 0:
                return 0
            strict = strict or st
        return 2 if strict else 1

    def _pos_multiple(self, p, f):
        if len(p.d) != len(f.d):
            return False
        # p == c * f, c > 0
        m0 = next(iter(f.d))
        if m0 in p.d:
            c = p.d[m0] / f.d[m0]
            return c > 0 and f.scale(c) == p
        return False

    # ---- z3
    def z3_decide(self, kind, p, timeout=1500):
        if kind == 'ge':
            q = T.atom('ind', 'ge', p)
        elif kind == 'gt':
            q = T.atom('ind', 'gt', p)
        else:
            q = T.atom('ind', 'eq', p)
        return self.z3_bool(of_atom(q), timeout)

    def z3_bool(self, p, timeout=2000, need=('t', 'f'), extra=()):
        """True/False if the 0/1 term p is decided by the facts, else None"""
        key = (self.ver, 'z3', p, need)
        if key in self.cache:
            return self.cache[key]
        tr = Z3T(self)
        f = tr.boolean(p)
        base = tr.facts(extra)
        res = None
        for which, neg in (('t', z3.Not(f)), ('f', f)):
            if which not in need:
                continue
            s = z3.Solver()
            limits(s, timeout)
            for b in base:
                s.add(b)
            s.add(neg)
            for b in tr.side:
                s.add(b)
            t0 = time.time()
            out = s.check()
            STATS.z3_time += time.time() - t0
            STATS.z3_calls += 1
            if out == z3.unsat:
                res = (which == 't')
                break
        self.cache[key] = res
        return res

    def z3_feasible(self, timeout=1500):
        tr = Z3T(self)
        base = tr.facts()
        s = z3.Solver()
        limits(s, timeout)
        for b in base:
            s.add(b)
        for b in tr.side:
            s.add(b)
        t0 = time.time()
        out = s.check()
        STATS.z3_time += time.time() - t0
        STATS.z3_calls += 1
        return out


def limits(s, ms):
    """a bound on the solver's work that does not depend on the load of the
    machine (about 2000 units a millisecond), and a generous one on time"""
    s.set('rlimit', int(ms * 2000))
    s.set('timeout', int(ms * 10))


def one_plus_exp(p):
    """x if p is 1 + exp(x)"""
    if len(p.d) != 2 or p.d.get(()) != 1:
        return None
    for m, c in p.d.items():
        if m:
            if c != 1 or any(a.k != 'exp' for a, e in m):
                return None
            x = ZERO
            for a, e in m:
                x = x + T.of_mono(a.a[0]).scale(e)
            return x


def bool_facts(q):
    """(kind, poly) facts implied by the 0/1 term q being 1"""
    out = []
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if c == 1 and all(a.k == 'ind' for a, e in m):
            for a, e in m:
                out.append(a.a)
            return out
    r = ONE - q
    if len(r.d) == 1:
        (m, c), = r.d.items()
        if c == 1 and len(m) == 1 and m[0][0].k == 'ind':
            kind, p = m[0][0].a
            if kind == 'eq':
                out.append(('ne', p))
            elif kind == 'ge':
                out.append(('gt', -p))
            else:
                out.append(('ge', -p))
    elif len(q.d) > 1:
        # a product of negated conditions: split off a common factor
        for a in T.top_inds(q):
            if T.set_ind(q, a, 0).is_zero():
                out.append(a.a)
            elif T.set_ind(q, a, 1).is_zero():
                out.extend(bool_facts(ONE - of_atom(a)))
    return out


def _repl(p, a, q):
    """Replace top level powers of atom a by q."""
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for b, e in m:
            if b is a:
                t = t * T.mk_pow(q, e)
            else:
                t = t * T.of_mono(((b, e),))
        out = out + t
    return out


class Z3T(object):
    """Translation of terms to z3; atoms become constants, with side facts."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.map = {}
        self.side = []
        self.pending = []
        self.work = 0

    def poly(self, p):
        tot = None
        allint = all(c.denominator == 1 for c in p.d.values())
        for m, c in p.d.items():
            t = None
            if c != 1 or not m:
                if c.denominator == 1:
                    t = z3.IntVal(c.numerator) if allint and all(
                        T.atom_is_int(a) for a, e in m) else \
                        z3.RealVal(c.numerator)
                else:
                    t = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            for a, e in m:
                x = self.power(a, e)
                t = x if t is None else t * x
            tot = t if tot is None else tot + t
        if tot is None:
            return z3.IntVal(0)
        return tot

    def power(self, a, e):
        if e.denominator == 1:
            x = self.at(a)
            n = int(e)
            if n == 1:
                return x
            if abs(n) > 12:
                key = ('pw', a, e)
                if key not in self.map:
                    self.map[key] = z3.Real('pw_%d_%d' % (a.id, n))
                return self.map[key]
            if n > 0:
                r = x
                for _ in range(n - 1):
                    r = r * x
                return r
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            r = x
            for _ in range(-n - 1):
                r = r * x
            return 1 / r
        key = ('pw', a, e)
        if key not in self.map:
            v = z3.Real('pw_%d_%s_%s' % (a.id, e.numerator, e.denominator))
            self.map[key] = v
            if abs(e.numerator) > 12 or e.denominator > 12:
                self.side.append(v > 0)
                return v
            x = self.at(a)
            if x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            lhs = v
            for _ in range(e.denominator - 1):
                lhs = lhs * v
            n = abs(e.numerator)
            rhs = x
            for _ in range(n - 1):
                rhs = rhs * x
            if e > 0:
                self.side.append(lhs == rhs)
            else:
                self.side.append(lhs * rhs == 1)
            self.side.append(v > 0)
        return self.map[key]

    def at(self, a):
        if a in self.map:
            return self.map[a]
        k = a.k
        isint = T.atom_is_int(a)
        if k == 'ind':
            r = z3.If(self.cond(a.a[0], a.a[1]), z3.IntVal(1), z3.IntVal(0))
            self.map[a] = r
            return r
        if k == 'num':
            r = z3.RealVal(a.a[0])
            self.map[a] = r
            return r
        if k == 'poly':
            r = self.poly(a.a[0])
            self.map[a] = r
            return r
        v = (z3.Int if isint else z3.Real)('a%d' % a.id)
        self.map[a] = v
        if k == 'exp':
            self.side.append(v > 0)
        if k == 'log':
            x = one_plus_exp(a.a[0])
            if x is not None:
                # max(x, 0) < log(1 + exp(x)) < max(x, 0) + 1
                y = self.poly(x)
                self.side.append(z3.And(v > 0, v > y, z3.Or(
                    z3.And(y >= 0, v < y + 1), z3.And(y <= 0, v < 1))))
        s = self.ctx.atom_sign(a)
        if s == 1:
            self.side.append(v > 0)
        elif s == -1:
            self.side.append(v < 0)
        elif self.ctx.atom_nonneg(a):
            self.side.append(v >= 0)
        if self.work < 400:
            self.work += 1
            for l in self.ctx.lo.get(a, ()):
                self.side.append(v >= self.poly(l))
            for h in self.ctx.his(a):
                self.side.append(v <= self.poly(h))
            if k == 'f':
                ax = self.ctx.axioms.get(a.a[0])
                if ax is not None:
                    for kind, q in ax(a.a[1:]):
                        if kind == 'bool':
                            self.side.append(self.boolean(q))
                        else:
                            self.side.append(self.cond(kind, q))
            if k == 'f' and a.a[0] in ('idiv', 'imod') and \
                    a.a[2].is_const() and a.a[2].const() > 0:
                x, b = a.a[1], a.a[2]
                y, t = self.poly(x), self.poly(b)
                if a.a[0] == 'imod':
                    q = self.poly(T.app('idiv', x, b))
                    self.side.append(v == y - t * q)
                else:
                    self.side.append(z3.And(t * v <= y, y < t * v + t))
        return v

    def cond(self, kind, p):
        x = self.poly(p)
        if kind == 'ge':
            return x >= 0
        if kind == 'gt':
            return x > 0
        if kind == 'ne':
            return x != 0
        return x == 0

    def boolean(self, p):
        """z3 formula for a 0/1 term"""
        if p == ONE:
            return z3.BoolVal(True)
        if p.is_zero():
            return z3.BoolVal(False)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and all(a.k == 'ind' for a, e in m):
                return z3.And(*[self.cond(*a.a) for a, e in m]) \
                    if len(m) > 1 else self.cond(*m[0][0].a)
        q = ONE - p
        if len(q.d) == 1:
            (m, c), = q.d.items()
            if c == 1 and all(a.k == 'ind' for a, e in m):
                return z3.Not(z3.And(*[self.cond(*a.a) for a, e in m]))
        ats = {a for m in p.d for a, e in m}
        if len(ats) <= 8 and all(a.k == 'ind' for a in ats):
            return self.shannon(p, {})
        return self.poly(p) == 1

    def shannon(self, p, seen):
        if p == ONE:
            return z3.BoolVal(True)
        if p.is_const():
            return z3.BoolVal(False)
        if p not in seen:
            a = min((x for m in p.d for x, e in m), key=lambda x: x.id)
            f1 = self.shannon(T.set_ind(p, a, 1), seen)
            f0 = self.shannon(T.set_ind(p, a, 0), seen)
            seen[p] = z3.If(self.cond(*a.a), f1, f0)
        return seen[p]

    def facts(self, extra=()):
        out = []
        for kind, p in self.ctx.facts:
            out.append(self.cond(kind, p))
        for p in self.ctx.bools:
            out.append(self.boolean(p))
        for kind, p in extra:
            out.append(self.cond(kind, p))
        return out
