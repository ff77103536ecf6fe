"""Runtime of the shadow execution: path exploration, symbolic loops, loading
and mechanical instrumentation of the source under /repo."""
import ast
import builtins
import collections
import operator
import os
import sys
import time
import types

from . import terms as T
from . import core
from . import sym as S
from . import prove
from .core import Ctx, PathEnd
from .sym import (SV, SBool, SForall, SArr, SRange, VList, For, Cell, Eng,
                  to_poly, wrap, wrap_int, ite, bool_poly)
from .terms import ZERO, ONE, const, Unsupported, CTX, the_atom

sys.setrecursionlimit(20000)

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'LinearResponseVariationalBayes'


class Undefined(object):
    """A variable whose value a symbolic loop does not determine."""
    __hash__ = object.__hash__

    def __getattr__(self, n):
        raise Unsupported('use of a value that a loop does not determine')


def _undefined(self, *a, **kw):
    raise Unsupported('use of a value that a loop does not determine')


for _n in ('add sub mul truediv floordiv mod pow matmul and or xor lshift '
           'rshift divmod').split():
    setattr(Undefined, '__%s__' % _n, _undefined)
    setattr(Undefined, '__r%s__' % _n, _undefined)
for _n in ('neg pos abs invert bool len iter next contains getitem setitem '
           'delitem call lt le gt ge eq ne int float index complex enter exit '
           'round str repr format array').split():
    setattr(Undefined, '__%s__' % _n, _undefined)
del _n


UNBOUND = Undefined()


class SymIter(object):
    """n items, item j given by fn(j)."""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def vlen(self):
        return wrap_int(self.n)

    def __iter__(self):
        if self.n.is_const():
            return iter([self.fn(const(i))
                         for i in range(int(self.n.const()))])
        raise Unsupported('native iteration over a symbolic iterator')

    def to_array(self):
        return S.asarr(self.as_list())

    def as_list(self):
        k = T.fresh('k')
        c = CTX()
        c.push()
        try:
            c.add_range(k, self.n)
            return VList([For(k, self.n, [self.fn(k)])])
        finally:
            c.pop()


def sym_segments(it):
    """None for a concrete iterable, else a list of ('one', item) and
    ('sym', n, fn)."""
    if isinstance(it, SRange):
        if it.n.is_const() and it.lo.is_const():
            return None
        return [('sym', it.n, lambda j: wrap_int(it.lo + j))]
    if isinstance(it, SymIter):
        if it.n.is_const():
            return None
        return [('sym', it.n, it.fn)]
    if isinstance(it, VList):
        if it.concrete():
            return None
        out = []
        for s in it.segs:
            if isinstance(s, For):
                out.append(('sym', S.s_len(s),
                            (lambda s: lambda j: S.seg_item(s, j))(s)))
            else:
                out.append(('one', s))
        return out
    if isinstance(it, S.ObjArr):
        return sym_segments(it.vl)
    if isinstance(it, SArr):
        if not it.shp:
            raise TypeError('iteration over a 0-d array')
        if it.shp[0].is_const():
            return None
        return [('sym', it.shp[0], lambda j: it[SV(j)])]
    return None


def is_numeric(v):
    return isinstance(v, (SV, int, float, S.Fr)) and not isinstance(v, bool)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return a.p == b.p
    if is_numeric(a) and is_numeric(b):
        try:
            return to_poly(a) == to_poly(b)
        except Unsupported:
            return False
    return False


def merge_vals(paths):
    """paths: list of (cond Poly, value): one value"""
    if len(paths) == 1:
        return paths[0][1]
    v0 = paths[0][1]
    if all(same_val(v0, v) for c, v in paths[1:]):
        return v0
    if all(is_numeric(v) or isinstance(v, (SBool, bool)) for c, v in paths):
        out = ZERO
        for c, v in paths:
            out = out + c * (bool_poly(v) if isinstance(v, (SBool, bool))
                             else to_poly(v))
        return SV(out)
    if all(isinstance(v, SArr) for c, v in paths):
        shp = v0.shp
        if all(v.shp == shp for c, v in paths):
            rs = [(c, v.snap()) for c, v in paths]

            def fn(*idx):
                out = ZERO
                for c, r in rs:
                    if not T.resolve_inds(c).is_zero():
                        out = out + c * r(list(idx))
                return out
            return SArr(shp, fn, v0.dt)
    if all(type(v) is S.For and v.n == v0.n and len(v.segs) == len(v0.segs)
           for c, v in paths):
        # list blocks of the same length, item by item
        k = T.fresh('k')
        rows = [(c, [S.subst_seg(x, {the_atom(v.k): k}) for x in v.segs])
                for c, v in paths]
        return S.For(k, v0.n, [merge_vals([(c, r[i]) for c, r in rows])
                               for i in range(len(v0.segs))])
    if all(getattr(v, 'is_sparse', False) and v.shp == v0.shp and
           v.format == v0.format for c, v in paths):
        rds = [(c, v.rd) for c, v in paths]

        def rd(*idx):
            out = ZERO
            for c, r in rds:
                if not T.resolve_inds(c).is_zero():
                    out = out + c * r(*idx)
            return out
        return type(v0)(v0.shp, rd, v0.format)
    if all(isinstance(v, tuple) and len(v) == len(v0) for c, v in paths):
        return tuple(merge_vals([(c, v[i]) for c, v in paths])
                     for i in range(len(v0)))
    if all(v is UNBOUND or v is v0 for c, v in paths):
        return UNBOUND
    raise Unsupported('cannot merge the values of different branches')


class Frame(object):
    """One symbolic iteration space being executed."""

    def __init__(self, eng, n):
        self.eng = eng
        self.n = n
        self.k = T.fresh('k')
        self.ka = the_atom(self.k)
        self.seq0 = eng.seq
        self.prefix = []
        self.taken = []
        self.pending = []
        self.journal = None
        self.cond = None
        self.bound = ()
        self.local = False

    # local decisions
    def start(self):
        self.taken = []
        self.conds = []
        self.journal = Journal()
        c = CTX()
        c.push()
        c.add_range(self.k, self.n)
        if self.cond is not None:
            c.assume_bool(self.cond)
        self.eng.frames.append(self)

    def stop(self):
        assert self.eng.frames.pop() is self
        CTX().pop()
        cond = ONE
        for p in self.conds:
            cond = cond * p
        return cond

    def decide(self, p):
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.pending.append(self.taken + [False])
        self.taken.append(v)
        q = p if v else ONE - p
        ok = CTX().assume_bool(q)
        self.conds.append(q)
        if ok is False:
            raise LocalDead()
        return v


class LocalDead(Exception):
    pass


class Journal(object):
    def __init__(self):
        self.cells = {}
        self.lists = {}
        self.attrs = {}

    def restore(self, eng, seq0):
        """undo the effects on what existed before the loop"""
        for c, fn in self.cells.values():
            if c.seq > seq0:
                continue
            c.fn = fn
            c.cache = {}
        for l, segs in self.lists.values():
            if l.seq <= seq0:
                l.segs = list(segs)
        for (o, name), v in self.attrs.values():
            if eng.obj_seq(o) > seq0:
                continue
            if v is UNBOUND:
                o.__dict__.pop(name, None)
            else:
                o.__dict__[name] = v


class Effects(object):
    """What one execution of a loop body did (per local path)."""
    pass


class Executor(object):
    """Explores the local paths of one loop body.  `run` is driven from
    outside (the for statement) or with a callable (comprehensions)."""

    def __init__(self, eng, n, item):
        self.eng, self.n, self.item = eng, n, item
        self.frame = None

    # generator protocol used by the for statement: yields items; between
    # yields the instrumented body has been executed completely
    def passes(self, L):
        eng = self.eng
        fr = Frame(eng, self.n)
        self.frame = fr
        nonempty = CTX().int_decide('ge', self.n - ONE)
        if nonempty is False:
            L.result = ('empty',)
            return
        # ---- pass A: discover
        mode = {'kind': 'A'}
        L.mode = mode
        A = yield from self.one_pass(fr, L)
        if not A:
            L.result = ('empty',)
            return
        changed_locals = set()
        cells, lists, attrs = {}, {}, {}
        l0 = A[0].locals0

        def collect(efs):
            """adds what the body changes; True if anything is new"""
            new = False
            for ef in efs:
                for i, v in enumerate(ef.locals1):
                    if i not in changed_locals and \
                            not same_val(v, ef.locals0[i]):
                        changed_locals.add(i)
                        new = True
                for into, got in ((cells, ef.journal.cells),
                                  (lists, ef.journal.lists)):
                    for i, c in got.items():
                        if c[0].seq <= fr.seq0 and i not in into:
                            into[i] = c
                            new = True
                for key, ((o, nm), v0) in ef.journal.attrs.items():
                    if eng.obj_seq(o) <= fr.seq0 and key not in attrs:
                        attrs[key] = (o, nm, v0)
                        new = True
            return new
        collect(A)
        noarr = set()
        while True:
            accd, start, dead = {}, {}, set()
            holds = {i: (cell, fn, eng.fresh_head('W'))
                     for i, (cell, fn) in cells.items()}
            heads = {h: i for i, (_, _, h) in holds.items()}
            # ---- pass B: accumulators
            v0s, rho = {}, {}
            arrs, nxt, guess = {}, {}, False
            for c, v0 in [(('l', i), l0[i]) for i in sorted(changed_locals)
                          ] + [(('a', k), a[2]) for k, a in attrs.items()]:
                if is_numeric(v0):
                    v0s[c] = v0
                elif v0.__class__ is SArr and c not in noarr:
                    arrs[c] = (v0, v0.snap(), eng.fresh_head('W'))
                else:
                    dead.add(c)
            for c, v0 in v0s.items():
                isint = isinstance(v0, int) or (
                    isinstance(v0, SV) and T.poly_is_int(v0.p))
                rho[c] = T.fresh('rho', 'i' if isint else 'r')
            base = {'attrs': attrs, 'holds': holds, 'lists': lists,
                    'dead': dead, 'arrs': arrs}
            again = False
            todo = list(rho)
            while todo:
                vals = {c: rho[c] for c in todo}
                rhos = {the_atom(r) for r in vals.values()}
                L.mode = dict(base, kind='B', set=dict(start) | vals)
                L.skipped = False
                fr.bound = rhos
                try:
                    B = yield from self.one_pass(fr, L)
                finally:
                    fr.bound = ()
                if collect(B):
                    again = True
                    break
                guess = guess or L.skipped
                rules = Rules(fr, holds, B, arrs)
                known = {}
                left = len(todo)
                progress = True
                while progress and B:
                    progress = False
                    for c in list(todo):
                        r = self.carried(c, B, rho, rhos, known, rules)
                        if r is None:
                            continue
                        d, over = r
                        v0 = to_poly(v0s[c])
                        if over:
                            # the value given to it by the iteration before
                            accd[c] = None
                            start[c] = ite(
                                T.mk_ind('ge', fr.k - ONE),
                                lambda: T.subst(d, {fr.ka: fr.k - ONE}),
                                lambda: v0)
                        else:
                            accd[c] = d
                            if fr.ka in d.fv():
                                j = T.fresh('j')
                                ps = T.mk_sum(j, fr.k,
                                              T.subst(d, {fr.ka: j}))
                            else:
                                ps = fr.k * d
                            start[c] = v0 + ps
                        known[the_atom(rho[c])] = start[c]
                        nxt[c] = d if over else start[c] + d
                        todo.remove(c)
                        progress = True
                if len(todo) == left:
                    dead.update(todo)
                    break
            if again:
                continue
            # ---- pass C: final
            if isinstance(L, WhileLoop):
                # the condition at iteration k gives the number of iterations
                L.mode = dict(base, kind='N', set=start)
                L.cond_k = []
                yield from self.one_pass(fr, L)
                fr.cond, self.n = L.solve(fr)
                fr.n = self.n
            L.mode = dict(base, kind='C', set=start)
            C = yield from self.one_pass(fr, L)
            more = collect(C)
            if guess and not more:
                # some branches were left out: the values are proved now
                R = Rules(fr, holds, C, arrs)
                for c, p in nxt.items():
                    v = merge_vals([
                        (ef.cond, ef.locals1[c[1]] if c[0] == 'l' else
                         ef.attr1[c[1]]) for ef in C])
                    if not is_numeric(v) or not self.equal(
                            fr, R.resolve(to_poly(v)), p):
                        raise Unsupported('loop-carried value')
            bad = {c for c, a in arrs.items() if not self.same_shape(c, a, C)}
            if bad:
                noarr |= bad
            elif not more:
                break
            if isinstance(L, WhileLoop):
                raise Unsupported('loop-carried value')
        # ---- effects
        L.result = ('done', fr, C, accd, l0, attrs, holds, lists,
                    changed_locals, nonempty, dead, arrs)

    def equal(self, fr, p, q):
        c = CTX()
        c.push()
        try:
            c.add_range(fr.k, fr.n)
            if fr.cond is not None:
                c.assume_bool(fr.cond)
            return T.resolve_inds(p - q).is_zero()
        finally:
            c.pop()

    def same_shape(self, c, a, efs):
        """the variable stays an array of the same shape, which the body
        replaces (and does not write in place)"""
        for ef in efs:
            if any(p in ef.journal.cells for p in ef.presets):
                return False
            v = ef.locals1[c[1]] if c[0] == 'l' else ef.attr1[c[1]]
            if v.__class__ is not SArr or v.dt != a[0].dt or \
                    v.shp != a[0].shp:
                return False
        return True

    def carried(self, c, B, rho, rhos, known, rules):
        """(increment, False) or (new value, True) of a variable, None if it
        depends on what is not known before iteration k"""
        for over in (False, True):
            try:
                v = merge_vals([
                    (ef.cond, ef.locals1[c[1]] if c[0] == 'l' else
                     ef.attr1[c[1]]) for ef in B])
                if not is_numeric(v):
                    return None
                d = to_poly(v)
                if not over:
                    d = d - rho[c]
                use = {a: p for a, p in known.items() if a in d.fv()}
                if use:
                    d = T.subst(d, use)
                if d.fv() & rhos:
                    continue
                d = rules.resolve(d)
                if not (d.fv() & rhos):
                    return d, over
            except Unsupported:
                pass
        return None

    def one_pass(self, fr, L):
        efs = []
        todo = [[]]
        while todo:
            fr.prefix = todo.pop()
            fr.pending = []
            fr.start()
            L.cur = Effects()
            L.frame = fr
            L.failed = None
            m = L.mode
            # heap presets
            preset = []
            if 'holds' in m:
                for i, (cell, fn, head) in m['holds'].items():
                    preset.append(('c', cell, cell.fn))
                    cell.fn = (lambda h: lambda *idx: T.app(h, *idx))(head)
                    cell.cache = {}
                for l, segs in m['lists'].values():
                    preset.append(('l', l, l.guard))
                    l.guard = len(l.segs)
            for c in list(m.get('set', ())) + list(m.get('dead', ())):
                if c[0] == 'a':
                    o, nm, v0 = m['attrs'][c[1]]
                    preset.append(('a', (o, nm), v0))
                    p = m['set'].get(c)
                    o.__dict__[nm] = UNBOUND if p is None or \
                        c in m['dead'] else SV(p)
            L.cur.presets = []
            for c in m.get('arrs', ()):
                if c[0] == 'a':
                    o, nm, v0 = m['attrs'][c[1]]
                    preset.append(('a', (o, nm), v0))
                    o.__dict__[nm] = L.preset_array(c)
            yield self.item(fr.k)
            cond = fr.stop()
            ef = L.cur
            ef.cond = cond
            ef.journal = fr.journal
            ef.attr1 = {k: v[0][0].__dict__.get(v[0][1])
                        for k, v in fr.journal.attrs.items()}
            if 'attrs' in m:
                for k, (o, nm, v0) in m['attrs'].items():
                    ef.attr1.setdefault(k, o.__dict__.get(nm))
            ef.cell1 = {i: c.fn for i, (c, f) in fr.journal.cells.items()}
            ef.list1 = {i: list(l.segs) for i, (l, s)
                        in fr.journal.lists.items()}
            fr.journal.restore(self.eng, fr.seq0)
            for kind, a, b in preset:
                if kind == 'c':
                    a.fn = b
                    a.cache = {}
                elif kind == 'l':
                    a.guard = b
                elif b is UNBOUND:
                    a[0].__dict__.pop(a[1], None)
                else:
                    a[0].__dict__[a[1]] = b
            dead = isinstance(L.failed, LocalDead)
            if L.failed is not None and not dead:
                if m['kind'] in 'BN' and not isinstance(L.failed, (
                        PathEnd, Timeout)):
                    # generic state: the final pass meets the exception if
                    # it can happen
                    if isinstance(L.failed, Unsupported):
                        L.skipped = True
                    todo.extend(fr.pending)
                    continue
                if isinstance(L.failed, (Unsupported, PathEnd)):
                    raise L.failed
                if cond == ONE:
                    if CTX().int_decide('ge', self.n - ONE) is not True:
                        if not self.eng.decide(
                                T.mk_ind('ge', self.n - ONE)):
                            L.mode = None
                            return efs
                    raise L.failed
                failed = L.failed
                if m['kind'] != 'A' and self.reached(fr, cond):
                    L.mode = None
                    raise failed
                todo.extend(fr.pending)
                continue
            if not dead:
                efs.append(ef)
            todo.extend(fr.pending)
            if len(efs) > 64:
                raise Unsupported('too many branches in a loop body')
        if not efs and L.mode['kind'] not in 'BN':
            raise Unsupported('no feasible branch in a loop body')
        return efs

    def reached(self, fr, cond):
        """does some iteration meet the condition (a branch that raises)?"""
        c = CTX()
        n = self.n
        if any(str(a).startswith('W#') for a in cond.fv()
               if isinstance(a, str)):
            raise Unsupported('loop-carried array dependence')
        at = lambda ix: T.subst(cond, {fr.ka: ix[0]})
        c.push()
        try:
            k = T.fresh('k')
            c.add_range(k, n)
            if c.assume_bool(at([k])) is False or \
                    c.z3_feasible() == core.z3.unsat:
                return False
        finally:
            c.pop()
        if not self.eng.frames:
            return not self.eng.decide_forall(S.SForall(
                (n,), lambda ix: ONE - at(ix)))
        return self.eng.decide(T.mk_ind('gt', T.app(
            'E:any', T.mk_lam((n,), at))))

    def finish(self, L, names):
        """apply the collected effects; returns exit values of the locals"""
        r = L.result
        if r is None:
            raise Unsupported('symbolic loop left early')
        if r[0] == 'empty':
            return None
        (_, fr, C, accd, l0, attrs, holds, lists, changed, nonempty,
         dead, arrs) = r
        n, k, ka = self.n, fr.k, fr.ka
        last = {ka: n - ONE}
        rules = Rules(fr, holds, C, arrs)
        # arrays
        for i, (cell, fn, head) in holds.items():
            cell.set((lambda r: lambda *idx: r.contents(idx, n))(
                rules.rule(head)))
        # lists
        for i, (l, segs) in lists.items():
            pieces = []
            for ef in C:
                cur = ef.list1.get(i)
                if cur is None:
                    pieces.append((ef.cond, []))
                    continue
                m = len(segs)
                if len(cur) < m or any(x is not y
                                       for x, y in zip(cur, segs)):
                    raise Unsupported('list rewritten in a symbolic loop')
                pieces.append((ef.cond, cur[m:]))
            ln = len(pieces[0][1]) if pieces else 0
            if any(len(p[1]) != ln for p in pieces):
                # items appended under a condition
                items = [S.When(T.fresh('z'), rules.resolve(cnd),
                                [rules.value(x) for x in its])
                         for cnd, its in pieces if its]
                l._j()
                l.segs = list(segs) + [For(k, n, items)]
                continue
            items = []
            for j in range(ln):
                if len(pieces) == 1:
                    items.append(pieces[0][1][j])
                else:
                    items.append(merge_vals([(c, p[j]) for c, p in pieces]))
            items = [rules.value(x) for x in items]
            l._j()
            if items:
                l.segs = list(segs) + [For(k, n, items)]
        # attributes

        def final(c, v0, vals):
            if c in dead and is_numeric(v0):
                return UNBOUND
            if c in arrs:
                R = rules.rule(arrs[c][2])
                try:
                    R.plan(len(v0.shp))
                except Unsupported:
                    return UNBOUND
                return SArr(v0.shp, lambda *idx: R.contents(idx, n), v0.dt)
            if accd.get(c) is not None:
                return SV(to_poly(v0) + total(fr, accd[c], n))
            try:
                return exit_val(rules.value(merge_vals(vals)), v0, last, n,
                                nonempty)
            except Unsupported:
                return UNBOUND
        for key, (o, nm, v0) in attrs.items():
            setattr(o, nm, final(('a', key), v0, [
                (ef.cond, ef.attr1[key]) for ef in C]))
        # locals
        out = []
        for i in range(len(l0)):
            if i in changed:
                out.append(final(('l', i), l0[i], [
                    (ef.cond, ef.locals1[i]) for ef in C]))
            else:
                out.append(l0[i])
        return out


class Rules(object):
    """Contents of the arrays that a loop writes: the body's effect on a
    generic element gives the contents before iteration k and at the end."""

    def __init__(self, fr, holds, efs, arrs={}):
        self.fr = fr
        self.rules = {}
        self.busy = set()
        for i, (cell, fn, head) in holds.items():
            self.rules[head] = Rule(self, fn, head, [
                (ef.cond, ef.cell1.get(i)) for ef in efs])

        for c, (v0, g, head) in arrs.items():
            vals = [(ef.cond, ef.locals1[c[1]] if c[0] == 'l' else
                     ef.attr1[c[1]]) for ef in efs]
            # (a failed attempt is repeated without the array)
            if all(v.__class__ is SArr and v.shp == v0.shp
                   for _, v in vals):
                self.rules[head] = Rule(
                    self, (lambda g: lambda *idx: g(list(idx)))(g), head,
                    [(cond, (lambda g: lambda *idx: g(list(idx)))(v.snap()))
                     for cond, v in vals])

    def rule(self, head):
        return self.rules[head]

    def heads(self, p):
        return [h for h in self.rules if heads_in(p, h)]

    def resolve(self, p):
        """replaces the contents before the current iteration"""
        for h in self.heads(p):
            if h in self.busy:
                raise Unsupported('loop-carried array dependence')
            p = T.subst(p, {}, heads={
                h: lambda *idx, h=h: self.rules[h].contents(idx, self.fr.k)})
        return p

    def value(self, v):
        if not self.rules:
            return v
        if isinstance(v, SV):
            return SV(self.resolve(v.p))
        if isinstance(v, SBool):
            return wrap(self.resolve(v.p), True)
        if v.__class__ is SArr:
            if v.cell.seq <= self.fr.seq0:
                return v
            g = v.snap()
            return SArr(v.shp, lambda *idx: self.resolve(g(list(idx))), v.dt)
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if v.__class__ is VList and v.concrete():
            return VList([self.value(x) for x in v.segs])
        return v


class Rule(object):
    def __init__(self, rules, oldfn, head, paths):
        self.rules, self.head = rules, head
        self.old = Cell(oldfn)
        self.readers = [(c, Cell(f) if f is not None else None)
                        for c, f in paths]
        self.plans = {}

    def new_at(self, idx):
        """contents after iteration k at idx (symbolic positions)"""
        head = self.head
        out = ZERO
        cx = CTX()
        cx.push()
        try:
            cx.add_range(self.rules.fr.k, self.rules.fr.n)
            for c, r in self.readers:
                if len(self.readers) > 1:
                    cx.push()
                    try:
                        if cx.assume_bool(c) is False:
                            continue
                        v = r.get(idx) if r is not None else \
                            T.app(head, *idx)
                    finally:
                        cx.pop()
                    out = out + c * v
                else:
                    out = out + (r.get(idx) if r is not None
                                 else T.app(head, *idx))
        finally:
            cx.pop()
        return out

    def plan(self, nidx):
        if nidx not in self.plans:
            self.plans[nidx] = self.analyse(nidx)
        return self.plans[nidx]

    def analyse(self, nidx):
        head, fr = self.head, self.rules.fr
        k, ka = fr.k, fr.ka
        ps = [T.fresh('p') for _ in range(nidx)]
        body = self.new_at(ps)
        own = T.app(head, *ps)
        for d in range(nidx):
            for a in T.top_inds(body):
                kind, q = a.a
                if kind != 'eq':
                    continue
                # q = +-(p_d - k - c) or +-(p_d + k - c)
                sp = T.split_by(q, the_atom(ps[d]))
                if sp is None or not sp[0].is_const() or sp[0].is_zero():
                    continue
                s = sp[0].const()
                for e in (1, -1):
                    c = (q.scale(1 / s) - ps[d] + k.scale(e))
                    if not c.fv() & ({ka} | {the_atom(x) for x in ps}):
                        break
                else:
                    continue
                if T.resolve_inds(T.set_ind(body, a, 0)) != own:
                    continue
                live = T.set_ind(body, a, 1)
                # reads of the array must stay in the slab of this iteration
                for w in heads_in(live, head):
                    if T.resolve_inds(w.a[1 + d] - k.scale(e) + c) != ZERO and \
                            (w.a[1 + d] - ps[d]) != ZERO:
                        raise Unsupported('loop-carried array dependence')
                return 'slab', d, -c, e
        # runs of m elements: p_d - k m - c in 0..m-1
        tops = []
        for a in T.top_inds(body):
            if a.a[0] != 'ge' or ka not in a.a[1].fv():
                continue
            if T.resolve_inds(T.set_ind(body, a, 0)) == own:
                tops.append((a, a.a[1], 1))
            elif T.resolve_inds(T.set_ind(body, a, 1)) == own:
                tops.append((a, -a.a[1] - ONE, 0))
        for d in range(nidx):
            for a1, q1, o1 in tops:
                for a2, q2, o2 in tops:
                    m = q1 + q2 + ONE
                    if a1 is a2 or m.fv() & ({ka} | {the_atom(x)
                                                     for x in ps}):
                        continue
                    c = ps[d] - k * m - q1
                    if c.fv() & ({ka} | {the_atom(x) for x in ps}) or \
                            CTX().int_decide('ge', m) is not True:
                        continue
                    live = T.set_ind(T.set_ind(body, a1, o1), a2, o2)
                    for w in heads_in(live, head):
                        if (w.a[1 + d] - ps[d]) != ZERO:
                            raise Unsupported(
                                'loop-carried array dependence')
                    return 'run', ps, d, c, m, live
        # sums
        inc = body - own
        if not heads_in(inc, head):
            return 'acc', ps, self.others(inc)
        # the same elements written by every iteration
        sp = T.split_by(body, the_atom(own))
        if sp is not None:
            keep, val = sp
            if not heads_in(keep, head) and not heads_in(val, head) and \
                    ka not in keep.fv() and T.resolve_inds(
                        keep * keep - keep).is_zero() and \
                    T.resolve_inds(keep * val).is_zero():
                return 'over', ps, keep, self.others(val)
        raise Unsupported('array writes of a symbolic loop do not follow a '
                          'known rule')

    def others(self, p):
        """contents of other arrays written by the loop"""
        R = self.rules
        R.busy.add(self.head)
        try:
            return R.resolve(p)
        finally:
            R.busy.discard(self.head)

    def contents(self, idx, kk):
        """contents before iteration kk (after all of them: kk = n)"""
        fr = self.rules.fr
        k, ka, old = fr.k, fr.ka, self.old
        idx = list(idx)
        pl = self.plan(len(idx))
        if pl[0] == 'slab':
            _, d, c, e = pl
            kv = (idx[d] - c).scale(e)
            hit = T.mk_ind('ge', kv) * T.mk_ind('ge', kk - ONE - kv)

            def inside():
                rp = [k.scale(e) + c if i == d else T.fresh('p')
                      for i in range(len(idx))]
                # other coordinates are kept generic
                body = self.others(subst_heads(self.new_at(rp), self.head,
                                               old))
                mp = {ka: kv}
                for i, x in enumerate(idx):
                    if i != d:
                        mp[the_atom(rp[i])] = x
                return T.subst(body, mp)
            return ite(hit, inside, lambda: old.get(idx))
        mp = {the_atom(p): x for p, x in zip(pl[1], idx)}
        if pl[0] == 'run':
            _, ps, d, c, m, live = pl
            hit = T.mk_ind('ge', idx[d] - c) * \
                T.mk_ind('ge', kk * m - ONE - idx[d] + c)
            body = self.others(subst_heads(live, self.head, old))
            return ite(hit, lambda: T.subst(body, dict(mp) | {
                ka: T.mk_idiv(idx[d] - c, m)}), lambda: old.get(idx))
        if pl[0] == 'acc':
            j = T.fresh('j')
            return old.get(idx) + T.mk_sum(
                j, kk, T.subst(pl[2], dict(mp) | {ka: j}))
        return ite(T.mk_ind('ge', kk - ONE),
                   lambda: T.subst(pl[2], mp) * old.get(idx) +
                   T.subst(pl[3], dict(mp) | {ka: kk - ONE}),
                   lambda: old.get(idx))


def total(fr, d, n):
    if fr.ka in d.fv():
        return T.mk_sum(fr.k, n, d)
    return n * d


def exit_val(v, v0, last, n, nonempty):
    w = S.subst_val(v, last) if not isinstance(v, Undefined) else v
    if nonempty is True:
        return w
    if is_numeric(v0) and is_numeric(w):
        return SV(ite(T.mk_ind('ge', n - ONE), lambda: to_poly(w),
                      lambda: to_poly(v0)))
    return UNBOUND


def heads_in(p, head, seen=None, out=None):
    """application atoms of the head inside p"""
    if out is None:
        out, seen = set(), set()
    for a in p.atoms():
        _heads_atom(a, head, seen, out)
    return out


def _heads_atom(a, head, seen, out):
    if a in seen:
        return
    seen.add(a)
    if a.k == 'f' and a.a[0] == head:
        out.add(a)
    for x in a.a:
        _heads_any(x, head, seen, out)


def _heads_any(x, head, seen, out):
    if isinstance(x, T.Poly):
        for b in x.atoms():
            _heads_atom(b, head, seen, out)
    elif isinstance(x, T.Atom):
        _heads_atom(x, head, seen, out)
    elif isinstance(x, T.Lam):
        _heads_any(x.body, head, seen, out)
        for d in x.dims:
            _heads_any(d, head, seen, out)
    elif isinstance(x, tuple):
        for y in x:
            _heads_any(y, head, seen, out)


def subst_heads(p, head, cell):
    """replace head(idx...) by the array contents"""
    return T.subst(p, {}, heads={head: lambda *idx: cell.get(list(idx))})


class Loop(object):
    """State of one instrumented for statement."""

    def __init__(self, eng, it, segs, brk):
        self.eng, self.it, self.segs = eng, it, segs
        self.sym = False
        self.out = None
        self.result = None
        if brk and any(s[0] == 'sym' for s in segs):
            raise Unsupported('break or return inside a symbolic loop')

    def __iter__(self):
        for s in self.segs:
            if s[0] == 'one':
                self.sym = False
                yield s[1]
                continue
            self.sym = True
            self.result = None
            ex = Executor(self.eng, s[1], s[2])
            yield from ex.passes(self)
            self.ex = ex
            self.out = (ex, self.result)
            self.sym = True
            # exit values are applied through the next statement
            if s is not self.segs[-1]:
                raise Unsupported('loop over several symbolic blocks')

    def enter(self, *getters):
        vals = []
        for g in getters:
            try:
                vals.append(g())
            except NameError:
                vals.append(UNBOUND)
        self.cur.locals0 = vals
        self.exc0 = sys.exc_info()[1]
        # the presets of pass B / C
        m = self.mode
        if m['kind'] == 'A':
            self.base = list(vals)
        vals = list(self.base)
        for c, p in m.get('set', {}).items():
            if c[0] == 'l':
                vals[c[1]] = SV(p)
        for c in m.get('dead', ()):
            if c[0] == 'l':
                vals[c[1]] = UNBOUND
        for c in m.get('arrs', ()):
            if c[0] == 'l':
                vals[c[1]] = self.preset_array(c)
        self.cur.locals0 = list(vals)
        # the loop target keeps its new value: handled by the caller (the
        # target is not among the captured names)
        return vals

    def preset_array(self, c):
        v0, _, head = self.mode['arrs'][c]
        r = SArr(v0.shp, lambda *idx: T.app(head, *idx), v0.dt)
        self.cur.presets.append(id(r.cell))
        self.cur.keep = getattr(self.cur, 'keep', []) + [r]
        return r

    def leave(self, getters, e):
        if e is not None:
            if isinstance(e, NameError) and getattr(self, 'mode', None):
                e = Unsupported('loop-carried value of %s' % e.name)
            self.failed = e
            self.cur.locals1 = list(self.base)
            return True
        vals = []
        for g in getters:
            try:
                vals.append(g())
            except NameError:
                vals.append(UNBOUND)
        self.cur.locals1 = vals
        return False

    def exit(self, n):
        ex, r = self.out
        vals = ex.finish(self, n)
        if vals is None:
            return [UNBOUND] * n if not hasattr(self, 'base') else self.base
        return vals


class WhileLoop(Loop):
    """A while statement.  Executed natively unless its condition is an
    undetermined order of integers; then the number of iterations is solved
    from the condition at a symbolic iteration (which must be affine in the
    iteration number and decreasing: this proves termination)."""

    def __init__(self, eng, cond, brk, sides):
        self.test, self.brk, self.sides = cond, brk, sides
        self.ind = None
        Loop.__init__(self, eng, None, [], False)

    def symbolic(self):
        if self.brk or self.sides is None:
            return False
        a, b = self.sides()
        for x in (a, b):
            if not isinstance(x, (SV, int)) or isinstance(x, bool):
                return False
        p = to_poly(a) - to_poly(b)
        return not p.is_const() and T.poly_is_int(p)

    def __iter__(self):
        self.sym = False
        if self.symbolic():
            c = self.test()
            if not c:
                return
            self.sym = True
            n = T.fresh('n')
            CTX().add_lo(the_atom(n), ONE)
            ex = Executor(self.eng, n, lambda k: None)
            yield from ex.passes(self)
            self.out = (ex, self.result)
            return
        if self.eng.induct is not None and not self.eng.frames and \
                not self.brk:
            self.ind = Induction(self.eng, self, self.eng.induct)
            self.sym = True
            yield from self.ind.run()
            return
        count = 0
        while self.test():
            count += 1
            if count > 400:
                raise Unsupported('while loop without a bound')
            yield None

    def enter(self, *getters):
        if self.ind is None:
            return Loop.enter(self, *getters)
        vals = []
        for g in getters:
            try:
                vals.append(g())
            except NameError:
                vals.append(UNBOUND)
        return self.ind.enter(vals)

    def exit(self, n):
        if self.ind is None:
            return Loop.exit(self, n)
        return self.ind.final[0]

    def cond(self):
        if self.ind is not None:
            return self.ind.cond()
        c = self.test()
        if self.mode['kind'] == 'B' and isinstance(c, SBool):
            CTX().assume_bool(S.bool_poly(c))
        if self.mode['kind'] == 'N':
            self.cond_k.append(S.bool_poly(c) if not isinstance(c, bool)
                               else const(int(c)))

    def solve(self, fr):
        ps = []
        for p in self.cond_k:
            if p not in ps:
                ps.append(p)
        if len(ps) != 1:
            raise Unsupported('while condition')
        p = ps[0]
        a = the_atom(p)
        q = None
        if a is not None and a.k == 'ind':
            q = a.a[1]
        else:
            a = the_atom(ONE - p)
            if a is not None and a.k == 'ind':
                q = -a.a[1] - ONE
        if q is None or a.a[0] != 'ge' or not T.poly_is_int(q):
            raise Unsupported('while condition')
        sp = T.split_by(q, fr.ka)
        if sp is None or fr.ka in (sp[0].fv() | sp[1].fv()):
            raise Unsupported('while condition')
        step, p0 = -sp[0], sp[1]
        if not CTX().nonneg(step - ONE):
            raise Unsupported('while loop may not terminate')
        CTX().add_fact('ge', p0)
        return p, T.mk_idiv(p0, step) + ONE


class Induction(object):
    """A while statement whose number of iterations depends on data: proof by
    induction.  The state after j iterations is guessed from the states after
    one and two iterations (the ghost counter m0 of the contract marks the
    iteration an opaque callee belongs to) and then *proved*: the initial
    state leads to G(1), and for every j >= 1 with a true condition G(j) leads
    to G(j+1); the contract's bound shows termination.  After the loop the
    state is G(K) for an unknown K >= 1 where the condition is false, and the
    condition was true at G(j) for every 1 <= j < K."""

    def __init__(self, eng, loop, spec):
        self.eng, self.L, self.spec = eng, loop, spec
        self.base = None

    def enter(self, vals):
        if self.base is None:
            self.base = vals
        if self.state is None:
            vals = list(self.base)
        else:
            vals = list(self.state[0])
        self.L.base = self.L.cur.locals0 = vals
        return vals

    def cond(self):
        ok = bool(self.L.test())
        fr = self.fr
        if not ok:
            raise LocalDead()
        key = list(fr.conds)
        if all(k != key for k in self.trues):
            self.trues.append(key)
        fr.entered = len(key)
        if self.at is not None:
            self.spec['variant'](self.at)

    def one(self, state, at=None):
        """run the body once from the state (None: the current one) on every
        local path; yields like the loop; returns (state, condition)"""
        eng, L = self.eng, self.L
        self.state, self.at, self.trues = state, at, []
        fr = self.fr = Frame(eng, T.fresh('n'))
        fr.local = True
        efs = []
        todo = [[]]
        failed = None
        while todo:
            fr.prefix = todo.pop()
            fr.pending = []
            fr.start()
            fr.entered = None
            L.cur = Effects()
            L.frame = fr
            L.failed = None
            undo = []
            if state is not None:
                for l, segs in state[1].values():
                    undo.append((l, None, list(l.segs)))
                    l.segs = list(segs)
                for o, nm, v in state[2].values():
                    undo.append((o, nm, o.__dict__.get(nm, UNBOUND)))
                    o.__dict__[nm] = v
            yield None
            conds = list(fr.conds)
            fr.stop()
            ef = L.cur
            jr = fr.journal
            if any(c.seq <= fr.seq0 for c, f in jr.cells.values()):
                raise Unsupported('array written in a data dependent loop')
            ef.lists = {i: (l, list(l.segs)) for i, (l, s)
                        in jr.lists.items() if l.seq <= fr.seq0}
            ef.attrs = {k: (o, nm, o.__dict__.get(nm)) for k, ((o, nm), v)
                        in jr.attrs.items() if eng.obj_seq(o) <= fr.seq0}
            jr.restore(eng, fr.seq0)
            for o, nm, v in undo:
                if nm is None:
                    o.segs = v
                elif v is UNBOUND:
                    o.__dict__.pop(nm, None)
                else:
                    o.__dict__[nm] = v
            todo.extend(fr.pending)
            if isinstance(L.failed, LocalDead):
                continue
            if L.failed is not None:
                raise L.failed
            ef.cond = ONE
            for p in conds[fr.entered:]:
                ef.cond = ef.cond * p
            efs.append(ef)
            if len(efs) > 64:
                raise Unsupported('too many branches in a loop body')
        self.fr = None
        if not efs:
            return None, ZERO
        if len(self.trues) != 1:
            raise Unsupported('loop condition with several true branches')
        cond = ONE
        for p in self.trues[0]:
            cond = cond * p
        c = CTX()
        c.push()
        try:
            if c.assume_bool(cond) is False:
                return None, ZERO
            return self.merged(efs), cond
        finally:
            c.pop()

    def merged(self, efs):
        loc = []
        for i in range(len(efs[0].locals1)):
            loc.append(self.merge([(ef.cond, ef.locals1[i]) for ef in efs]))
        lists, attrs = {}, {}
        for ef in efs:
            lists.update(ef.lists)
            attrs.update(ef.attrs)
        for i, (l, _) in lists.items():
            cur = [ef.lists.get(i) for ef in efs]
            if any(c is None or len(c[1]) != len(cur[0][1]) for c in cur):
                raise Unsupported('list changed on some branches of a loop')
            lists[i] = (l, [x if all(c[1][j] is x for c in cur) else
                            self.merge([(ef.cond, c[1][j]) for ef, c
                                        in zip(efs, cur)])
                            for j, x in enumerate(cur[0][1])])
        for k, (o, nm, _) in attrs.items():
            if any(k not in ef.attrs for ef in efs):
                raise Unsupported('attribute set on some branches of a loop')
            attrs[k] = (o, nm, self.merge([(ef.cond, ef.attrs[k][2])
                                           for ef in efs]))
        return loc, lists, attrs

    def merge(self, paths):
        if all(v is paths[0][1] for c, v in paths):
            return self.fix(paths[0][1])
        return self.fix(merge_vals(paths))

    def fix(self, v):
        """arrays as closed terms: substituted without the path facts"""
        if isinstance(v, SArr) and v.__class__ is SArr:
            return self.closed(v.shp, T.mk_lam(v.shp, v.snap()), v.dt)
        if isinstance(v, SV):
            return SV(T.resolve_inds(v.p))
        if isinstance(v, SBool):
            return S.wrap(T.resolve_inds(v.p), True)
        return v

    def closed(self, shp, lam, dt):
        r = SArr(shp, lambda *i: lam.at(list(i)), dt)
        r.closed_lam = lam
        return r

    def move(self, v, mp):
        lam = getattr(v, 'closed_lam', None)
        if isinstance(v, SArr) and lam is not None:
            ivs = [T.fresh('l') for _ in v.shp]
            body = T.subst(lam.at(ivs, False), mp)
            shp = tuple(T.subst(d, mp) for d in v.shp)
            return self.closed(shp, T.mk_lam(shp, lambda ix: T.subst(
                body, {the_atom(a): b for a, b in zip(ivs, ix)})), v.dt)
        return S.subst_val(v, mp)

    def run(self):
        eng, L, spec = self.eng, self.L, self.spec
        vc, m0 = spec['vc'], the_atom(spec['m0'])
        c = CTX()
        s1, c0 = yield from self.one(None)
        if s1 is None or not eng.decide(c0):
            # no iteration
            self.final = (self.base, {}, {})
            return
        s2, c1 = yield from self.one(s1)
        if s2 is None:
            raise Unsupported('loop runs at most once')
        if set(s1[1]) != set(s2[1]) or set(s1[2]) != set(s2[2]):
            raise Unsupported('loop state')
        bump = {m0: spec['m0'] + ONE}
        jv = T.fresh('jj')
        ja = the_atom(jv)
        to_j = {m0: spec['m0'] + jv - ONE}

        def gen(v1, v2):
            if v1 is v2:
                return lambda j: v1
            if is_numeric(v1) and is_numeric(v2) or \
                    isinstance(v1, SBool) and isinstance(v2, SBool) or \
                    isinstance(v1, SArr) and isinstance(v2, SArr):
                w = self.move(v1, bump)
                if vc._eq(w, v2)[0]:
                    return lambda j: self.move(
                        v1, {m0: spec['m0'] + j - ONE})
                if is_numeric(v1) and is_numeric(v2):
                    d = to_poly(v2) - to_poly(v1)
                    return lambda j: SV(to_poly(v1) + (j - ONE) * d)
            if isinstance(v1, tuple) and isinstance(v2, tuple) and \
                    len(v1) == len(v2):
                gs = [gen(a, b) for a, b in zip(v1, v2)]
                return lambda j: tuple(g(j) for g in gs)
            if hasattr(v1, 'vc_subst') and v1.vc_subst(bump) == v2:
                return lambda j: v1.vc_subst({m0: spec['m0'] + j - ONE})
            if v1 is UNBOUND or v2 is UNBOUND:
                return lambda j: UNBOUND
            if isinstance(v1, (str, bool, type(None))) and v1 == v2:
                return lambda j: v1
            raise Unsupported('no loop invariant found')

        def gen_list(l, a, b):
            n0 = len(l.segs)
            if len(a) == n0 and len(b) == n0 and \
                    all(x is y for x, y in zip(a, b)):
                return lambda j: list(a)
            d = len(a) - n0
            if d < 1 or len(b) != n0 + 2 * d or \
                    any(x is not y for x, y in zip(l.segs, a)) or \
                    any(x is not y for x, y in zip(a, b)):
                raise Unsupported('no loop invariant found')
            items = [gen(x, y) for x, y in zip(a[n0:], b[n0 + d:])]

            def at(j):
                k = T.fresh('k')
                return list(a[:n0]) + [For(k, j, [g(k + ONE)
                                                  for g in items])]
            return at
        loc = [gen(a, b) for a, b in zip(s1[0], s2[0])]
        lst = {i: (l, gen_list(l, a, s2[1][i][1]))
               for i, (l, a) in s1[1].items()}
        att = {k: (o, nm, gen(a, s2[2][k][2]))
               for k, (o, nm, a) in s1[2].items()}

        def G(j):
            return ([g(j) for g in loc],
                    {i: (l, g(j)) for i, (l, g) in lst.items()},
                    {k: (o, nm, g(j)) for k, (o, nm, g) in att.items()})
        self.check(G(ONE), s1, 'the first iteration establishes the state')
        c.push()
        try:
            c.add_lo(ja, ONE)
            before = [(k, dict(o.__dict__, backends=dict(o.backends)))
                      for k, o in eng.obl.items()]
            try:
                sn, cj = yield from self.one(G(jv), jv)
                if sn is None:
                    raise Unsupported('loop runs at most once')
                self.check(G(jv + ONE), sn,
                           'every iteration preserves the state')
            except Unsupported:
                # obligations met in a guessed state mean nothing
                for k in list(eng.obl):
                    del eng.obl[k]
                for k, d in before:
                    o = eng.obl[k] = Obligation(k)
                    o.__dict__.update(d)
                raise
        finally:
            c.pop()
        K = T.fresh('K')
        c.add_lo(the_atom(K), ONE)
        if c.assume_bool(ONE - T.subst(cj, {ja: K})) is False:
            raise PathEnd()
        spec['entered'] = lambda j: T.subst(cj, {ja: j})
        # in particular for the last iteration but one
        before = T.subst(cj, {ja: K - ONE})
        later = T.mk_ind('ge', K - const(2))
        if c.assume_bool(ONE - later + later * before) is False:
            raise PathEnd()
        spec['K'] = K
        self.final = G(K)
        for l, segs in self.final[1].values():
            l._j()
            l.segs = segs
        for o, nm, v in self.final[2].values():
            setattr(o, nm, v)

    def check(self, want, got, what):
        vc = self.spec['vc']

        def same(a, b):
            if a is b or a is UNBOUND:
                return True
            if hasattr(a, 'vc_subst'):
                return a == b
            if isinstance(a, (str, type(None))):
                return a == b
            if isinstance(a, tuple):
                return all(same(x, y) for x, y in zip(a, b))
            return vc._eq(a, b)[0]
        ok = all(same(a, b) for a, b in zip(want[0], got[0])) and \
            set(want[1]) == set(got[1]) and set(want[2]) == set(got[2])
        for i, (l, segs) in want[1].items():
            ok = ok and self.same_list(segs, got[1][i][1], same)
        for k, (o, nm, v) in want[2].items():
            ok = ok and same(v, got[2][k][2])
        if not ok:
            raise Unsupported('no loop invariant found')
        vc.rec('loop invariant: ' + what, True, None, 'normal-form')

    def same_list(self, want, got, same):
        """want: base + For(k, j+1 or 1, items); got: base + For(k, j, items)
        + items"""
        if len(want) == len(got) and all(x is y for x, y in zip(want, got)):
            return True
        if not want or not isinstance(want[-1], For):
            return False
        f = want[-1]
        n0, d = len(want) - 1, len(f.segs)
        if any(x is not y for x, y in zip(want[:n0], got)):
            return False
        rest = list(got[n0:])
        done = ZERO
        if rest and isinstance(rest[0], For):
            g = rest.pop(0)
            if len(g.segs) != d or (g.n - f.n + ONE) != ZERO:
                return False
            for x, y in zip(f.segs, g.segs):
                if not same(S.subst_val(x, {the_atom(f.k): g.k}), y):
                    return False
            done = g.n
        if (f.n - done - ONE) != ZERO or len(rest) != d:
            return False
        return all(same(S.subst_val(x, {the_atom(f.k): done}), y)
                   for x, y in zip(f.segs, rest))


class NativeLoop(object):
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class SwallowSym(object):
    """Context of one loop body: swallows what a symbolic pass recorded."""

    def __init__(self, L, getters):
        self.L, self.getters = L, getters

    def __enter__(self):
        pass

    def __exit__(self, et, e, tb):
        L = self.L
        if not L.sym:
            return False
        if e is not None:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                return False
        return L.leave(self.getters, e)


# ------------------------------------------------------------------ engine
class Obligation(object):
    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.detail = None
        self.count = 0
        self.backends = {}
        self.time = 0.0


BOUNDLIKE = {'k', 'q', 's', 'l', 'b', 'p', 'x', 'j', 'rho', 'i'}


class Engine(object):
    """Explores every path of a scenario."""

    def __init__(self, deadline=None, concrete=None):
        self.deadline = deadline
        self.concrete = concrete       # None: symbolic dimensions
        self.max_paths = 400
        self.obl = collections.OrderedDict()
        self.paths = 0
        self.infeasible = 0
        self.functions = set()
        self.assumptions = set()
        self.frames = []

    # -- bookkeeping used by sym.py
    def new_seq(self):
        self.seq += 1
        return self.seq

    def fresh_head(self, base):
        self.headn += 1
        return '%s#%d' % (base, self.headn)

    def obj_seq(self, o):
        r = self.objs.get(id(o))
        return r[0] if r is not None else 0

    def note_obj(self, o):
        self.objs[id(o)] = (self.new_seq(), o)

    def journal_cell(self, c):
        for f in self.frames:
            f.journal.cells.setdefault(id(c), (c, c.fn))

    def journal_list(self, l):
        for f in self.frames:
            f.journal.lists.setdefault(id(l), (l, list(l.segs)))

    def journal_attr(self, o, name):
        for f in self.frames:
            f.journal.attrs.setdefault(
                (id(o), name), ((o, name), o.__dict__.get(name, UNBOUND)))

    def in_symbolic_body(self):
        return bool(self.frames)

    # -- decisions
    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Timeout()

    def unbox(self, p):
        """the value of a term at the point of differentiation"""
        for head, x, scalar in reversed(self.boxes):
            if head in p.fv():
                if scalar:
                    p = T.subst(p, {head: x})
                else:
                    p = T.subst(p, {}, heads={head: x})
        return p

    def decide(self, p):
        c = CTX()
        p = T.resolve_inds(self.unbox(p))
        if p == ONE:
            return True
        if p.is_zero():
            return False
        self.check_time()
        r = c.z3_bool(p, 1000)
        if r is not None:
            return r
        fv = p.fv()
        for f in reversed(self.frames):
            if f.local or f.ka in fv or any(a in fv for a in f.bound):
                return f.decide(p)
        if any(a.__class__ is T.Atom and a.k == 'v' and '!' in a.a[0] and
               a.a[0].partition('!')[0] in BOUNDLIKE for a in fv):
            raise Unsupported('decision on a generic element: %s' %
                              T.show(p))
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.todo.append(self.taken + [False])
        self.taken.append(v)
        self.trace.append((v, T.show(p)))
        q = p if v else ONE - p
        if c.assume_bool(q) is False:
            raise PathEnd()
        if len(self.taken) > 60:
            raise Unsupported('too many decisions on one path')
        return v

    def decide_forall(self, fa):
        c = CTX()
        ivs = []
        c.push()
        try:
            for d in fa.dims:
                iv = T.fresh('q')
                c.add_range(iv, d)
                ivs.append(iv)
            body = self.unbox(fa.fn(ivs))
            body = T.resolve_inds(body)
            if body == ONE:
                return True
            r = None
            if not body.is_zero():
                r = c.z3_bool(body, 2000)
            else:
                r = False
            if r is None:
                if prove.holds(body, 3)[0]:
                    return True
        finally:
            c.pop()
        if r is True:
            return True
        nonempty = all(c.int_decide('ge', d - ONE) for d in fa.dims)
        if r is False and nonempty:
            return False
        # fork
        key = ('forall', fa.dims, T.mk_lam(fa.dims, fa.fn))
        if key in self.known_foralls:
            return self.known_foralls[key]
        flag = T.atom('ind', 'eq', T.fresh('all', 'r'))
        if self.frames:
            fv = set(body.fv())
            for f in self.frames:
                if f.local or f.ka in fv:
                    raise Unsupported('quantified condition in a loop body')
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = True
            self.todo.append(self.taken + [False])
        self.taken.append(v)
        self.trace.append((v, 'forall ' + T.show(body)))
        self.known_foralls[key] = v
        if v:
            self.assume_forall(fa)
        else:
            # a witness
            for d in fa.dims:
                c.add_fact('ge', d - ONE)
            ws = []
            for d in fa.dims:
                w = T.fresh('w')
                c.add_range(w, d)
                ws.append(w)
            b = T.resolve_inds(ONE - fa.fn(ws))
            if b.is_zero() or c.assume_bool(b) is False:
                raise PathEnd()
        if c.z3_feasible() == core.z3.unsat:
            raise PathEnd()
        return v

    def assume_forall(self, fa):
        """record a universally quantified fact: instantiated on the array
        atoms whose indices are exactly the bound variables"""
        c = CTX()
        lam = T.mk_lam(fa.dims, fa.fn)
        op = lam.open()
        ivs, body = op
        c.add_equalities(lam, ivs, body)
        ats = set()
        for a in body.atoms():
            collect_apps(a, ats)
        bs = [the_atom(i) for i in ivs]
        for a in ats:
            args = a.a[1:]
            # each argument is a bound variable or free of them
            pat = []
            for x in args:
                b = the_atom(x) if isinstance(x, T.Poly) and x in ivs \
                    else None
                if b is None and isinstance(x, (T.Poly, T.Lam)) and \
                        x.fv() & set(bs):
                    break
                pat.append(b)
            else:
                if set(b for b in pat if b is not None) != set(bs):
                    continue
                head = a.a[0]
                prev = c.axioms.get(head)

                def ax(args, prev=prev, lam=lam, lead=a.a[1:], pat=pat):
                    out = list(prev(args)) if prev else []
                    if len(args) != len(pat):
                        return out
                    m = {}
                    for x, l, b in zip(args, lead, pat):
                        if b is None:
                            if x != l:
                                return out
                        elif m.setdefault(b, x) != x:
                            return out
                    ix = [m[b] for b in bs]
                    q = lam.at(ix, False)
                    # the fact holds for the indices it ranges over only
                    guard = ONE
                    c = CTX()
                    for x, d in zip(ix, lam.dims):
                        for lim in (x, S.dim_poly(d) - ONE - x):
                            if not c.nonneg(lim):
                                guard = guard * T.mk_ind('ge', lim, False)
                    if guard != ONE:
                        q = ONE - guard * (ONE - q)
                    out.append(('bool', q))
                    return out
                c.axioms[head] = ax
                c.bump()

    # -- definedness
    def wd(self, kind, p, what):
        c = CTX()
        p = self.unbox(p)
        key = (c.ver, 'wd', kind, p)
        if key in c.cache:
            return
        ok = self.prove_rel(kind, p)
        c.cache[key] = ok
        if self.wd_mute:
            return
        name = 'defined:' + what
        self.record(name, ok, None if ok else
                    '%s: cannot show %s %s 0' % (
                        what, T.show(p), {'ne': '!=', 'gt': '>',
                                          'ge': '>='}[kind]))

    def prove_rel(self, kind, p, extra=None):
        c = CTX()
        if p.is_const():
            v = p.const()
            return v != 0 if kind == 'ne' else v > 0 if kind == 'gt' \
                else v >= 0 if kind == 'ge' else v == 0
        s = c.sign(p)
        if kind == 'ne' and s is not None:
            return True
        if kind in ('gt', 'ge') and s == 1:
            return True
        if kind == 'ge' and c.syn_nonneg(p):
            return True
        if kind == 'ne':
            r = c.real_decide('eq', p) if not T.poly_is_int(p) else \
                c.int_decide('eq', p)
            if r is False:
                return True
        else:
            q = T.mk_ind(kind, p)
            if q == ONE:
                return True
        inds = T.top_inds(p)
        if inds and len(inds) <= 6:
            a = min(inds, key=lambda x: x.id)
            if extra is None:
                # instances of the quantified facts at the atoms of p: they
                # may lose their anchor when a case is decided
                extra = []
                if c.axioms:
                    for b in p.atoms():
                        if b.k == 'f' and b.a[0] in c.axioms:
                            extra += [q for k2, q in c.axioms[b.a[0]](
                                b.a[1:]) if k2 == 'bool']
            for v in (0, 1):
                c.push()
                try:
                    if c.assume_ind(a, bool(v)) is False:
                        continue
                    ex2 = [T.resolve_inds(T.set_ind(q, a, v))
                           for q in extra]
                    dead = False
                    for q in ex2:
                        if q.is_zero() or c.assume_bool(q) is False:
                            dead = True
                    if dead:
                        continue
                    if not self.prove_rel(kind, T.resolve_inds(
                            T.set_ind(p, a, v)), ex2):
                        return False
                finally:
                    c.pop()
            return True
        num = T.cancel(p)
        if num is not p and num != p:
            return self.prove_rel(kind, num)
        k2 = 'eq' if kind == 'ne' else kind
        r = c.z3_decide(k2, p)
        if kind == 'ne':
            # (contradictory facts decide everything as True first)
            return r is False or (r is True and
                                  c.z3_feasible() == core.z3.unsat)
        return r is True

    def same_elems(self, dims, f, g):
        c = CTX()
        c.push()
        try:
            ivs = []
            for d in dims:
                iv = T.fresh('q')
                c.add_range(iv, d)
                ivs.append(iv)
            return T.resolve_inds(f(ivs) - g(ivs)).is_zero()
        finally:
            c.pop()

    def index_bounds(self, shape, rd, dim, exc=IndexError):
        """all index values within [0, dim) (negative constants wrap)"""
        c = CTX()
        c.push()
        try:
            ivs = []
            for d in shape:
                iv = T.fresh('q')
                c.add_range(iv, d)
                ivs.append(iv)
            p = rd(ivs)
            if p.is_const() and p.const() < 0 and exc is IndexError:
                p = p + dim
            b = T.mk_ind('ge', p) * T.mk_ind('ge', dim - ONE - p)
            b = T.resolve_inds(b)
            if b == ONE:
                return
            r = c.z3_bool(b, 1500)
            if r is True or prove.holds(b, 3)[0]:
                return
        finally:
            c.pop()
        bad = SForall(shape, lambda ix: T.mk_ind('ge', rd(ix)) *
                      T.mk_ind('ge', dim - ONE - rd(ix)))
        if not self.decide_forall(bad):
            raise exc('index out of bounds')

    def distinct_positions(self, dims, readers):
        """positions of a symbolic scatter are pairwise distinct"""
        if len(readers) == 1:
            # an injective enumeration of the true positions of a mask
            c = CTX()
            c.push()
            try:
                out = []
                for k in range(2):
                    ix = []
                    for d in dims:
                        if d.is_const() and d.const() == 1:
                            ix.append(ZERO)
                            continue
                        v = T.fresh('q')
                        c.add_range(v, d)
                        ix.append(v)
                    out.append((ix, readers[0](ix)))
                p = T.mk_ind('eq', out[0][1] - out[1][1])
                q = ONE
                for x, y in zip(out[0][0], out[1][0]):
                    q = q * T.mk_ind('eq', x - y)
                if p == q:
                    return
            finally:
                c.pop()
        c = CTX()
        c.push()
        try:
            ix = [[], []]
            q = ONE
            for d in dims:
                v, w = T.fresh('q'), T.fresh('q')
                c.add_range(v, d)
                c.add_range(w, d)
                ix[0].append(v)
                ix[1].append(w)
                q = q * T.mk_ind('eq', v - w)
            p = ONE
            for r in readers:
                p = p * T.mk_ind('eq', r(ix[0]) - r(ix[1]))
            if p == q or prove.zero(p * (ONE - q), 3)[0]:
                return
        finally:
            c.pop()
        raise Unsupported('scatter assignment')

    def register_mask(self, lam, m, n, cnt):
        c = CTX()
        if lam in c.masks:
            return
        c.masks[lam] = (lambda ix: m(ix), n, cnt)

        # the enumeration of the true positions and the number of true
        # positions before a position
        def sel(args):
            if args[0] != lam:
                return []
            s = T.app('I:sel', *args)
            return [('ge', s), ('ge', n - ONE - s), ('bool', m([s]))]

        def rank(args):
            if args[0] != lam:
                return []
            r = T.app('I:rank', *args)
            return [('ge', r), ('ge', cnt - r - m([args[1]]))]
        for head, f in (('I:sel', sel), ('I:rank', rank)):
            def ax(args, f=f, prev=c.axioms.get(head)):
                return (list(prev(args)) if prev else []) + f(args)
            c.axioms[head] = ax
        c.bump()

    def note_matmul(self, a, b, r):
        self.matmuls.append((a, b, r, [f.ka for f in self.frames]))

    # -- obligations
    def record(self, name, ok, detail=None, backend=None, t=0.0):
        full = self.prefix_name + name
        o = self.obl.get(full)
        if o is None:
            o = self.obl[full] = Obligation(full)
        o.count += 1
        o.time += t
        if backend:
            o.backends[backend] = o.backends.get(backend, 0) + 1
        if not ok:
            o.status = 'failed'
            if o.detail is None:
                o.detail = '%s [path: %s]' % (
                    detail, '; '.join('%s=%s' % (b, v)
                                      for v, b in self.trace[-8:]))

    # -- exploration
    def explore(self, scenario, label):
        from . import nplib
        self.prefix_name = label + ': '
        todo = [[]]
        npaths = 0
        while todo:
            self.check_time()
            self.prefix = todo.pop()
            self.todo = []
            self.taken = []
            self.trace = []
            self.frames = []
            self.seq = 0
            self.headn = 0
            self.objs = {}
            T.SYMM_HEADS.clear()
            T.SYMM_HEADS.add('M:invS')
            self.matmuls = []
            self.boxes = []
            self.world_primitives = []
            self.live = []
            self.masks = {}
            self.known_foralls = {}
            self.induct = None
            self.generic = set()
            self.wd_mute = False
            T.reset_fresh()
            ctx = Ctx()
            T.set_ctx(ctx)
            Eng.cur = self
            self.world = World(self)
            nplib.setup_ctx(ctx)
            npaths += 1
            if npaths > self.max_paths:
                raise Unsupported('too many paths')
            try:
                scenario(self)
                self.paths += 1
            except PathEnd:
                self.infeasible += 1
            finally:
                Eng.cur = None
            todo.extend(self.todo)


class Timeout(Exception):
    pass


def collect_apps(a, out):
    if a.k == 'f' and isinstance(a.a[0], str) and \
            a.a[0].startswith(('A:', 'M:', 'F:', 'I:')) and \
            a.a[0] not in ('I:sel', 'I:rank', 'I:size'):
        out.add(a)
    for x in a.a:
        if isinstance(x, T.Poly):
            for b in x.atoms():
                collect_apps(b, out)
        elif isinstance(x, T.Atom):
            collect_apps(x, out)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], T.Atom):
                    collect_apps(y[0], out)


# ------------------------------------------------------- objects and dicts
class ObjType(type):
    def __setattr__(cls, name, v):
        e = Eng.cur
        if e is not None and e.frames:
            raise Unsupported('class attribute set in a symbolic loop')
        type.__setattr__(cls, name, v)


class Obj(object, metaclass=ObjType):
    """Base class injected into the classes of the repository: journals
    attribute writes for symbolic loops."""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        e = Eng.cur
        if e is not None:
            e.note_obj(o)
        return o

    def __setattr__(self, name, v):
        e = Eng.cur
        if e is not None and e.frames:
            e.journal_attr(self, name)
        object.__setattr__(self, name, v)

    def __delattr__(self, name):
        no_write()
        object.__delattr__(self, name)


def no_write(o=None):
    e = Eng.cur
    if e is not None and e.frames and \
            getattr(o, 'vc_seq', 0) <= e.frames[-1].seq0:
        raise Unsupported('dict or set changed in a symbolic loop')


def guarded(base, names):
    def method(m):
        f = getattr(base, m)

        def g(self, *a, **kw):
            no_write(self)
            return f(self, *a, **kw)
        return g

    def new(cls, *a, **kw):
        o = base.__new__(cls, *a, **kw)
        o.vc_seq = Eng.cur.new_seq() if Eng.cur is not None else 0
        return o
    return {'__new__': new, **{m: method(m) for m in names.split() if hasattr(base, m)}}


DICT_WRITES = ('__setitem__ __delitem__ __ior__ update setdefault pop '
               'popitem clear move_to_end')


class VDict(dict):
    locals().update(guarded(dict, DICT_WRITES))


class VODict(collections.OrderedDict):
    locals().update(guarded(collections.OrderedDict, DICT_WRITES))


class VSet(set):
    locals().update(guarded(set, 'add update remove discard pop clear '
                            'difference_update intersection_update '
                            'symmetric_difference_update __ior__ __iand__ '
                            '__isub__ __ixor__'))


def v_hasattr(o, name):
    if isinstance(o, Obj) and o.__dict__.get(name) is UNBOUND:
        raise Unsupported('use of a value that a loop does not determine')
    return hasattr(o, name)


def v_next(*a):
    no_write()
    return next(*a)


# --------------------------------------------------------- instrumentation
class NameCollector(ast.NodeVisitor):
    def __init__(self):
        self.names = []
        self.brk = False

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        pass

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class BreakFinder(ast.NodeVisitor):
    def __init__(self):
        self.found = False
        self.depth = 0

    def visit_Break(self, n):
        if self.depth == 0:
            self.found = True

    def visit_Return(self, n):
        self.found = True

    def visit_Yield(self, n):
        self.found = True

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_FunctionDef


def has_break(body):
    b = BreakFinder()
    for s in body:
        b.visit(s)
    return b.found


def has_nonlocal_exit(body):
    return has_break(body)


class Instrument(ast.NodeTransformer):
    def __init__(self, module=''):
        self.n = 0
        self.loops = 0
        self.qual = [module] if module else []

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        q = '.'.join(self.qual)
        self.generic_visit(node)
        self.qual.pop()
        body = node.body
        at = 1 if (isinstance(body[0], ast.Expr) and
                   isinstance(body[0].value, ast.Constant) and
                   isinstance(body[0].value.value, str)) else 0
        outer = any(isinstance(x, (ast.Nonlocal, ast.Global))
                    for x in ast.walk(node))
        e = ast.Expr(value=call('fn', [ast.Constant(value=q),
                                       ast.Constant(value=outer)]))
        ast.copy_location(e, body[0])
        body.insert(at, e)
        return node

    def tmp(self, b):
        self.n += 1
        return '__vc_%s%d' % (b, self.n)

    def visit_For(self, node):
        targets = NameCollector()
        targets.visit(node.target)
        nc = NameCollector()
        for s in node.body:
            nc.visit(s)
        names = [x for x in nc.names if x not in targets.names]
        names += [x for x in targets.names if x in nc.names]
        brk = has_break(node.body)
        self.generic_visit(node)
        L = self.tmp('L')
        names = [x for x in names]

        def name(i, ctx=None):
            return ast.Name(id=i, ctx=ctx or ast.Load())

        def getters():
            return [ast.Lambda(args=no_args(), body=name(i)) for i in names]
        out = [ast.Assign(
            targets=[name(L, ast.Store())],
            value=call('loop', [node.iter, ast.Constant(value=brk)]))]
        body = []
        tnames = [x for x in names if x not in targets.names]
        enter = ast.Expr(value=ast.Call(
            func=attr(name(L), 'enter'), args=getters(), keywords=[]))
        if names:
            tup = ast.Tuple(
                elts=[name(i, ast.Store()) if i not in targets.names else
                      name('__vc_drop', ast.Store()) for i in names],
                ctx=ast.Store())
            enter = ast.Assign(targets=[tup], value=ast.Call(
                func=attr(name(L), 'enter'), args=getters(), keywords=[]))
        body.append(ast.If(test=attr(name(L), 'sym'), body=[enter] + [
            unbind(x) for x in tnames], orelse=[]))
        body.append(ast.With(items=[ast.withitem(
            context_expr=call('body', [name(L)] + getters()),
            optional_vars=None)], body=node.body))
        loop = ast.For(target=node.target, iter=name(L), body=body,
                       orelse=node.orelse)
        out.append(loop)
        exit_call = ast.Call(func=attr(name(L), 'exit'),
                             args=[ast.Constant(value=len(names))],
                             keywords=[])
        if names:
            ex = ast.Assign(targets=[ast.Tuple(
                elts=[name(i, ast.Store()) for i in names],
                ctx=ast.Store())], value=exit_call)
        else:
            ex = ast.Expr(value=exit_call)
        # a loop target has no defined value after a symbolic loop
        after = [ex]
        dead = [x for x in targets.names if x not in nc.names]
        if dead:
            after.append(ast.Assign(
                targets=[name(x, ast.Store()) for x in dead],
                value=attr(name('__vc__'), 'UNBOUND')))
        out.append(ast.If(test=attr(name(L), 'sym'), body=after, orelse=[]))
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_While(self, node):
        if node.orelse or (isinstance(node.test, ast.Constant)):
            self.generic_visit(node)
            return node
        nc = NameCollector()
        for s in node.body:
            nc.visit(s)
        names = list(nc.names)
        brk = has_break(node.body)
        self.generic_visit(node)
        L = self.tmp('L')
        sides = ast.Constant(value=None)
        if isinstance(node.test, ast.Compare) and len(node.test.ops) == 1 \
                and not any(isinstance(x, ast.Call)
                            for x in ast.walk(node.test)):
            sides = ast.Lambda(args=no_args(), body=ast.Tuple(
                elts=[node.test.left, node.test.comparators[0]],
                ctx=ast.Load()))

        def name(i, ctx=None):
            return ast.Name(id=i, ctx=ctx or ast.Load())

        def getters():
            return [ast.Lambda(args=no_args(), body=name(i)) for i in names]
        out = [ast.Assign(
            targets=[name(L, ast.Store())],
            value=call('while_loop', [ast.Lambda(
                args=no_args(), body=node.test),
                ast.Constant(value=brk), sides]))]
        tup = ast.Tuple(elts=[name(i, ast.Store()) for i in names],
                        ctx=ast.Store())
        ent = ast.Call(func=attr(name(L), 'enter'), args=getters(),
                       keywords=[])
        first = [ast.Assign(targets=[tup], value=ent) if names else
                 ast.Expr(value=ent)] + [unbind(x) for x in names]
        test = ast.If(test=attr(name(L), 'sym'), body=[
            ast.Expr(value=ast.Call(func=attr(name(L), 'cond'),
                                    args=[], keywords=[]))], orelse=[])
        body = [ast.If(test=attr(name(L), 'sym'), body=first, orelse=[]),
                ast.With(items=[ast.withitem(
                    context_expr=call('body', [name(L)] + getters()),
                    optional_vars=None)], body=[test] + node.body)]
        out.append(ast.For(target=name(self.tmp('w'), ast.Store()),
                           iter=name(L), body=body, orelse=[]))
        ex = ast.Call(func=attr(name(L), 'exit'),
                      args=[ast.Constant(value=len(names))], keywords=[])
        out.append(ast.If(test=attr(name(L), 'sym'), body=[
            ast.Assign(targets=[ast.Tuple(
                elts=[name(i, ast.Store()) for i in names],
                ctx=ast.Store())], value=ex) if names else
            ast.Expr(value=ex)], orelse=[]))
        for o in out:
            ast.copy_location(o, node)
        return out

    def _comp(self, node, elt):
        if any(g.is_async for g in node.generators):
            return None
        expr = elt
        for gi in range(len(node.generators) - 1, -1, -1):
            g = node.generators[gi]
            nc = NameCollector()
            nc.visit(g.target)
            if isinstance(g.target, ast.Name):
                args = arg_list([g.target.id])
                conv = ast.Constant(value=0)
            elif isinstance(g.target, (ast.Tuple, ast.List)) and all(
                    isinstance(e, ast.Name) for e in g.target.elts):
                args = arg_list([e.id for e in g.target.elts])
                conv = ast.Constant(value=len(g.target.elts))
            else:
                return None
            cond = ast.Constant(value=None)
            if g.ifs:
                t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                    op=ast.And(), values=list(g.ifs))
                cond = ast.Lambda(args=args, body=t)
            inner = gi < len(node.generators) - 1
            expr = call('lc', [ast.Lambda(args=args, body=expr), g.iter,
                               cond, conv, ast.Constant(value=inner)])
        return expr

    def visit_ListComp(self, node):
        self.generic_visit(node)
        r = self._comp(node, node.elt)
        if r is None:
            return node
        return ast.copy_location(r, node)

    visit_GeneratorExp = visit_ListComp

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'zip' and \
                len(node.args) == 1 and not node.keywords and \
                isinstance(node.args[0], ast.Starred):
            return ast.copy_location(call('unzip', [
                node.func, node.args[0].value]), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(call('mklist', [node]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(call('mkdict', [node]), node)

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        if not node.bases or (len(node.bases) == 1 and
                              isinstance(node.bases[0], ast.Name) and
                              node.bases[0].id == 'object'):
            node.bases = [attr(ast.Name(id='__vc__', ctx=ast.Load()), 'Obj')]
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(call('set', [node]), node)

    visit_SetComp = visit_Set

    def visit_Compare(self, node):
        self.generic_visit(node)
        # `x in seq` on symbolic sequences
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In,
                                                           ast.NotIn)):
            r = call('contains', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is,
                                                           ast.IsNot)):
            r = call('is_', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.IsNot):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node


def unbind(x):
    """if x is UNBOUND: del x"""
    return ast.If(
        test=ast.Compare(
            left=ast.Name(id=x, ctx=ast.Load()), ops=[ast.Is()],
            comparators=[attr(ast.Name(id='__vc__', ctx=ast.Load()),
                              'UNBOUND')]),
        body=[ast.Delete(targets=[ast.Name(id=x, ctx=ast.Del())])],
        orelse=[])


def no_args():
    return ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                         kw_defaults=[], kwarg=None, defaults=[])


def arg_list(names):
    return ast.arguments(posonlyargs=[],
                         args=[ast.arg(arg=n, annotation=None)
                               for n in names],
                         vararg=None, kwonlyargs=[], kw_defaults=[],
                         kwarg=None, defaults=[])


def attr(v, n):
    return ast.Attribute(value=v, attr=n, ctx=ast.Load())


def call(fn, args):
    return ast.Call(func=attr(ast.Name(id='__vc__', ctx=ast.Load()), fn),
                    args=args, keywords=[])


class RT(object):
    """The object the instrumented code calls."""
    Obj = Obj
    UNBOUND = UNBOUND

    def __init__(self, eng):
        self.eng = eng

    def fn(self, q, outer=False):
        self.eng.functions.add(q)
        if outer and self.eng.frames:
            raise Unsupported('nonlocal variables in a symbolic loop')

    set = VSet

    def is_(self, a, b):
        if a is UNBOUND or b is UNBOUND:
            raise Unsupported(
                'use of a value that a loop does not determine')
        return a is b

    def loop(self, it, brk):
        segs = sym_segments(it)
        if segs is None:
            return NativeLoop(it)
        return Loop(self.eng, it, segs, brk)

    def while_loop(self, cond, brk, sides):
        return WhileLoop(self.eng, cond, brk, sides)

    def body(self, L, *getters):
        if not L.sym:
            return NULLCTX
        return SwallowSym(L, getters)

    def mklist(self, l):
        r = VList(l)
        return r

    def mkdict(self, d):
        return VDict(d)

    def contains(self, x, seq):
        if isinstance(seq, SArr):
            raise Unsupported('membership in an array')
        return x in seq

    def unzip(self, zip_, x):
        """zip(*x)"""
        if isinstance(x, VList) and not x.concrete():
            it = S.first_item(x.segs)
            if not isinstance(it, tuple):
                raise Unsupported('zip of a symbolic list')
            return VList([self.lc((lambda i: lambda t: t[i])(i), x, None, 0,
                                  False) for i in range(len(it))])
        return zip_(*x)

    def lc(self, fn, it, cond, conv, inner):
        if conv:
            f0 = fn
            fn = lambda t: f0(*unpack(t, conv))
            if cond is not None:
                c0 = cond
                cond = lambda t: c0(*unpack(t, conv))
        if isinstance(it, S.ObjArr):
            it = it.vl
        if isinstance(it, VList) and any(map(ragged, it.segs)):
            return VList(self.lc_segs(fn, it.segs, cond, inner))
        segs = sym_segments(it)
        out = VList([])
        if segs is None:
            for x in it:
                if cond is None or cond(x):
                    v = fn(x)
                    if inner:
                        out.segs.extend(v.segs)
                    else:
                        out.segs.append(v)
            return out
        for s in segs:
            if s[0] == 'one':
                if cond is None or cond(s[1]):
                    v = fn(s[1])
                    out.segs.extend(v.segs if inner else [v])
                continue
            out.segs.extend(self.sym_map(fn, s[1], s[2], inner, cond))
        return out

    def lc_segs(self, fn, segs, cond, inner):
        """a comprehension over nested blocks: block by block"""
        out = []
        for s in segs:
            if isinstance(s, S.When):
                if self.eng.decide(s.n):
                    out.extend(self.lc_segs(fn, s.segs, cond, inner))
            elif isinstance(s, For):
                ka = the_atom(s.k)

                def block(k, s=s, ka=ka):
                    return VList(self.lc_segs(fn, [
                        S.subst_seg(x, {ka: to_poly(k)}) for x in s.segs],
                        cond, inner))
                out.extend(self.sym_map(block, s.n, wrap_int, True))
            elif cond is None or cond(s):
                v = fn(s)
                out.extend(v.segs if inner else [v])
        return out

    def sym_map(self, fn, n, item, inner, cond=None):
        eng = self.eng
        if CTX().int_decide('ge', n - ONE) is False:
            return []
        acc = VList([])

        class L(object):
            pass
        L = Loop(eng, None, [('sym', n, item)], False)
        for x in L:
            L.enter()
            with SwallowSym(L, ()):
                if cond is None or cond(x):
                    v = fn(x)
                    if inner:
                        acc.extend(v)
                    else:
                        acc.append(v)
        if L.out is not None:
            L.exit(0)
        return acc.segs


def ragged(s):
    """a block whose length depends on its index"""
    return isinstance(s, S.When) or isinstance(s, For) and (
        the_atom(s.k) in S.seg_len(s.segs).fv() or any(
            isinstance(x, For) for x in s.segs))


def unpack(t, n):
    t = tuple(t)
    if len(t) != n:
        raise ValueError('unpack')
    return t


class NullCtx(object):
    def __enter__(self):
        pass

    def __exit__(self, *a):
        return False


NULLCTX = NullCtx()


class World(object):
    """One fresh copy of the repository's modules."""
    code_cache = {}

    def __init__(self, eng):
        from . import nplib
        self.eng = eng
        self.rt = RT(eng)
        self.mods = {}
        self.stubs = nplib.make_stubs(eng)
        self.builtins = nplib.make_builtins(eng, self.importer)

    def source(self, short):
        return os.path.join(REPO, PKG, short + '.py')

    def load(self, short):
        if short in self.mods:
            return self.mods[short]
        path = self.source(short)
        code = World.code_cache.get(path)
        if code is None:
            import warnings
            warnings.simplefilter('ignore')
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Instrument(short).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, path, 'exec')
            World.code_cache[path] = code
        full = PKG if short == '__init__' else PKG + '.' + short
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = PKG
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__vc__'] = self.rt
        self.mods[short] = m
        if short != '__init__':
            pk = self.package()
        self.eng.loading = getattr(self.eng, 'loading', 0) + 1
        try:
            exec(code, m.__dict__)
        finally:
            self.eng.loading -= 1
        if short != '__init__':
            setattr(self.package(), short, m)
        return m

    def package(self):
        m = self.mods.get('__pkg')
        if m is None:
            m = types.ModuleType(PKG)
            m.__path__ = []
            self.mods['__pkg'] = m
            m.__dict__['__builtins__'] = self.builtins
            world = self

            def ga(name):
                if name.startswith('__'):
                    raise AttributeError(name)
                if os.path.exists(world.source(name)):
                    return world.load(name)
                src = world.exports().get(name)
                if src is not None:
                    return getattr(world.load(src[0]), src[1])
                raise AttributeError(name)
            m.__getattr__ = ga
        return m

    def exports(self):
        """names the package's __init__ re-exports (modules are loaded when
        a name is used)"""
        if getattr(self, '_exports', None) is None:
            self._exports = {}
            with open(self.source('__init__')) as f:
                tree = ast.parse(f.read())
            for n in tree.body:
                if isinstance(n, ast.ImportFrom) and n.module and (
                        n.module.startswith(PKG + '.') or n.level):
                    mod = n.module.split('.')[-1]
                    for a in n.names:
                        self._exports[a.asname or a.name] = (mod, a.name)
        return self._exports

    def importer(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            if name:
                name = PKG + '.' + name
            else:
                name = PKG
        if name == PKG or name.startswith(PKG + '.'):
            parts = name.split('.')
            pk = self.package()
            if len(parts) == 1:
                for f in fromlist or ():
                    if os.path.exists(self.source(f)):
                        self.load(f)
                return pk
            m = self.load(parts[1])
            return m if fromlist else pk
        if name in self.stubs:
            if fromlist:
                return self.stubs[name]
            return self.stubs[name.split('.')[0]]
        top = name.split('.')[0]
        if top in ('copy', 'numbers', 'warnings', 'time', 'functools',
                   'inspect', 'operator', 'abc', 'types', '__future__',
                   'typing', 'sys', 'os', 'string', 're'):
            return builtins.__import__(name, globs, locs, fromlist, 0)
        raise Unsupported('import of %s' % name)
