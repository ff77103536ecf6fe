"""What contract files use: symbolic inputs, obligations, frame conditions."""
import itertools
import os
import traceback

import z3

from . import terms as T
from . import core
from . import sym as S
from . import nplib as N
from . import prove as P
from .sym import SV, SBool, SForall, SArr, VList, to_poly
from .terms import (ZERO, ONE, const, Unsupported, CTX, the_atom, app,
                    of_atom)
from .vcrt import Engine, Timeout, PathEnd

FAIL_EXC = (ValueError, AssertionError, IndexError, ZeroDivisionError,
            KeyError, ArithmeticError)


class VC(object):
    def __init__(self, eng, dims=None):
        self.eng = eng
        self.dims = dims          # None: symbolic sizes; dict: bounded mode
        self.seen_dims = {}

    # ---- modules
    def mod(self, name):
        return self.eng.world.load(name)

    @property
    def np(self):
        return self.eng.world.stubs['numpy']

    def contract(self, module, name, stub, what):
        """callers in `module` see the contract of a function instead of its
        body (no effect if the module has no such function)"""
        m = self.mod(module)
        if name in m.__dict__:
            m.__dict__[name] = stub
            N.used('contract of %s.%s (%s)' % (module, name, what))
            return True
        return False

    # ---- inputs
    def dim(self, name, lo=1):
        """an arbitrary integer >= lo (a python int in bounded mode)"""
        self.seen_dims[name] = lo
        if self.dims is not None:
            return self.dims.get(name, lo)
        v = T.var(name, 'i')
        CTX().add_lo(the_atom(v), T.to_p(lo) if not isinstance(lo, int)
                     else const(lo))
        return SV(v)

    def index(self, name, n):
        """an arbitrary integer k, 0 <= k < n"""
        n = S.dim_poly(n)
        v = T.var(name, 'i')
        CTX().add_range(v, n)
        return SV(v)

    def rank_lemma(self, mask, i):
        """definition of the number of true positions before position i:
        0 <= rank(i) and rank(i) + mask(i) <= number of true positions.
        Enumerations of true positions are read through it from here on."""
        c = CTX()
        c.rank_mode = True
        c.bump()
        if not S.asarr(mask).shp[0].is_const():
            cnt, sel = S.select_symbol(S.asarr(mask))
            for lam, (m, n, k) in list(c.masks.items()):
                i = S.to_poly(i)
                c.add_fact('ge', k - T.app('I:rank', lam, i) - m([i]))
                c.add_fact('ge', T.app('I:rank', lam, i))

    def real(self, name):
        return SV(T.var(name, 'r'))

    def arr(self, name, *shape):
        """an arbitrary real array"""
        shape = tuple(S.dim_poly(d) for d in flat(shape))
        if not shape:
            return SArr((), lambda: T.var('A0:' + name, 'r'))
        h = 'A:' + name
        return SArr(shape, lambda *i: app(h, *i))

    def from_fn(self, shape, fn):
        """array given by a function of the index polynomials"""
        shape = tuple(S.dim_poly(d) for d in flat(shape))
        return SArr(shape, fn)

    def sym_matrix(self, name, n):
        """an arbitrary symmetric matrix"""
        h = 'A:' + name
        T.SYMM_HEADS.add(h)
        n = S.dim_poly(n)
        return SArr((n, n), lambda i, j: app(h, i, j))

    def assume(self, cond):
        if isinstance(cond, SForall):
            self.eng.assume_forall(cond)
            return
        p = S.bool_poly(cond)
        if CTX().assume_bool(p) is False:
            raise PathEnd()

    def hypothesis(self, name, dims, fn, pvars=(), rhs=ZERO):
        """assume  sum over the indices of prod(fn(indices)) == rhs  for
        every value of the pattern variables (a list of pv())"""
        from . import rewrite
        c = CTX()
        ivs = []
        for d, b in dims:
            ivs.append((T.fresh(b), S.dim_poly(d)))
        fs = []
        for q in fn(*[v for v, _ in ivs]):
            if q.is_const() and q == T.ONE:
                continue
            (m, co), = q.d.items()
            if co != 1:
                raise Unsupported('hypothesis with a coefficient')
            fs += list(m)
        c.sum_rules.append(rewrite.SumRule(
            [(the_atom(v), n) for v, n in ivs], fs,
            [the_atom(a) for a in pvars], rhs, name))
        c.bump()

    def sum(self, dims, fn):
        """sum over index ranges of a polynomial in the indices"""
        c = CTX()
        ivs = []
        c.push()
        try:
            for d in dims:
                v = T.fresh('s')
                c.add_range(v, S.dim_poly(d))
                ivs.append((the_atom(v), S.dim_poly(d)))
            return T.sum_poly(ivs, fn(*[of_atom(v) for v, _ in ivs]))
        finally:
            c.pop()

    def positive(self, name):
        """declare all entries of the array positive"""
        CTX().signs['A:' + name] = 1

    # ---- obligations
    def rec(self, name, ok, detail=None, backend=None):
        if not ok and detail and 'W#' in str(detail):
            # the contents of an array while a symbolic loop writes it
            raise Unsupported('loop-carried array dependence')
        self.eng.record(name, ok, detail, backend)

    def zero(self, name, p, depth=5):
        if p.is_zero():
            return self.rec(name, True, None, 'normal-form')
        ok, be, det = P.zero(p, depth)
        self.rec(name, ok, det, be)
        return ok

    def eq(self, name, a, b):
        """a and b have the same shape and the same entries"""
        ok, det, be = self._eq(a, b)
        self.rec(name, ok, det, be)
        return ok

    def _eq(self, a, b):
        if a is None or b is None:
            return a is b, '%r != %r' % (a, b), 'execution'
        if isinstance(a, N.SpMat):
            a = a.toarray()
        if isinstance(b, N.SpMat):
            b = b.toarray()
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) \
                and not isinstance(a, VList):
            if len(a) != len(b):
                return False, 'length %d != %d' % (len(a), len(b)), None
            for x, y in zip(a, b):
                r = self._eq(x, y)
                if not r[0]:
                    return r
            return r if a else (True, None, 'normal-form')
        a = self._num(a)
        b = self._num(b)
        if len(a.shp) != len(b.shp):
            return False, 'rank %d != %d' % (len(a.shp), len(b.shp)), None
        for x, y in zip(a.shp, b.shp):
            ok, be, det = P.zero(x - y, 3)
            if not ok:
                return False, 'shape (%s) != (%s)' % (
                    ', '.join(map(T.show, a.shp)),
                    ', '.join(map(T.show, b.shp))), None
        c = CTX()
        c.push()
        try:
            ivs = []
            for d in a.shp:
                iv = T.fresh('q')
                if d.is_const():
                    pass
                c.add_range(iv, d)
                ivs.append(iv)
            # concrete small dimensions: enumerate
            conc = [d.is_const() and d.const() <= 6 for d in a.shp]
            rngs = [range(int(d.const())) if k else [None]
                    for d, k in zip(a.shp, conc)]
            be = 'normal-form'
            for combo in itertools.product(*rngs):
                idx = [iv if v is None else const(v)
                       for iv, v in zip(ivs, combo)]
                p = a.at(idx) - b.at(idx)
                ok, be, det = P.zero(p, 5)
                if not ok:
                    return False, 'entry (%s): %s' % (
                        ', '.join(map(T.show, idx)), det), None
            return True, None, be
        finally:
            c.pop()

    def _num(self, a):
        if isinstance(a, S.SArr):
            return a
        if isinstance(a, (SV, int, float, SBool)) or S.is_num(a):
            if isinstance(a, SBool):
                p = S.bool_poly(a)
            else:
                p = to_poly(a)
            return SArr((), lambda: p)
        return S.asarr(a)

    def true(self, name, cond):
        if isinstance(cond, SForall):
            c = CTX()
            c.push()
            try:
                ivs = []
                for d in cond.dims:
                    iv = T.fresh('q')
                    c.add_range(iv, d)
                    ivs.append(iv)
                ok, be, det = P.holds(cond.fn(ivs))
            finally:
                c.pop()
            if cond.neg:
                raise Unsupported('negated forall obligation')
        elif isinstance(cond, bool):
            ok, be, det = cond, 'execution', 'False'
        else:
            ok, be, det = P.holds(S.bool_poly(cond))
        self.rec(name, ok, det, be)
        return ok

    def rel(self, name, kind, a):
        """every entry of a is > 0 / >= 0 / != 0"""
        a = self._num(a)
        c = CTX()
        c.push()
        try:
            ivs = []
            for d in a.shp:
                iv = T.fresh('q')
                c.add_range(iv, d)
                ivs.append(iv)
            p = a.at(ivs)
            ok = self.eng.prove_rel(kind, p)
            self.rec(name, ok, None if ok else 'not shown: %s %s 0' % (
                T.show(p)[:400], kind), 'signs/z3')
        finally:
            c.pop()
        return ok

    def raises(self, name, exc, f):
        try:
            r = f()
        except exc:
            self.rec(name, True, None, 'execution')
            return True
        except FAIL_EXC as e:
            self.rec(name, False, 'raised %s instead of %s' % (
                type(e).__name__, exc))
            return False
        self.rec(name, False, 'no exception raised')
        return False

    def len(self, x):
        n = x.vlen() if isinstance(x, S.VList) else len(x)
        return n

    def snap(self, a):
        """a frozen copy for frame conditions"""
        if isinstance(a, SArr):
            g = a.snap()
            return SArr(a.shp, lambda *i: g(list(i)), a.dt)
        if isinstance(a, N.SpMat):
            return self.snap(a.toarray())
        return a

    def clean(self, name, *vals):
        """no differentiation variable is left in the values"""
        for v in vals:
            if isinstance(v, N.SpMat):
                v = v.toarray()
            v = self._num(v)
            ivs = [T.fresh('q') for _ in v.shp]
            c = CTX()
            c.push()
            for iv, d in zip(ivs, v.shp):
                c.add_range(iv, d)
            p = v.at(ivs)
            c.pop()
            bad = [h for h, x, s in self.eng.boxes if h in p.fv()]
            self.rec(name, not bad, 'differentiation variable left behind')


def flat(shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        return tuple(shape[0])
    return shape


class Result(object):
    def __init__(self, label):
        self.label = label
        self.mode = 'proved'
        self.obl = []
        self.functions = []
        self.assumptions = []
        self.paths = 0
        self.infeasible = 0
        self.unsupported = None
        self.reach = None
        self.wall = 0.0
        self.z3_calls = 0
        self.z3_time = 0.0


def short_tb(tb, n=6):
    return ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno)
                       for f in reversed(tb[-n:]))


ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))


def deliberate(fr):
    """was the exception raised by the code under test, or by a stub on its
    behalf (a 'raise' statement)?  Anything else is a slip of the engine."""
    f = os.path.abspath(fr.filename)
    if f.startswith(ENGINE_DIR):
        return (fr.line or '').strip().startswith('raise') and \
            os.path.basename(f) in ('nplib.py', 'sym.py', 'vcrt.py')
    return 'fractions.py' not in f and 'site-packages' not in f and \
        not f.startswith(os.path.dirname(os.__file__))


def wrap_scenario(fn, reach, dims=None, seen=None):
    def sc(eng):
        vc = VC(eng, dims)
        try:
            fn(vc)
        except FAIL_EXC as e:
            if CTX().z3_feasible() == z3.unsat:
                raise PathEnd()
            tb = traceback.extract_tb(e.__traceback__)
            if not deliberate(tb[-1]):
                raise Unsupported('engine: %s: %s [%s]' % (
                    type(e).__name__, e, short_tb(tb)))
            where = next((f for f in reversed(tb)
                          if os.sep + 'engine' + os.sep not in f.filename),
                         tb[-1])
            eng.record('no-exception', False, '%s: %s at %s:%d' % (
                type(e).__name__, e, where.filename, where.lineno))
        except (AttributeError, TypeError, NameError, RecursionError,
                NotImplementedError, OverflowError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            raise Unsupported('%s: %s [%s]' % (
                type(e).__name__, e, short_tb(tb)))
        else:
            eng.record('no-exception', True, None, 'execution')
        if seen is not None:
            seen.update(vc.seen_dims)
        f = CTX().z3_feasible()
        if f == z3.sat:
            reach['sat'] = reach.get('sat', 0) + 1
        elif f == z3.unknown:
            reach['unknown'] = reach.get('unknown', 0) + 1
        else:
            reach['unsat'] = reach.get('unsat', 0) + 1
    return sc


def run_scenario(label, fn, deadline=None, dims=None, max_paths=400):
    """Explore one scenario; Unsupported is reported in the result."""
    import time
    t0 = time.time()
    res = Result(label)
    eng = Engine(deadline)
    eng.max_paths = max_paths
    reach = {}
    seen = {}
    z0, zt0 = core.STATS.z3_calls, core.STATS.z3_time
    try:
        eng.explore(wrap_scenario(fn, reach, dims, seen), label)
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        res.unsupported = '%s [%s]' % (e, ' <- '.join(
            '%s:%d' % (f.filename.split('/')[-1], f.lineno)
            for f in reversed(tb[-5:])))
        res.tb = traceback.format_exc()[-1800:]
    except Timeout:
        res.unsupported = 'time limit'
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:      # a defect of the engine: never a verdict
        res.unsupported = 'engine: %s: %s' % (type(e).__name__, e)
        res.tb = traceback.format_exc()[-1800:]
    res.obl = [(o.name, o.status, o.detail, o.count, dict(o.backends))
               for o in eng.obl.values()]
    res.functions = sorted(eng.functions)
    res.assumptions = sorted(eng.assumptions)
    res.paths = eng.paths
    res.infeasible = eng.infeasible
    res.reach = reach
    res.dims = seen
    res.wall = time.time() - t0
    res.z3_calls = core.STATS.z3_calls - z0
    res.z3_time = core.STATS.z3_time - zt0
    return res


if __name__ == '__main__':
    # debugging: python3-vt -m engine.harness C01 [filter]
    import importlib
    import os
    import sys
    import time
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    m = importlib.import_module('contracts.' + sys.argv[1])
    filt = sys.argv[2] if len(sys.argv) > 2 else ''
    for label, fn in m.SCENARIOS:
        if filt not in label:
            continue
        if os.fork():       # every scenario starts from the same state
            os.wait()
            continue
        r = run_scenario(label, fn, time.time() + 300)
        bad = [o for o in r.obl if o[1] != 'proved']
        print('%-50s %s obl=%d bad=%d paths=%d reach=%s %.1fs' % (
            label, 'UNSUPPORTED ' + r.unsupported if r.unsupported else 'ok',
            len(r.obl), len(bad), r.paths, r.reach, r.wall), flush=True)
        for o in bad:
            print('   FAILED', o[0], '\n      ', (o[2] or '')[:1500])
        if r.unsupported and '-v' in sys.argv:
            print(r.tb)
        sys.stdout.flush()
        os._exit(0)
