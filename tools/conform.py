"""Conformance of the stand-ins for numpy / scipy with the real ones.

Each expression is executed by the verifier on arrays of symbolic sizes and
entries; the resulting term is then evaluated at concrete sizes and entries
and compared with what numpy / scipy return for them.  (The contracts of
numpy and scipy are trusted by the proofs; this samples them.)

    python3-vt tools/conform.py [filter]
"""
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import scipy
import scipy.linalg
import scipy.sparse
import scipy.special

import ast
import inspect

from engine import core, harness, nplib, sym as S, terms as T, vcrt
from engine.sym import SArr, SV, to_poly
from engine.terms import CTX

RNG = np.random.RandomState(3)


class Ev(object):
    """values of terms at a concrete assignment"""
    def __init__(self, env, arrs):
        self.env, self.arrs = env, arrs

    def poly(self, p, b=()):
        tot = 0.0
        for m, c in p.d.items():
            v = float(c)
            zero = False
            # indicators first: the rest may be undefined where they vanish
            for a, e in sorted(m, key=lambda x: x[0].k != 'ind'):
                x = self.at(a, b)
                if a.k == 'ind' and x == 0:
                    zero = True
                    break
                if e.denominator == 1 and e > 0:
                    v *= x ** int(e)
                else:
                    v *= float(x) ** float(e) if x != 0 else (
                        0.0 if e > 0 else float('nan'))
            if not zero:
                tot += v
        return tot

    def at(self, a, b):
        b = dict(b) if b else {}
        k = a.k
        if k == 'v':
            return self.env[a.a[0]]
        if k == 'bv':
            return b[a.a[0]]
        if k == 'ind':
            x = self.poly(a.a[1], b)
            if abs(x) < 1e-9:
                x = 0.0
            return float(x >= 0 if a.a[0] == 'ge' else x > 0
                         if a.a[0] == 'gt' else x == 0)
        if k == 'exp':
            return math.exp(self.poly(T.Poly({a.a[0]: T.ONE_F}), b))
        if k == 'log':
            x = self.poly(a.a[0], b)
            return math.log(abs(x)) if x else float('-inf')
        if k == 'poly':
            return self.poly(a.a[0], b)
        if k == 'sum':
            bounds, body, d = a.a
            q = T.Poly({body: T.ONE_F})

            def go(i, b):
                if i == len(bounds):
                    return self.poly(q, b)
                n = self.poly(bounds[i], b)
                t = 0.0
                for x in range(int(round(n))):
                    c = dict(b)
                    c[d + i] = x
                    t += go(i + 1, c)
                return t
            return go(0, b)
        if k == 'f':
            h = a.a[0]
            if isinstance(h, str) and (h[:2] == 'M:' or h in (
                    'I:sel', 'maxof', 'minof')):
                return self.mat(h, a.a[1:], b)
            v = [self.poly(x, b) for x in a.a[1:]]
            if h in self.arrs:
                ix = tuple(int(round(x)) for x in v)
                A = self.arrs[h]
                if any(not 0 <= i < n for i, n in zip(ix, A.shape)):
                    return 0.0      # read under a vanishing indicator
                return A[ix]
            return getattr(self, 'h_' + h.replace(':', '_'))(*v)
        raise KeyError(k)

    def lam(self, l, b):
        dims = [int(round(self.poly(x, b))) for x in l.dims]
        r = np.zeros(dims)
        for ix in np.ndindex(*dims):
            c = dict(b)
            for i, x in enumerate(ix):
                c[l.d + i] = x
            r[ix] = self.poly(l.body, c)
        return r

    def mat(self, h, args, b):
        v = [self.lam(x, b) if isinstance(x, T.Lam) else
             int(round(self.poly(x, b))) for x in args]
        if h in ('M:inv', 'M:invS'):
            A = v[0]
            if not (0 <= v[1] < len(A) and 0 <= v[2] < len(A)):
                return 0.0
            return np.linalg.inv(A)[v[1], v[2]]
        if h == 'M:logdet':
            return np.linalg.slogdet(v[0])[1]
        if h == 'M:detsign':
            return np.linalg.slogdet(v[0])[0]
        if h == 'M:det':
            return np.linalg.det(v[0])
        if h == 'maxof':
            return v[0].max()
        if h == 'minof':
            return v[0].min()
        if h == 'I:sel':
            w = np.flatnonzero(v[0])
            return w[v[1]] if v[1] < len(w) else 0
        raise KeyError(h)

    def h_digamma(self, x):
        return scipy.special.digamma(x)

    def h_gammaln(self, x):
        return scipy.special.gammaln(x)

    def h_pi(self):
        return math.pi

    def h_abs(self, x):
        return abs(x)

    def h_idiv(self, x, y):
        return round(x) // round(y)

    def h_imod(self, x, y):
        return round(x) % round(y)

    def h_trow(self, t):
        t = round(t)
        i = 0
        while (i + 1) * (i + 2) // 2 <= t:
            i += 1
        return i

    def h_tcol(self, t):
        i = self.h_trow(t)
        return round(t) - i * (i + 1) // 2

    def forall(self, f):
        import itertools
        dims = [int(round(self.poly(d))) for d in f.dims]
        ok = all(abs(self.poly(f.fn([T.const(i) for i in ix])) - 1) < 1e-9
                 for ix in itertools.product(*map(range, dims)))
        return ok != bool(getattr(f, 'neg', False))

    def value(self, r):
        if isinstance(r, S.SForall):
            return float(self.forall(r))
        if isinstance(r, S.MaskSel):
            r = r.to_array()
        if isinstance(r, SArr):
            dims = [int(round(self.poly(x))) for x in r.shp]
            out = np.zeros(dims)
            for ix in np.ndindex(*dims):
                out[ix] = self.poly(r.at([T.const(i) for i in ix]))
            return out
        if isinstance(r, nplib.SpMat):
            return self.value(r.toarray())
        if isinstance(r, S.VList):
            if not r.concrete():
                raise NotImplementedError('symbolic list')
            return [self.value(x) for x in r]
        if isinstance(r, (list, tuple)):
            return [self.value(x) for x in r]
        if r is None or isinstance(r, (str, bool)):
            return r
        if isinstance(r, S.SBool):
            return self.poly(S.bool_poly(r))
        return self.poly(to_poly(r))


def real(r):
    if scipy.sparse.issparse(r):
        return real(r.toarray())
    if isinstance(r, (list, tuple)):
        return [real(x) for x in r]
    if r is None or isinstance(r, (str, bool)):
        return r
    return np.asarray(r, dtype=float)


def same(x, y):
    if isinstance(x, list) or isinstance(y, list):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.array(x), np.array(y)
        else:
            return len(x) == len(y) and all(map(same, x, y))
    if x is None or y is None or isinstance(x, str):
        return x is y or x == y
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and np.allclose(x, y, 1e-8, 1e-9)


# names: n, m, k symbolic sizes; u, w vectors (n); v (m); A, B (n, m);
# Q (n, n); P (n, n) positive definite; D (k, n, m); pos (n) positive;
# q (n) in (0, 1); s, t scalars
from conform_cases import CASES, PROGRAMS


def setup(vc):
    n, m, k = vc.dim('n'), vc.dim('m'), vc.dim('k')
    z = vc.positive('pos')
    z = vc.arr('pos', n)
    CTX().signs['A:pos'] = 1
    CTX().add_fact('gt', T.var('t', 'r'))
    return dict(
        n=n, m=m, k=k, u=vc.arr('u', n), w=vc.arr('w', n), v=vc.arr('v', m),
        A=vc.arr('A', n, m), B=vc.arr('B', n, m), Q=vc.arr('Q', n, n),
        P=vc.sym_matrix('P', n), D=vc.arr('D', k, n, m), pos=z,
        E=vc.arr('E', k, n, n), s=vc.real('s'), t=vc.real('t'))


def data(n, m, k):
    r = RNG.normal
    d = dict(n=n, m=m, k=k, u=r(size=n), w=r(size=n), v=r(size=m),
             A=r(size=(n, m)), B=r(size=(n, m)), Q=r(size=(n, n)),
             D=r(size=(k, n, m)), pos=np.exp(r(size=n)),
             E=r(size=(k, n, n)), s=0.7 * r(), t=math.exp(r()))
    g = r(size=(n, n))
    d['P'] = g @ g.T + np.eye(n)
    return d


def facts_hold(ev):
    c = CTX()

    def known(p):
        return all(a.k != 'v' or a.a[0] in ev.env for a in p.fv()
                   if not isinstance(a, str))
    for kind, p in c.facts:
        if not known(p):
            continue
        x = ev.poly(p)
        if abs(x) < 1e-9:
            x = 0
        if not (x >= 0 if kind == 'ge' else x > 0 if kind == 'gt'
                else x != 0 if kind == 'ne' else x == 0):
            return False
    from engine.vcrt import Eng
    for (_, dims, lam), v in Eng.cur.known_foralls.items():
        L = ev.lam(lam, ())
        if bool((abs(L - 1) < 1e-9).all()) != v:
            return False
    for p in c.bools:
        if known(p) and abs(ev.poly(p) - 1) > 1e-9:
            return False
    for a, l in c.lo.items():
        for p in l:
            if known(T.of_atom(a)) and known(p) and \
                    ev.at(a, ()) < ev.poly(p):
                return False
    for a, l in c.hi.items():
        for p in l:
            if known(T.of_atom(a)) and known(p) and \
                    ev.at(a, ()) > ev.poly(p):
                return False
    return True


def run(src, stats):
    pts = [data(3, 2, 2), data(2, 4, 3), data(1, 3, 1), data(4, 1, 2)]
    hits = [0] * len(pts)
    bad = []
    stmts, _, expr = src.rpartition(';')

    program = src.startswith('def ')

    def evaluate(ns):
        if program:
            if '__vc__' in ns:
                tree = vcrt.Instrument('prog').visit(ast.parse(src))
                ast.fix_missing_locations(tree)
                exec(compile(tree, 'prog', 'exec'), ns)
            else:
                exec(src, ns)
            f = ns['f']
            return f(*[ns[x] for x in inspect.signature(f).parameters])
        if stmts:
            exec(stmts.strip(), ns)
        return eval(expr.strip(), ns)

    def sc(vc):
        ns = dict(setup(vc))
        st = vc.eng.world.stubs
        if program:
            ns.update(__builtins__=vc.eng.world.builtins,
                      __vc__=vc.eng.world.rt)
        ns.update(np=st['numpy'], sp=st['scipy'], range=nplib.v_range,
                  len=nplib.v_len, deepcopy=lambda x: x.copy())
        try:
            r = evaluate(ns)
        except (ValueError, IndexError, AssertionError) as e:
            r = type(e).__name__
        for i, d in enumerate(pts):
            env = {x: d[x] for x in ('n', 'm', 'k', 's', 't')}
            ev = Ev(env, {'A:' + x: d[x] for x in d
                          if isinstance(d[x], np.ndarray)})
            if not facts_hold(ev):
                continue
            hits[i] += 1
            nr = dict((x, (y.copy() if isinstance(y, np.ndarray) else y))
                      for x, y in d.items())
            nr.update(np=np, sp=scipy, deepcopy=lambda x: x.copy())
            try:
                want = real(evaluate(nr))
            except (ValueError, IndexError, AssertionError) as e:
                want = type(e).__name__
            got = ev.value(r)
            if not same(got, want):
                bad.append('at %d: got %s want %s' % (
                    i, str(got).replace('\n', ' '),
                    str(want).replace('\n', ' ')))
        vc.rec('done', True)
    res = harness.run_scenario(src, sc, None)
    if res.unsupported:
        return 'UNSUPPORTED ' + res.unsupported[:300]
    fails = [o for o in res.obl if o[1] != 'proved']
    if bad:
        return 'WRONG ' + bad[0][:400]
    if fails:
        return 'OBLIGATION %s %s' % (fails[0][0], (fails[0][2] or '')[:200])
    if min(hits) < 1:
        return 'NOT REACHED %s' % hits
    return 'ok'


# differences that are understood
EXPECTED = {
    'u / w': 'a division needs a non-zero divisor',
    'x = A.copy(); y = x.T.ravel(); x[0, 0] = 5.; y':
        'a transposed array is taken as not contiguous (sizes of one are)',
    'x = D.copy(); y = x[:, 0].reshape(-1); y[-1] = s; x':
        'a slice of a later axis is taken as not contiguous (sizes of one '
        'are)',
}


if __name__ == '__main__':
    filt = sys.argv[1] if len(sys.argv) > 1 else ''
    from multiprocessing import Pool
    todo = [c for c in CASES + PROGRAMS if filt in c]
    with Pool(6, maxtasksperchild=1) as p:
        out = p.starmap(run, [(c, None) for c in todo], 1)
    cnt = {}
    for c, o in zip(todo, out):
        if c in EXPECTED:
            o = 'expected'
        cnt[o.split()[0]] = cnt.get(o.split()[0], 0) + 1
        if o not in ("ok", "expected") or filt:
            print('%-60s %s' % (c if o != 'ok' else c.split('\n')[0], o))
    print(cnt)
    sys.exit(any(k not in ('ok', 'expected', 'UNSUPPORTED') for k in cnt))
