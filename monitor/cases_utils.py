from lib import *
import json
import scipy as sp
import scipy.sparse as ss
import scipy.sparse.linalg
import scipy.optimize
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj
import LinearResponseVariationalBayes.OptimizationUtils as ou
import LinearResponseVariationalBayes.ConjugateGradient as cg


@case('C20', 2)
def sub_matrix(rng):
    r, c = rng.int(1, 4), rng.int(1, 4)
    R, C = r + rng.int(0, 4), c + rng.int(0, 4)
    m = rng.normal(r, c)
    if rng.flag():
        m[rng.unif(0, 1, r, c) < 0.3] = 0.0
    if rng.flag(0.3):
        m[rng.unif(0, 1, r, c) < 0.5] *= rng.choice([1e-12, 1e-20, 1e12])
    ri = rng.r.permutation(R)[:r]; ci = rng.r.permutation(C)[:c]
    if rng.flag(0.3):
        ri, ci = list(ri), ci.astype(float)
    want = np.zeros((R, C))
    for i in range(r):
        for j in range(c):
            want[int(ri[i]), int(ci[j])] = m[i, j]
    mc = m.copy()
    got = obj.get_sparse_sub_matrix(m, ri, ci, R, C)
    req(ss.issparse(got), 'not sparse')
    exact(dense(got), want, 'get_sparse_sub_matrix', ri=ri, ci=ci)
    exact(m, mc, 'argument modified')
    n = rng.int(1, 4); N = n + rng.int(0, 4)
    h = rng.normal(n, n); ix = rng.r.permutation(N)[:n]
    want = np.zeros((N, N)); want[np.ix_(ix, ix)] = h
    same(dense(obj.get_sparse_sub_hessian(h, ix, N)), want, 'get_sparse_sub_hessian', tol=1e-15, ix=ix)


def odd_csr(rng, m):
    """m as a csr matrix with unsorted indices and stored zeros"""
    data, ind, ptr = [], [], [0]
    for row in m:
        cols = [j for j in rng.r.permutation(m.shape[1]) if row[j] != 0 or rng.flag(0.3)]
        ind += cols; data += [row[j] for j in cols]; ptr.append(len(ind))
    return ss.csr_matrix((np.array(data, dtype=float), np.array(ind, dtype=int), np.array(ptr)), shape=m.shape)


@case('C20')
def packing(rng):
    r, c = rng.int(1, 6), rng.int(1, 6)
    m = rng.normal(r, c) * (rng.unif(0, 1, r, c) < rng.choice([0.0, 0.3, 0.9]))
    scale = 1.0
    if rng.flag(0.3):
        m[rng.unif(0, 1, r, c) < 0.5] *= rng.choice([1e-12, 1e-20, 1e-100, 1e12])
    form = rng.choice(['csr', 'coo', 'csc', 'odd'])
    if form == 'odd':
        s = odd_csr(rng, m)
    else:
        s = getattr(ss, form + '_matrix')(m)
    got = obj.unpack_csr_matrix(obj.pack_csr_matrix(s))
    exact(dense(got), m, 'pack/unpack', form=form)
    exact(dense(s), m, 'packing modified the matrix')
    s = odd_csr(rng, m) if rng.flag(0.3) else ss.csr_matrix(m)
    if rng.flag():
        s = s.astype(int)
        m = dense(s)
    d = obj.json_pack_csr_matrix(s)
    same(dense(obj.json_unpack_csr_matrix(d)), m, 'JSON pack/unpack', tol=1e-15)
    d2 = json.loads(json.dumps(d))
    same(dense(obj.json_unpack_csr_matrix(d2)), m, 'JSON pack, serialize, unpack', tol=1e-15)
    raises(AssertionError, lambda: obj.json_pack_csr_matrix(ss.coo_matrix(m)), 'JSON packing of a non-csr matrix')


@case('C20')
def products(rng):
    a, b, c = rng.int(1, 4), rng.int(1, 4), rng.int(1, 4)
    x, y = rng.normal(a, b), rng.normal(b, c)
    if rng.flag():
        y = rng.normal(b)
    fx = rng.choice(['d', 's']); fy = rng.choice(['d', 's'])
    xs = x if fx == 'd' else ss.csr_matrix(x)
    ys = y if fy == 'd' or y.ndim == 1 else ss.csc_matrix(y)
    got = obj.safe_matmul(xs, ys)
    same(dense(got), x.dot(y), 'safe_matmul', tol=1e-12)
    z = rng.normal(*[rng.choice([1, 3]) for _ in range(2)])
    zs = z if rng.flag() else ss.csr_matrix(z)
    same(obj.compress(zs), np.squeeze(z), 'compress', tol=1e-15)


@case('C20', 2)
def index_param(rng):
    s = SDict(rng, vb) if rng.flag() else rng.choice(ELEM)(rng, vb)
    s.par.set_free(s.rand_free())
    before = snapshot_vec(s.par)
    ip = obj.make_index_param(s.par)
    req(ip is not s.par, 'index parameter is the original')
    same(ip.get_vector(), np.arange(s.vec_size), 'index parameter', tol=1e-12, param=s.desc)
    exact(snapshot_vec(s.par), before, 'original changed')

    def walk(sp_, p, o):
        if sp_.kind == 'dict':
            for n, m in zip(sp_.names, sp_.mem):
                o = walk(m, p[n], o)
            return o
        if sp_.kind in ('scalar', 'subspace', 'vector', 'array', 'simplex', 'posdef', 'posdefvector', 'posdefarray'):
            v = sp_.from_vector(np.arange(o, o + sp_.vec_size))
            same(np.asarray(p.get(), dtype=float).reshape(np.shape(v)) if np.size(p.get()) == np.size(v) else p.get(), v, 'index at its location', tol=1e-12, param=sp_.desc)
        return o + sp_.vec_size
    walk(s, ip, 0)


# --- C21 -------------------------------------------------------------------

@case('C21')
def masks(rng):
    n = rng.int(2, 40) if rng.flag(0.9) else rng.int(100, 400)
    k = rng.int(1, n - 1)
    ms = cg.get_masks(n, k)
    tot = np.zeros(n)
    for m in ms:
        req(len(m) == n and np.asarray(m).dtype == bool, 'mask type', n=n, k=k)
        req(1 <= np.sum(m) <= k, 'mask size', n=n, k=k, got=np.sum(m))
        tot += m
    req(np.all(tot == 1), 'masks do not partition', n=n, k=k)
    raises(AssertionError, lambda: cg.get_masks(n, 0), 'zero block length accepted')


@case('C21')
def splitting(rng):
    n = rng.int(1, 40) if rng.flag(0.9) else rng.int(200, 400)
    v = rng.unif(0, 1, n) < rng.choice([0.0, 0.2, 0.5, 1.0]); vc = v.copy()
    a, b = cg.split_vector(v)
    exact(v, vc, 'argument modified')
    req(not np.any(a & b) and np.all((a | b) == v), 'split is not a partition', v=v, a=a, b=b)
    req(abs(int(a.sum()) - int(b.sum())) <= 1, 'unbalanced split', v=v)
    t = rng.int(1, 12)
    pre = [np.array([True])] if rng.flag() else []
    res = list(pre)
    cg.recursive_split(v, results=res, terminate_len=t)
    req(len(res) > len(pre) and all(x is y for x, y in zip(res, pre)), 'results not appended')
    tot = np.zeros(n)
    for m in res[len(pre):]:
        req(np.sum(m) <= t, 'piece too large', t=t, got=np.sum(m)); tot += m
    req(np.all(tot == v), 'pieces do not partition', v=v, t=t)
    exact(v, vc, 'argument modified')


@case('C21', 2)
def solver(rng):
    n = rng.int(2, 8) if rng.flag(0.9) else rng.choice([130, 260, 300])
    H = rng.posdef(n) + np.eye(n) if n < 100 else np.diag(rng.unif(1.0, 3.0, n))
    x0 = rng.normal(n)
    calls = []

    def hvp(x, v):
        exact(x, x0, 'Hessian-vector product evaluated at another point')
        return H.dot(v)
    s = cg.ConjugateGradientSolver(hvp, x0)
    if rng.flag():
        s.tol = 1e-12
    if rng.flag():
        s.preconditioner = np.diag(1 / np.diag(H))
    vec = rng.normal(n); vc = vec.copy()
    h, info = s.get_hinv_vec(vec)
    same(h, np.linalg.solve(H, vec), 'solution', tol=1e-5); req(info == 0, 'status')
    h, info = s.get_hinv_vec(vec, x0=rng.normal(n))
    same(h, np.linalg.solve(H, vec), 'solution from a start', tol=1e-5)
    ms = [rng.unif(0, 1, n) < 0.6 for _ in range(rng.int(1, 4) if rng.flag(0.8) else rng.int(5, 25))]
    vec = rng.choice([vec, rng.pt(n)]); vc = vec.copy()
    vb_ = rng.flag()
    pe = rng.int(1, 12)
    cnt = 0
    for rep in range(rng.int(1, 2)):
        s.get_hinv_vec_subsets(vec, ms, verbose=vb_, print_every=pe)
        cnt += len(ms)
    for L in (s.vecs, s.masks, s.hinv_vecs, s.cg_infos, s.times):
        req(len(L) == cnt, 'number of records', got=len(L), want=cnt)
    for q in range(cnt):
        m = ms[q % len(ms)]
        exact(s.vecs[q], np.where(m, vc, 0.0), 'recorded masked vector'); exact(s.masks[q], m, 'recorded mask')
        same(s.hinv_vecs[q], np.linalg.solve(H, np.where(m, vc, 0.0)), 'recorded solution', tol=1e-5)
        req(s.cg_infos[q] == 0, 'recorded status')
    exact(vec, vc, 'argument modified')
    s.initialize()
    req(not s.vecs and not s.masks and not s.hinv_vecs and not s.cg_infos and not s.times, 'initialize')


@case('C21')
def solver_passes_settings(rng):
    """The tolerance, preconditioner and start reach scipy's cg; the status is the one it returned."""
    n = rng.int(2, 5)
    x0 = rng.normal(n); H = rng.posdef(n)
    real = scipy.sparse.linalg.cg
    seen = []

    def fake(A, b, x0=None, tol=1e-5, M=None, **kw):
        seen.append((A.matvec(np.ones(n)), np.array(b), x0, tol, M))
        return np.arange(n) + len(seen), 7 + len(seen)
    s = cg.ConjugateGradientSolver(lambda x, v: H.dot(v), x0)
    s.tol = rng.choice([1e-3, 1e-10]); s.preconditioner = rng.posdef(n)
    ms = [rng.unif(0, 1, n) < 0.5 for _ in range(3)]
    v = rng.normal(n); st = rng.normal(n)
    scipy.sparse.linalg.cg = fake
    try:
        h, i = s.get_hinv_vec(v, x0=st)
        s.get_hinv_vec_subsets(v, ms)
    finally:
        scipy.sparse.linalg.cg = real
    req(len(seen) == 4 and i == 8, 'cg calls and status')
    exact(h, np.arange(n) + 1, 'solution returned')
    for k, (a, b, xx, tol, M) in enumerate(seen):
        same(a, H.dot(np.ones(n)), 'operator'); req(tol == s.tol and M is s.preconditioner, 'tolerance or preconditioner not passed')
        exact(b, v if k == 0 else np.where(ms[k - 1], v, 0.0), 'right-hand side')
    req(seen[0][2] is st, 'start not passed')
    for k in range(3):
        req(s.cg_infos[k] == 9 + k, 'recorded status'); exact(s.hinv_vecs[k], np.arange(n) + k + 2, 'recorded solution')


# --- C22 -------------------------------------------------------------------

def spectral(H, lo, hi):
    w, U = np.linalg.eigh(0.5 * (H + H.T))
    w = w.copy()
    if lo is not None:
        w = np.maximum(w, lo)
    if hi is not None:
        w = np.minimum(w, hi)
    return U.dot(np.diag(1 / np.sqrt(w))).dot(U.T), U.dot(np.diag(w)).dot(U.T), w


def rand_sym(rng):
    n = rng.int(1, 5)
    H = rng.normal(n, n) * 1.5
    lo = hi = None
    if rng.flag(0.6):
        lo = rng.unif(0.1, 1.5)
    else:
        H = rng.posdef(n) + rng.flag() * (lambda k: k - k.T)(rng.normal(n, n))
    if rng.flag():
        hi = (lo or 0.1) + rng.unif(0.2, 3)
    return H, lo, hi


@case('C22', 2)
def inv_sqrt(rng):
    H, lo, hi = rand_sym(rng)
    Hc = H.copy()
    S, C = ou.get_sym_matrix_inv_sqrt(H, ev_min=lo, ev_max=hi)
    exact(H, Hc, 'argument modified')
    wS, wC, w = spectral(Hc, lo, hi)
    same(C, wC, 'corrected matrix', tol=1e-8, H=Hc, lo=lo, hi=hi); same(S, wS, 'inverse square root', tol=1e-7, H=Hc, lo=lo, hi=hi)
    same(S, S.T, 'not symmetric', tol=1e-9); same(S.dot(C).dot(S), np.eye(len(H)), 'S C S', tol=1e-6)


@case('C22')
def inv_sqrt_scaled(rng):
    """matrices far from unit scale, and with eigenvalues of very different sizes"""
    H, lo, hi = rand_sym(rng)
    t = rng.choice([1e-24, 1e-10, 1e-5, 1e5, 1e10, 1e26])
    Ht = H * t
    S, C = ou.get_sym_matrix_inv_sqrt(Ht, ev_min=None if lo is None else lo * t, ev_max=None if hi is None else hi * t)
    wS, wC, w = spectral(H, lo, hi)
    same(np.asarray(C) / t, wC, 'corrected matrix', tol=1e-8, H=Ht, lo=lo, hi=hi, scale=t)
    same(np.asarray(S) * math.sqrt(t), wS, 'inverse square root', tol=1e-7, H=Ht, lo=lo, hi=hi, scale=t)
    n = rng.int(1, 4)
    d = 10.0 ** rng.unif(-9, 9, n)
    S, C = ou.get_sym_matrix_inv_sqrt(np.diag(d))
    close(np.diag(S), 1 / np.sqrt(d), 'inverse square root of a diagonal matrix', rel=1e-6, tiny=0.0, d=d)
    close(np.diag(C), d, 'corrected diagonal matrix', rel=1e-6, tiny=0.0, d=d)


class FakeObjective(object):
    def __init__(self, H):
        self.H = H; self.at = []; self.preconditioner = 'unset'

    def fun_free_hessian(self, x):
        self.at.append(np.array(x)); return self.H


@case('C22')
def install(rng):
    H, lo, hi = rand_sym(rng)
    n = len(H); x = rng.normal(n); Hc = H.copy()
    o = FakeObjective(H if rng.flag() else None)
    given = o.H is None
    if given:
        out = ou.set_objective_preconditioner(o, free_par=(x if rng.flag() else None), hessian=H, ev_min=lo, ev_max=hi)
        req(not o.at, 'Hessian evaluated although supplied')
    else:
        out = ou.set_objective_preconditioner(o, x, ev_min=lo, ev_max=hi)
        req(len(o.at) == 1, 'Hessian evaluations'); exact(o.at[0], x, 'Hessian evaluated at another point')
    wS, wC, w = spectral(Hc, lo, hi)
    exact(H, Hc, 'Hessian modified'); exact(out[0], Hc, 'returned Hessian')
    same(out[1], wS, 'returned inverse square root', tol=1e-7); same(out[2], wC, 'returned corrected Hessian', tol=1e-7)
    same(o.preconditioner, wS, 'installed preconditioner', tol=1e-7)
    raises(ValueError, lambda: ou.set_objective_preconditioner(o), 'neither Hessian nor point')


@case('C22')
def install_real(rng):
    n = rng.int(1, 4)
    A = rng.posdef(n) + np.eye(n)
    p = vb.VectorParam('p', size=n, lb=rng.choice([-INF, -2.0]))
    import autograd.numpy as anp
    o = obj.Objective(p, lambda: 0.5 * anp.dot(p.get(), anp.dot(A, p.get())))
    x = rng.normal(n) * 0.5
    Hx = o.fun_free_hessian(x)
    o.fun_free_grad(rng.normal(n))
    h, s, c = ou.set_objective_preconditioner(o, x, ev_min=0.2)
    same(h, Hx, 'Hessian at the point')
    wS, wC, w = spectral(Hx, 0.2, None)
    same(o.preconditioner, wS, 'installed preconditioner', tol=1e-6)


# --- C23 -------------------------------------------------------------------

class Rec(object):
    """A scripted objective: records how it is used."""
    def __init__(self, n, A, b, pre=None):
        self.A, self.b, self.n = A, b, n
        self.preconditioner = pre
        self.logger = obj.Logger(print_every=1)
        self.log = []

    def f(self, x): return 0.5 * x.dot(self.A).dot(x) + self.b.dot(x)
    def fun_free(self, x, verbose=False):
        self.log.append(('f', np.array(x), verbose)); return self.f(x)
    def fun_free_grad(self, x): return self.A.dot(x) + self.b
    def fun_free_hvp(self, x, v): return self.A.dot(v)
    def fun_free_cond(self, x, verbose=False): return self.fun_free(self.preconditioner.dot(x), verbose=verbose)
    def fun_free_grad_cond(self, x): return self.preconditioner.T.dot(self.fun_free_grad(self.preconditioner.dot(x)))
    def fun_free_hvp_cond(self, x, v): return self.preconditioner.T.dot(self.A.dot(self.preconditioner.dot(v)))
    def uncondition_x(self, x): return self.preconditioner.dot(x)


@case('C23', 2)
def minimizers(rng):
    n = rng.int(1, 4)
    A, b = rng.posdef(n) + np.eye(n), rng.normal(n)
    P = rng.normal(n, n) + 2 * np.eye(n)
    o = Rec(n, A, b, P)
    x0 = rng.normal(n); x0c = x0.copy()
    pre = rng.flag()
    which = rng.choice(['trust', 'bfgs'])
    o.logger.value = 123.0; o.logger.iter = 5
    init = rng.flag(); pe = rng.choice([None, 3])
    mi = rng.int(1, 60); gtol = rng.choice([1e-6, 1e-3]); disp = rng.flag()
    seen = {}
    real = scipy.optimize.minimize

    class R(object):
        pass

    def fake(fun, x0=None, jac=None, hessp=None, method=None, options=None, **kw):
        seen.update(fun=fun, x0=np.array(x0), jac=jac, hessp=hessp, method=method, options=options, kw=kw, logger_iter=o.logger.iter)
        r = R(); r.x = np.arange(n) + 0.5; seen['r'] = r; seen['f'] = fun(x0); return r
    scipy.optimize.minimize = fake
    try:
        if which == 'trust':
            x, r = ou.minimize_objective_trust_ncg(o, x0, pre, maxiter=mi, gtol=gtol, disp=disp, print_every=pe, init_logger=init)
        else:
            x, r = ou.minimize_objective_bfgs(o, x0, precondition=pre, maxiter=mi, disp=disp, print_every=pe, init_logger=init)
    finally:
        scipy.optimize.minimize = real
    exact(x0, x0c, 'start modified')
    req(r is seen['r'], 'optimizer result not returned')
    xo = np.arange(n) + 0.5
    same(x, P.dot(xo) if pre else xo, 'returned optimum', pre=pre)
    same(P.dot(seen['x0']) if pre else seen['x0'], x0c, 'start point', pre=pre, tol=1e-7)
    req(seen['method'].lower() == ('trust-ncg' if which == 'trust' else 'bfgs'), 'method', got=seen['method'])
    req(seen['options'].get('maxiter') == mi, 'maxiter'); req(which != 'trust' or seen['options'].get('gtol') == gtol, 'gtol')
    z, v = rng.normal(n), rng.normal(n)
    T = P if pre else np.eye(n)
    same(seen['fun'](z), o.f(T.dot(z)), 'objective given to the optimizer')
    same(seen['jac'](z), T.T.dot(A.dot(T.dot(z)) + b), 'gradient given to the optimizer')
    if which == 'trust':
        same(seen['hessp'](z, v), T.T.dot(A.dot(T.dot(v))), 'Hessian product given to the optimizer')
    req(o.log[-1][2] == disp, 'verbosity')
    req(seen['logger_iter'] == (0 if init else 5), 'logger initialization', init=init, got=seen['logger_iter'])
    req(o.logger.print_every == (1 if pe is None else pe), 'print interval')
    o.preconditioner = None
    raises(AssertionError, lambda: ou.minimize_objective_trust_ncg(o, x0, True, disp=False), 'preconditioning without preconditioner')
    raises(AssertionError, lambda: ou.minimize_objective_bfgs(o, x0, precondition=True, disp=False), 'preconditioning without preconditioner')


@case('C23')
def real_minimum(rng):
    n = rng.int(1, 4)
    A, b = rng.posdef(n) + np.eye(n), rng.normal(n)
    p = vb.VectorParam('p', size=n)
    import autograd.numpy as anp
    o = obj.Objective(p, lambda: 0.5 * anp.dot(p.get(), anp.dot(A, p.get())) + anp.dot(b, p.get()))
    o.preconditioner = rng.normal(n, n) * 0.3 + np.eye(n)
    if abs(np.linalg.det(o.preconditioner)) < 0.05:
        return
    pre = rng.flag()
    f = rng.choice([lambda: ou.minimize_objective_trust_ncg(o, rng.normal(n), pre, disp=rng.flag(), gtol=1e-8, maxiter=200),
                    lambda: ou.minimize_objective_bfgs(o, rng.normal(n), precondition=pre, disp=rng.flag())])
    x, r = f()
    same(x, -np.linalg.solve(A, b), 'minimum', tol=1e-3)


@case('C23', 3)
def repeated(rng):
    n = rng.int(1, 3)
    mi = rng.int(1, 6)
    xtol, ftol, gtol = [rng.choice([1e-8, 0.3, 2.0]) for _ in range(3)]
    steps = []
    x0 = rng.normal(n)
    c = rng.normal(n)
    fun = lambda x: float(np.sum(np.sin(x) * c))
    gr = lambda x: np.cos(x) * c * rng_g
    rng_g = rng.choice([1.0, 0.01, 3.0])

    class O(object):
        def fun_free(self, x, **k): return fun(x)
        def fun_free_grad(self, x, **k): return gr(x)
    calls = []
    scale = rng.choice([1.0, 0.4, 0.1])
    seq = [rng.normal(n) * scale ** (k + 1) for k in range(mi + 2)]

    def opt(x):
        calls.append(np.array(x)); k = len(calls)
        return x + seq[k - 1], ('res', k)
    init = rng.flag(0.4)
    icalls = []

    def iopt(x):
        icalls.append(np.array(x)); return x + 10.0, ('init', 0)
    keep = rng.flag()
    kw = dict(initial_optimization_fun=iopt) if init else {}
    x0c = x0.copy()
    out = ou.repeatedly_optimize(O(), opt, x0, max_iter=mi, gtol=gtol, ftol=ftol, xtol=xtol, disp=rng.flag(), keep_intermediate_optimizations=keep, **kw)
    exact(x0, x0c, 'start modified')
    x, conv, xc, fc, gc, last, res = out
    # independent simulation
    cur = x0c + (10.0 if init else 0.0)
    f = fun(cur); k = 0; exp_calls = []
    while True:
        exp_calls.append(cur)
        new = cur + seq[k]; k += 1
        fx = fun(new)
        flags = (np.sum(np.abs(new - cur)) < xtol, abs(fx - f) < ftol, np.sum(np.abs(gr(new))) < gtol)
        cur, f = new, fx
        if any(flags) or k >= mi:
            break
    req(len(calls) == k, 'number of optimizations', got=len(calls), want=k, max_iter=mi)
    for a, e in zip(calls, exp_calls):
        same(a, e, 'start of an optimization', tol=1e-12)
    same(x, cur, 'returned point', tol=1e-12)
    req((bool(xc), bool(fc), bool(gc)) == tuple(map(bool, flags)), 'flags', got=(xc, fc, gc), want=flags)
    req(bool(conv) == any(flags), 'overall flag'); req(last == ('res', k), 'last result', got=last)
    want = ([('init', 0)] if init else []) + [('res', j + 1) for j in range(k)]
    req(list(res) == (want if keep else []), 'intermediate results', got=res, want=want)
    if init:
        req(len(icalls) == 1, 'initial optimization calls'); exact(icalls[0], x0c, 'initial optimization start')


@case('C23')
def logger(rng):
    pe = rng.int(1, 4)
    l = obj.Logger(print_every=pe)
    reports = []
    l.callback = lambda s: reports.append((s.iter, s.value, np.array(s.x)))
    for rep in range(rng.int(1, 2)):
        del reports[:]
        vals = []; xs = []
        for k in range(rng.int(1, 9)):
            v, x = rng.normal(), rng.normal(2)
            vals.append(v); xs.append(x)
            l.log(v, x)
            req(l.iter == k + 1 and l.value == v, 'iteration count or current value'); exact(l.x, x, 'current point')
        req(list(l.val_array) == vals and len(l.x_array) == len(xs), 'logged values')
        for a, b in zip(l.x_array, xs):
            exact(a, b, 'logged points')
        want = [k for k in range(len(vals)) if k % pe == 0]
        req([r[0] for r in reports] == want and [r[1] for r in reports] == [vals[k] for k in want], 'reports', got=[r[0] for r in reports], want=want)
        l.initialize()
        req(l.iter == 0 and not l.x_array and not l.val_array, 'initialize')
    l.callback = None
    l.print_message = lambda: reports.append('p')
    del reports[:]
    for k in range(5):
        l.log(1.0, rng.normal(2))
    req(len(reports) == len([k for k in range(5) if k % pe == 0]), 'printed messages')
