from lib import *
import autograd
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.SparseObjectives as obj
import LinearResponseVariationalBayes.ModelSensitivity as ms
import scipy.sparse as ss
import math

SMALL = [SVector, SArray, SPosDef, SSimplex, SScalar]


def small_spec(rng, name='p', nmax=5, kinds=None):
    while True:
        if rng.flag(0.3):
            s = SDict(rng, vb, name, depth=1, kinds=kinds or SMALL, nmax=2)
        else:
            s = rng.choice(kinds or SMALL)(rng, vb, name)
        if 1 <= s.free_size <= nmax and s.vec_size <= nmax + 3:
            return s


def vecs(par):
    return par.get_vector()


class Fn(object):
    """phi(v; a, k) smooth in v; the same expression serves the real code
    (through autograd) and the oracle (through numpy)."""
    def __init__(self, rng, n):
        self.A = rng.normal(n, n); self.b = rng.normal(n); self.c = rng.normal(n) * 0.3
        self.D = rng.normal(n, n)

    def scalar(self, v, np_, a=0.0, k=1.0):
        return 0.5 * np_.dot(v, np_.dot(self.A, v)) + (1.0 + a) * np_.dot(self.b, v) + k * np_.sum(np_.sin(self.c * v))

    def vector(self, v, np_, a=0.0, k=1.0):
        return np_.dot(self.D, v) * (1.0 + a) + k * np_.sin(self.c * v)


def args_for(rng):
    argv = (rng.normal(),) if rng.flag() else ()
    argk = {'k': rng.normal()} if rng.flag() else {}
    return argv, argk


def setup(rng):
    s = small_spec(rng)
    fn = Fn(rng, s.vec_size)
    par = s.par

    def fun(a=0.0, k=1.0):
        return fn.scalar(par.get_vector(), anp, a, k)
    o = obj.Objective(par, fun)
    return s, fn, o


def oracle_free(s, fn, argv, argk):
    return lambda x: np.array([fn.scalar(free_to_vec(s, x), np, *argv, **argk)])


def oracle_vec(s, fn, argv, argk):
    return lambda v: np.array([fn.scalar(v, np, *argv, **argk)])


def state_is(s, vec, msg):
    got = s.par.get_vector()
    req(is_plain(got), msg + ': automatic-differentiation value left in the parameter', got=got)
    same(got, vec, msg, tol=1e-9, param=s.desc)
    f = s.par.get_free()
    req(is_plain(f), msg + ': automatic-differentiation value left in the parameter', got=f)


@case('C10', 4)
def objective_methods(rng):
    s, fn, o = setup(rng)
    for _ in range(rng.int(1, 3)):
        argv, argk = args_for(rng)
        churn(rng, s, k=rng.int(0, 1))
        if rng.flag():
            x = s.rand_free(); F = oracle_free(s, fn, argv, argk); enc = 'free'; vec = free_to_vec(s, x)
        else:
            x = rand_vector(s); F = oracle_vec(s, fn, argv, argk); enc = 'vector'; vec = x.copy()
        xc = x.copy()
        d = rng.pt(x.size)
        which = rng.choice(['', '_grad', '_hessian', '_jacobian', '_hvp'])
        f = getattr(o, 'fun_' + enc + which)
        if which == '':
            got = f(x, *argv, **argk); want = F(xc)[0]; tol = 1e-8
        elif which == '_grad':
            got = f(x, *argv, **argk); want = num_jac(F, xc)[0]; tol = 1e-6
        elif which == '_jacobian':
            got = f(x, *argv, **argk); want = num_jac(F, xc)[0]; tol = 1e-6
        elif which == '_hessian':
            got = f(x, *argv, **argk); want = num_hess(F, xc)[0]; tol = 5e-5
        else:
            got = f(x, *(argv + (d,)), **argk); want = num_hess(F, xc)[0].dot(d); tol = 5e-5
        same(got, want, 'fun_%s%s' % (enc, which), tol=tol, shape=False, param=s.desc, x=xc, argv=argv, argk=argk)
        exact(x, xc, 'argument modified')
        state_is(s, vec, 'parameter after fun_%s%s' % (enc, which))
        if rng.flag(0.3):
            # the same array object with other contents
            x[...] = s.rand_free() if enc == 'free' else rand_vector(s)
            a = argv + ((d,) if which == '_hvp' else ())
            same(f(x, *a, **argk), np.array(getattr(obj.Objective(s.par, o.fun), 'fun_' + enc + which)(x.copy(), *a, **argk)),
                 'fun_%s%s at an array changed in place' % (enc, which), tol=1e-10, param=s.desc)
            state_is(s, free_to_vec(s, x) if enc == 'free' else x, 'parameter after fun_%s%s' % (enc, which))


@case('C10')
def objective_vector_valued(rng):
    s = small_spec(rng)
    fn = Fn(rng, s.vec_size)
    o = obj.Objective(s.par, lambda a=0.0, k=1.0: fn.vector(s.par.get_vector(), anp, a, k))
    argv, argk = args_for(rng)
    x = s.rand_free()
    same(o.fun_free(x, *argv, **argk), fn.vector(free_to_vec(s, x), np, *argv, **argk), 'fun_free of a vector objective')
    got = o.fun_free_jacobian(x, *argv, **argk)
    want = num_jac(lambda t: fn.vector(free_to_vec(s, t), np, *argv, **argk), x)
    same(got, want, 'fun_free_jacobian', tol=1e-6, shape=False, param=s.desc)
    state_is(s, free_to_vec(s, x), 'parameter after fun_free_jacobian')
    v = rand_vector(s)
    got = o.fun_vector_jacobian(v, *argv, **argk)
    want = num_jac(lambda t: fn.vector(t, np, *argv, **argk), v)
    same(got, want, 'fun_vector_jacobian', tol=1e-6, shape=False, param=s.desc)
    state_is(s, v, 'parameter after fun_vector_jacobian')


@case('C10')
def objective_verbose(rng):
    s, fn, o = setup(rng)
    x = s.rand_free()
    a = o.fun_free(x, verbose=True)
    same(a, oracle_free(s, fn, (), {})(x)[0], 'fun_free(verbose)', shape=False)
    req(len(o.logger.val_array) == 1 and o.logger.iter == 1, 'verbose evaluation not logged')
    same(o.logger.val_array[0], a, 'logged value', shape=False)
    o.fun_free(x)
    req(len(o.logger.val_array) == 1, 'quiet evaluation logged')


@case('C11', 4)
def conditioned(rng):
    s, fn, o = setup(rng)
    n = s.free_size
    A = rng.normal(n, n) * 0.7
    form = rng.choice(['dense', 'csr', 'csc', 'dense'])
    P = A.copy() if form == 'dense' else getattr(ss, form + '_matrix')(A)
    if rng.flag(0.3):
        o.preconditioner = rng.normal(n, n)
        o.fun_free_grad_cond(s.rand_free())
    o.preconditioner = P
    argv, argk = args_for(rng)
    x = rng.pt(n, 0.7); xc = x.copy()
    y = A.dot(x)
    if np.max(np.abs(y)) > 1.5:
        x = x * 1.5 / np.max(np.abs(y)); xc = x.copy(); y = A.dot(x)
    F = oracle_free(s, fn, argv, argk)
    d = rng.pt(n)
    which = rng.choice(['', 'grad', 'hessian', 'hvp', 'unc'])
    if which == '':
        got = o.fun_free_cond(x, *argv, **argk); want = F(y)[0]; tol = 1e-8
    elif which == 'grad':
        got = o.fun_free_grad_cond(x, *argv, **argk); want = A.T.dot(num_jac(F, y)[0]); tol = 1e-6
    elif which == 'hessian':
        got = dense(o.fun_free_hessian_cond(x, *argv, **argk)); want = A.T.dot(num_hess(F, y)[0]).dot(A); tol = 5e-5
    elif which == 'hvp':
        got = o.fun_free_hvp_cond(x, *(argv + (d,)), **argk); want = A.T.dot(num_hess(F, y)[0].dot(A.dot(d))); tol = 5e-5
    else:
        got = o.uncondition_x(x); want = y; tol = 1e-10
        same(o.get_conditioned_x(x), y, 'get_conditioned_x', tol=1e-10)
    same(got, want, 'conditioned ' + which, tol=tol, shape=False, param=s.desc, A=A, x=xc, form=form)
    exact(x, xc, 'argument modified'); exact(dense(P), A, 'preconditioner modified')
    if which not in ('unc',):
        state_is(s, free_to_vec(s, y), 'parameter after conditioned ' + which)
    o.preconditioner = None
    for nm in ['fun_free_cond', 'fun_free_grad_cond', 'fun_free_hessian_cond']:
        raises(AssertionError, lambda: getattr(o, nm)(x), nm + ' without preconditioner')
    raises(AssertionError, lambda: o.fun_free_hvp_cond(x, d), 'fun_free_hvp_cond without preconditioner')


@case('C11')
def conditioned_verbose(rng):
    s, fn, o = setup(rng)
    n = s.free_size
    A = rng.normal(n, n)
    o.preconditioner = A
    x = rng.normal(n)
    a = o.fun_free_cond(x, verbose=True)
    req(len(o.logger.val_array) == 1, 'verbose conditioned evaluation not logged')
    same(o.logger.x_array[0], A.dot(x), 'logged point of the conditioned objective', tol=1e-10)
    o.fun_free_cond(x)
    req(len(o.logger.val_array) == 1, 'quiet conditioned evaluation logged')


# --- C12 -------------------------------------------------------------------

class Fn2(object):
    def __init__(self, rng, n1, n2):
        self.A = rng.normal(n1, n1); self.B = rng.normal(n1, n2); self.C = rng.normal(n2, n2)
        self.b = rng.normal(n1) * 0.4; self.c = rng.normal(n2) * 0.4

    def f(self, v1, v2, np_, a=0.0, k=1.0):
        return 0.5 * np_.dot(v1, np_.dot(self.A, v1)) + (1.0 + a) * np_.dot(v1, np_.dot(self.B, v2)) \
            + 0.5 * np_.dot(v2, np_.dot(self.C, v2)) + k * np_.sin(np_.dot(self.b, v1) + np_.dot(self.c, v2))


def enc_point(rng, s, free):
    if free:
        x = s.rand_free()
        return x, (lambda t: free_to_vec(s, t)), free_to_vec(s, x)
    x = rand_vector(s)
    return x, (lambda t: np.asarray(t, dtype=float)), x.copy()


def _cross(F, x1, x2, h=2e-3):
    n1, n2 = x1.size, x2.size
    out = np.zeros((n1, n2))
    for i in range(n1):
        a = np.zeros(n1); a[i] = h
        for j in range(n2):
            b = np.zeros(n2); b[j] = h
            def m(s):
                return (F(x1 + s * a, x2 + s * b) - F(x1 + s * a, x2 - s * b) - F(x1 - s * a, x2 + s * b) + F(x1 - s * a, x2 - s * b)) / (4 * s * s * h * h)
            out[i, j] = (4 * m(1.0) - m(2.0)) / 3
    return out


def cross(F, x1, x2, h=2e-3):
    a = _cross(F, x1, x2, h)
    b = _cross(F, x1, x2, 1.7 * h)
    if a.size and not np.max(np.abs(a - b)) <= 1e-5 * (1 + np.max(np.abs(a))):
        raise Skip()
    return a


@case('C12', 4)
def two_param(rng):
    big = rng.flag(0.25)
    if big:
        n = rng.int(5, 9)
        s1 = SVector(rng, vb, 'p1', size=n)
        s2 = SVector(rng, vb, 'p2', size=n + rng.choice([0, 0, 1, -2]))
    else:
        s1 = small_spec(rng, 'p1', 4); s2 = small_spec(rng, 'p2', 4)
    fn = Fn2(rng, s1.vec_size, s2.vec_size)
    o = obj.TwoParameterObjective(s1.par, s2.par, lambda a=0.0, k=1.0: fn.f(s1.par.get_vector(), s2.par.get_vector(), anp, a, k))
    for _ in range(rng.int(1, 2)):
        argv, argk = args_for(rng)
        churn(rng, s1, k=1); churn(rng, s2, k=1)
        m = rng.choice(['fun_free', 'fun_vector', 'eval_fun', 'fun_grad1', 'fun_grad2', 'fun_free_hessian12', 'fun_free_hessian21',
                        'fun_vector_hessian12', 'fun_vector_hessian21', 'fun_hessian_free1_vector2', 'fun_hessian_vector1_free2'])
        fr = {'fun_free': (True, True), 'fun_vector': (False, False), 'fun_free_hessian12': (True, True), 'fun_free_hessian21': (True, True),
              'fun_vector_hessian12': (False, False), 'fun_vector_hessian21': (False, False),
              'fun_hessian_free1_vector2': (True, False), 'fun_hessian_vector1_free2': (False, True)}.get(m, (rng.flag(), rng.flag()))
        x1, c1, v1 = enc_point(rng, s1, fr[0])
        x2, c2, v2 = enc_point(rng, s2, fr[1])
        x1c, x2c = x1.copy(), x2.copy()
        F = lambda a, b: fn.f(c1(a), c2(b), np, *argv, **argk)
        pos = (x1, x2) + ((fr if m in ('eval_fun', 'fun_grad1', 'fun_grad2') else ())) + argv
        got = getattr(o, m)(*pos, **argk)
        if m in ('fun_free', 'fun_vector', 'eval_fun'):
            want = F(x1c, x2c); tol = 1e-8
        elif m == 'fun_grad1':
            want = num_jac(lambda t: np.array([F(t, x2c)]), x1c)[0]; tol = 1e-6
        elif m == 'fun_grad2':
            want = num_jac(lambda t: np.array([F(x1c, t)]), x2c)[0]; tol = 1e-6
        else:
            want = cross(F, x1c, x2c); tol = 1e-4
            if m.endswith('21'):
                want = want.T
            g = np.asarray(got)
            n1, n2 = x1.size, x2.size
            ws = (n2, n1) if m.endswith('21') else (n1, n2)
            req(g.size == n1 * n2 and (g.shape == ws), m + ': orientation', got=g.shape, want=ws)
        same(got, want, m, tol=tol, shape=False, p1=s1.desc, p2=s2.desc, x1=x1c, x2=x2c, free=fr)
        exact(x1, x1c, 'argument modified'); exact(x2, x2c, 'argument modified')
        state_is(s1, v1, 'first parameter after ' + m)
        state_is(s2, v2, 'second parameter after ' + m)


# --- C13 -------------------------------------------------------------------

@case('C13', 4)
def converter(rng):
    si = small_spec(rng, 'in', 4)
    so = rng.choice([SVector, SArray, SPosDef, SSimplex])(rng, vb, 'out')
    D = rng.normal(so.free_size, si.vec_size) * 0.3

    def conv_np(v):
        return np.sin(D.dot(v))

    def conv():
        so.par.set_free(anp.sin(anp.dot(D, si.par.get_vector())))
    pc = obj.ParameterConverter(si.par, so.par, conv)
    for _ in range(rng.int(1, 2)):
        churn(rng, si, k=1)
        so.par.set_free(so.rand_free())
        fi, fo = rng.flag(), rng.flag()
        x, c, v = enc_point(rng, si, fi)
        if not fi and si.kind in ('simplex', 'subspace', 'posdef', 'scalar', 'vector', 'array') and rng.flag(0.4):
            # any vector of the right size is a vector value
            if si.kind in ('simplex', 'subspace'):
                x = rng.unif(0.1, 2.0, si.vec_size)
            v = x.copy()
            si.par.set_vector(x.copy())
        xc = x.copy()
        if rng.flag(0.2):
            try:        # output already at the input's numbers
                so.par.set_vector(x.copy())
                if not np.all(np.isfinite(so.par.get_free())):
                    raise ValueError
            except (ValueError, np.linalg.LinAlgError):
                so.par.set_free(so.rand_free())
        out0 = snapshot_vec(so.par)
        G = (lambda t: conv_np(c(t))) if fo else (lambda t: free_to_vec(so, conv_np(c(t))))
        nm = '%s_to_%s' % ('free' if fi else 'vec', 'free' if fo else 'vec')
        if rng.flag():
            got = getattr(pc, 'converter_' + nm)(x)
            same(got, G(xc), 'converter_' + nm, tol=1e-6, pin=si.desc, pout=so.desc)
            state_is(si, v, 'input parameter after converter_' + nm)
        else:
            got = getattr(pc, nm + '_jacobian')(x)
            want = num_jac(G, xc)
            same(got, want, nm + '_jacobian', tol=3e-6, shape=True, pin=si.desc, pout=so.desc, x=xc)
            state_is(si, v, 'input parameter after %s_jacobian' % nm)
            state_is(so, out0, 'output parameter after %s_jacobian' % nm)
            if rng.flag(0.3):
                exact(x, xc, 'argument modified')
                x[...] = si.rand_free() if fi else rand_vector(si)
                xc = x.copy()
                same(getattr(pc, nm + '_jacobian')(x), np.array(getattr(pc, nm + '_jacobian')(x.copy())),
                     nm + '_jacobian at an array changed in place', tol=1e-12)
        exact(x, xc, 'argument modified')


# --- C14 / C15 -------------------------------------------------------------

def num_cross(f, x, e):
    return cross(f, x, e)


class Model(object):
    """theta* of 0.5 theta' A theta + theta' B eps (+ small cubic coupling) in the vector encoding of one bounded vector."""
    def __init__(self, rng, nonlin=False, big=False):
        self.n, self.m = rng.int(1, 3), rng.int(1, 3)
        self.inp = vb.VectorParam('theta', size=self.n, lb=rng.choice([-10.0, -20.0, -INF]))
        self.hyp = vb.VectorParam('lam', size=self.m, lb=rng.choice([-4.0, -INF]))
        self.out = vb.VectorParam('out', size=self.n, lb=-500.0)
        self.lb_in = self.inp._VectorParam__lb if hasattr(self.inp, '_VectorParam__lb') else None
        self.A = rng.posdef(self.n) + np.eye(self.n)
        self.B = rng.normal(self.n, self.m)
        self.c = rng.normal(self.n) * 0.1
        self.g = rng.normal(self.n, self.n)

    def base(self, theta, np_):
        return 0.5 * np_.dot(theta, np_.dot(self.A, theta)) + np_.sum(np_.sin(theta)) * 0.1

    def hyp_part(self, theta, eps, np_):
        return np_.dot(theta, np_.dot(self.B, eps)) + 0.05 * np_.sum(np_.sin(theta)) * np_.dot(eps, eps)

    def objective(self):
        return self.base(self.inp.get_vector(), anp) + self.hyp_part(self.inp.get_vector(), self.hyp.get_vector(), anp)

    def hyper_objective(self):
        return self.hyp_part(self.inp.get_vector(), self.hyp.get_vector(), anp)

    def converter(self):
        self.out.set_vector(anp.dot(self.g, self.inp.get_vector() ** 2))

    def out_np(self, theta):
        return self.g.dot(theta ** 2)

    def full_np(self, theta, eps):
        return self.base(theta, np) + self.hyp_part(theta, eps, np)


def enc_maps(par):
    q = copy.deepcopy(par)

    def fwd(x):
        q.set_free(np.asarray(x, dtype=float)); return np.array(q.get_vector(), dtype=float)

    def bwd(v):
        q.set_vector(np.asarray(v, dtype=float)); return np.array(q.get_free(), dtype=float)
    return fwd, bwd


def sens_setup(rng):
    mod = Model(rng)
    fi, bi = enc_maps(mod.inp)
    fh, bh = enc_maps(mod.hyp)
    theta0 = rng.normal(mod.n) * 0.5
    eps0 = rng.normal(mod.m) * 0.5
    return mod, fi, bi, fh, bh, theta0, eps0


def flags(rng, inf, hyf):
    """the encodings, left out at their declared defaults now and then"""
    kw = {}
    if not inf or rng.flag():
        kw['input_is_free'] = inf
    if hyf or rng.flag():
        kw['hyper_is_free'] = hyf
    return kw


@case('C14', 2)
def linear_approximation(rng):
    mod, fi, bi, fh, bh, theta0, eps0 = sens_setup(rng)
    inf, hyf = rng.flag(0.6), rng.flag(0.4)
    x0 = bi(theta0) if inf else theta0.copy()
    e0 = bh(eps0) if hyf else eps0.copy()
    ci = fi if inf else (lambda t: np.asarray(t))
    ch = fh if hyf else (lambda t: np.asarray(t))
    F = lambda a, b: mod.full_np(ci(a), ch(b))
    H = num_hess(lambda t: np.array([F(t, e0)]), x0)[0]
    kw = {}
    if rng.flag(0.4):
        H = rng.posdef(mod.n)
        kw['hess0'] = H.copy()
    elif np.min(np.linalg.eigvalsh(H)) < 0.2:
        return
    part = rng.flag(0.4)
    if part:
        kw['hyper_par_objective_functor'] = mod.hyper_objective
    G = cross(lambda a, b: (mod.hyp_part(ci(a), ch(b), np)), x0, e0)
    xa, ea = x0.copy(), e0.copy()
    s = ms.ParametricSensitivityLinearApproximation(mod.objective, mod.inp, mod.hyp, xa, ea, **dict(kw, **flags(rng, inf, hyf)))
    exact(xa, x0, 'argument modified'); exact(ea, e0, 'argument modified')
    xa[...] = 99.0; ea[...] = -77.0
    if 'hess0' in kw:
        kw['hess0'][...] = 0.0
    D = -np.linalg.solve(H, G)
    same(s.get_dinput_dhyper(), D, 'derivative of the optimum', tol=2e-4, input_is_free=inf, hyper_is_free=hyf, hess0='hess0' in kw, part=part)
    for _ in range(2):
        e1 = e0 + rng.normal(mod.m) * 0.3
        e1c = e1.copy()
        same(s.predict_input_par_from_hyperparameters(e1), x0 + D.dot(e1 - e0), 'predicted input', tol=3e-4)
        exact(e1, e1c, 'argument modified')
    req(is_plain(mod.inp.get()) and is_plain(mod.hyp.get()), 'automatic-differentiation values left')
    # history: move the base and come back
    x2, e2 = x0 + 0.1, e0 - 0.1
    H2 = rng.posdef(mod.n)
    s.set_base_values(x2, e2, hess0=H2)
    G2 = cross(lambda a, b: (mod.hyp_part(ci(a), ch(b), np)), x2, e2)
    same(s.get_dinput_dhyper(), -np.linalg.solve(H2, G2), 'derivative after set_base_values', tol=2e-4)
    same(s.predict_input_par_from_hyperparameters(e2), x2, 'prediction at the base after set_base_values', tol=1e-9)


@case('C14', 2)
def parametric_sensitivity(rng):
    mod, fi, bi, fh, bh, theta0, eps0 = sens_setup(rng)
    x0 = bi(theta0)
    F = lambda a, b: mod.full_np(fi(a), np.asarray(b))
    H = num_hess(lambda t: np.array([F(t, eps0)]), x0)[0]
    kw = {}
    given = rng.flag(0.4)
    if given:
        H = rng.posdef(mod.n)
        kw['objective_hessian'] = H.copy()
    elif np.min(np.linalg.eigvalsh(H)) < 0.2:
        return
    if rng.flag(0.4):
        kw['hyper_par_objective_fun'] = mod.hyper_objective
    mod.hyp.set_vector(eps0.copy())
    mod.out.set_vector(rng.normal(mod.n))
    if rng.flag():
        mod.inp.set_free(rng.normal(mod.n))
        xa = x0.copy()
        kw['optimal_input_par'] = xa
    else:
        mod.inp.set_free(x0.copy())
        xa = None
    s = obj.ParametricSensitivity(mod.objective, mod.inp, mod.out, mod.hyp, mod.converter, **kw)
    if xa is not None:
        xa[...] = 55.0
    if given:
        kw['objective_hessian'][...] = 0.0
    G = cross(lambda a, b: mod.hyp_part(fi(a), b, np), x0, eps0)
    D = -np.linalg.solve(H, G)
    J = num_jac(lambda t: mod.out_np(fi(t)), x0)
    same(s.get_dinput_dhyper(), D, 'derivative of the optimum', tol=2e-4)
    same(s.get_doutput_dhyper(), J.dot(D), 'derivative of the output', tol=3e-4)
    same(s.predict_output_par_from_hyperparameters(eps0, True), mod.out_np(theta0), 'linear output prediction at the base', tol=1e-8)
    same(s.predict_output_par_from_hyperparameters(eps0, False), mod.out_np(theta0), 'nonlinear output prediction at the base', tol=1e-8)
    e1 = eps0 + rng.normal(mod.m) * 0.2
    x1 = x0 + D.dot(e1 - eps0)
    same(s.predict_input_par_from_hyperparameters(e1), x1, 'predicted input', tol=3e-4)
    same(s.predict_output_par_from_hyperparameters(e1, True), mod.out_np(theta0) + J.dot(D.dot(e1 - eps0)), 'linear output prediction', tol=5e-4)
    same(s.predict_output_par_from_hyperparameters(e1, False), mod.out_np(fi(x1)), 'nonlinear output prediction', tol=2e-3)
    same(s.predict_output_par_from_hyperparameters(eps0, True), mod.out_np(theta0), 'linear output prediction at the base (again)', tol=1e-8)


def implicit_jet(F, x0, e0, d, H, K):
    """Taylor coefficients of the root y(t) of grad F(y, e0 + t d), with H as
    the derivative by y (nested exact differentiation along the path)."""
    g = autograd.grad(F, 0)
    C = [x0]
    for k in range(1, K + 1):
        def path(t):
            y = x0
            for i in range(1, k):
                y = y + C[i] * t ** i
            return g(y, e0 + t * d)
        f = path
        for _ in range(k):
            f = autograd.jacobian(f)
        C.append(-np.linalg.solve(H, f(0.0)) / math.factorial(k))
    return C


@case('C15', 2)
def taylor(rng):
    mod, fi, bi, fh, bh, theta0, eps0 = sens_setup(rng)
    K = rng.int(1, 3)
    inf, hyf = rng.flag(0.6), rng.flag(0.4)
    ci = fi if inf else (lambda t: np.asarray(t))
    ch = fh if hyf else (lambda t: np.asarray(t))
    e0 = bh(eps0) if hyf else eps0.copy()
    agF = autograd_full(mod, inf, hyf)
    grad = autograd.grad(agF, 0); hess = autograd.hessian(agF, 0)

    def solve_opt(e, x):
        for _ in range(60):
            g = grad(x, e)
            step = np.linalg.solve(hess(x, e), g)
            x = x - np.clip(step, -1.0, 1.0)
            if np.max(np.abs(step)) < 1e-14:
                break
        return x
    start = bi(theta0) if inf else theta0.copy()
    x0 = solve_opt(e0, start)
    H0 = hess(x0, e0)
    if not np.all(np.isfinite(x0)) or np.max(np.abs(grad(x0, e0))) > 1e-9 or np.min(np.linalg.eigvalsh(H0)) < 0.2 or np.max(np.abs(x0)) > 8:
        return
    d = rng.normal(mod.m); d = d / np.linalg.norm(d) * 0.4
    xs = []
    C = implicit_jet(agF, x0, e0, d, H0, K)
    kw = {}
    if rng.flag(0.4):
        kw['hess0'] = H0.copy()
    if rng.flag(0.3):
        kw['hyper_par_objective_functor'] = mod.hyper_objective
    xa, ea = x0.copy(), e0.copy()
    s = ms.ParametricSensitivityTaylorExpansion(mod.objective, mod.inp, mod.hyp, xa, ea, order=K, **dict(kw, **flags(rng, inf, hyf)))
    xa[...] = 9.0; ea[...] = 9.0
    dc = d.copy()
    for k in range(1, K + 1):
        got = s.evaluate_dkinput_dhyperk(d, k)
        same(got, C[k] * math.factorial(k), 'derivative of order %d' % k, tol=1e-6, free=(inf, hyf), kw=list(kw))
        exact(d, dc, 'direction modified')
        same(mod.inp.get_vector(), ci(x0), 'input parameter after evaluation', tol=1e-9)
        same(mod.hyp.get_vector(), ch(e0), 'hyperparameter after evaluation', tol=1e-9)
    # the same direction array with other contents
    for k in range(1, K + 1):
        dd = d.copy()
        s.evaluate_dkinput_dhyperk(dd, k)
        dd *= 2.0
        same(s.evaluate_dkinput_dhyperk(dd, k), 2.0 ** k * C[k] * math.factorial(k), 'derivative along a direction changed in place', tol=1e-6)
    for mo in [None] + list(range(1, K + 1)):
        n = K if mo is None else mo
        want = sum(C[k] for k in range(1, n + 1))
        same(s.evaluate_taylor_series(d, add_offset=False, max_order=mo), want, 'series without offset', tol=1e-6, max_order=mo)
        same(s.evaluate_taylor_series(d, max_order=mo), want + x0, 'series with offset', tol=1e-6, max_order=mo)
        exact(d, dc, 'direction modified')
        same(mod.inp.get_vector(), ci(x0), 'input parameter after the series', tol=1e-9)
    for bad in (0, -1, K + 1, K + 3):
        raises(ValueError, lambda: s.evaluate_dkinput_dhyperk(d, bad), 'order outside the range accepted', k=bad)
        raises(ValueError, lambda: s.evaluate_taylor_series(d, max_order=bad), 'max_order outside the range accepted', k=bad)


def autograd_full(mod, inf, hyf):
    lbi = mod.inp._VectorParam__lb; lbh = mod.hyp._VectorParam__lb

    def F(a, b):
        th = a if (not inf or lbi == -INF) else anp.exp(a) + lbi
        ep = b if (not hyf or lbh == -INF) else anp.exp(b) + lbh
        return mod.base(th, anp) + mod.hyp_part(th, ep, anp)
    return F


@case('C15')
def taylor_given_hessian(rng):
    """The supplied Hessian is the one used (order one and two)."""
    mod, fi, bi, fh, bh, theta0, eps0 = sens_setup(rng)
    inf, hyf = rng.flag(), rng.flag()
    x0 = bi(theta0) if inf else theta0.copy()
    e0 = bh(eps0) if hyf else eps0.copy()
    F = autograd_full(mod, inf, hyf)
    H = rng.posdef(mod.n)
    s = ms.ParametricSensitivityTaylorExpansion(mod.objective, mod.inp, mod.hyp, x0, e0, order=2, input_is_free=inf, hyper_is_free=hyf, hess0=H.copy())
    d = rng.normal(mod.m) * 0.5
    g = autograd.grad(F, 0)
    C = implicit_jet(F, x0, e0, d, H, 2)
    d1, d2 = C[1], 2 * C[2]
    same(s.evaluate_dkinput_dhyperk(d, 1), d1, 'first derivative with a supplied Hessian', tol=1e-7)
    same(s.evaluate_dkinput_dhyperk(d, 2), d2, 'second derivative with a supplied Hessian', tol=1e-6)


def mock_derivs(rng, n, order, log):
    """g derivative table with recorded multilinear mock values."""
    vals = {}

    def mk(i, j):
        W = rng.normal(n) * 1.0
        def f(eta, eps, *vs):
            req(len(vs) == i + j, 'derivative of g called with the wrong number of directions', i=i, j=j, got=len(vs))
            out = W.copy()
            for q, v in enumerate(vs[:i]):
                out = out * np.dot(v, np.arange(1, len(v) + 1))
            for v in vs[i:]:
                out = out * np.dot(v, np.arange(2, len(v) + 2))
            return out
        return f
    return [[mk(i, j) for j in range(order + 2)] for i in range(order + 2)]


@case('C15', 3)
def term_algebra(rng):
    n, m = rng.int(1, 3), rng.int(1, 3)
    K = rng.int(1, 4)
    g = mock_derivs(rng, n, K + 2, None)
    etas = [rng.normal(n) for _ in range(K + 3)]
    ev = [(lambda eta, eps, d, v=v: v) for v in etas]
    eta0, eps0, d = rng.normal(n), rng.normal(m), rng.normal(m)

    def table(terms):
        t = {}
        for x in terms:
            key = (x.eps_order, tuple(x.eta_orders))
            t[key] = t.get(key, 0.0) + x.prefactor
        return {k: v for k, v in t.items() if v != 0}

    def value(tab):
        out = np.zeros(n)
        for (e, os), c in tab.items():
            vs = []
            for i, o in enumerate(os):
                vs += [etas[i]] * o
            out = out + c * g[sum(os)][e](eta0, eps0, *(vs + [d] * e))
        return out

    def expect(tab):
        t = {}
        def add(k, c):
            t[k] = t.get(k, 0.0) + c
        for (e, os), c in tab.items():
            os = os + (0,)
            add((e + 1, os), c)
            add((e, (os[0] + 1,) + os[1:]), c)
            for i in range(len(os) - 1):
                if os[i]:
                    l = list(os); l[i] -= 1; l[i + 1] += 1
                    add((e, tuple(l)), c * os[i])
        return {k: v for k, v in t.items() if v != 0}
    terms = ms.get_taylor_base_terms(g)
    tab = table(terms)
    req(tab == {(1, (0,)): 1.0, (0, (1,)): 1.0}, 'base terms', got=tab)
    for k in range(K):
        rest = {kk: v for kk, v in tab.items() if kk[1][-1] == 0}
        same(ms.evaluate_terms(terms, eta0, eps0, d, include_highest_eta_order=False), value(rest), 'evaluate_terms without the highest order', tol=1e-10, order=k + 1)
        new = []
        for t in terms:
            before = (t.eps_order, list(t.eta_orders), t.prefactor, len(t.eval_eta_derivs))
            ds = t.differentiate(ev[k])
            req((t.eps_order, list(t.eta_orders), t.prefactor, len(t.eval_eta_derivs)) == before, 'differentiate modified the term')
            got = table(ds)
            want = expect({(t.eps_order, tuple(t.eta_orders)): t.prefactor})
            req(got == want, 'derivative of a term', term=str(t), got=got, want=want)
            new += ds
        rng.r.shuffle(new)
        want = expect(tab)
        n0 = len(new)
        terms = ms.consolidate_terms(new)
        req(len(new) == n0, 'consolidate_terms modified its argument')
        tab = table(terms)
        req(tab == want, 'terms of order %d' % (k + 2), got=tab, want=want)
        keys = [(x.eps_order, tuple(x.eta_orders)) for x in terms]
        req(len(set(keys)) == len(keys), 'like terms not combined', got=keys)
        full = ev[:k + 1]
        for t in terms:
            req(t.order == k + 2, 'order of a term', got=t.order)


@case('C15', 2)
def consolidation(rng):
    n = rng.int(1, 2)
    g = mock_derivs(rng, n, 5, None)
    etas = [rng.normal(n) for _ in range(4)]
    ev = [(lambda eta, eps, d, v=v: v) for v in etas]
    eta0, eps0, d = rng.normal(n), rng.normal(2), rng.normal(2)
    pats = [(3, [0, 0, 0]), (2, [1, 0, 0]), (1, [2, 0, 0]), (0, [3, 0, 0]), (1, [0, 1, 0]), (0, [1, 1, 0]), (0, [0, 0, 1])]
    L = [ms.DerivativeTerm(e, list(o), rng.choice([1.0, 2.0, -1.0, 0.5]), list(ev), g) for (e, o) in
         [rng.choice(pats) for _ in range(rng.int(1, 7))]]
    want = ms.evaluate_terms(L, eta0, eps0, d)
    out = ms.consolidate_terms(L)
    keys = [(x.eps_order, tuple(x.eta_orders)) for x in out]
    req(len(set(keys)) == len(keys), 'like terms not combined', got=keys, inp=[(x.eps_order, x.eta_orders) for x in L])
    req(set(keys) == set((x.eps_order, tuple(x.eta_orders)) for x in L), 'patterns changed', got=keys)
    same(ms.evaluate_terms(out, eta0, eps0, d), want, 'consolidation changed the value', tol=1e-10)


@case('C15')
def jvp_table(rng):
    n, m = rng.int(1, 2), rng.int(1, 2)
    W = rng.normal(n, n) * 0.5; B = rng.normal(n, m) * 0.5
    f = lambda x, e: anp.sin(anp.dot(W, x) + anp.dot(B, e))
    tab = ms.generate_two_term_derivative_array(f, 3)
    x, e = rng.normal(n), rng.normal(m)
    vs = [rng.normal(n) for _ in range(3)]; ws = [rng.normal(m) for _ in range(3)]
    d = [np.sin, np.cos, lambda t: -np.sin(t), lambda t: -np.cos(t), np.sin, np.cos]
    for i in range(3):
        for j in range(0, 3):
            if i + j > 4:
                continue
            got = tab[i][j](x, e, *(vs[:i] + ws[:j]))
            want = d[i + j](W.dot(x) + B.dot(e))
            for v in vs[:i]:
                want = want * W.dot(v)
            for w in ws[:j]:
                want = want * B.dot(w)
            same(got, want, 'derivative table [%d][%d]' % (i, j), tol=1e-8)
