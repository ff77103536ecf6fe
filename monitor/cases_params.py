from lib import *
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import Parameters as par_mod
import scipy.sparse as ss


def default_roundtrip(rng, s, prop):
    pass


def bijection(rng, cls, tol=1e-7):
    s = cls(rng, vb)
    rng.note(param=s.desc)
    p = s.par
    v0 = p.get()
    if s.val0 is None:
        req(s.ok(np.asarray(v0)), 'default value violates the constraint', param=s.desc, value=v0)
    else:
        same(v0, s.val0, 'constructor value not stored', tol=1e-15, param=s.desc)
        same(s.free_to_value(p.get_free()), s.val0, 'free encoding of the constructor value', tol=tol, shape=False, param=s.desc)
    churn(rng, s)
    x = s.rand_free()
    x0 = x.copy()
    p.set_free(x)
    v = p.get()
    exact(x, x0, 'set_free modified its argument', param=s.desc)
    req(s.ok(np.asarray(v, dtype=float)), 'value violates the constraint after set_free', param=s.desc, x=x, value=v)
    same(v, s.free_to_value(x), 'value after set_free', tol=tol, param=s.desc, x=x)
    f = p.get_free()
    if s.kind.startswith('posdef'):
        mats = np.asarray(v, dtype=float).reshape((-1, s.n, s.n)) - s.lb * np.eye(s.n)
        if np.max(np.linalg.cond(mats)) * 1e-14 > tol:
            raise Skip()
    same(f, x0, 'get_free after set_free', tol=tol, param=s.desc)
    exact(np.asarray(p.get(), dtype=float), np.asarray(v, dtype=float), 'get_free changed the value', param=s.desc)
    churn(rng, s)
    val = s.rand_value()
    vcopy = copy.deepcopy(val)
    p.set(val)
    f = p.get_free()
    req(np.asarray(f).ndim == 1 and np.asarray(f).size == s.free_size, 'free encoding has the wrong shape', param=s.desc, f=f)
    exact(np.asarray(p.get(), dtype=float), np.asarray(vcopy, dtype=float), 'get_free changed the value', param=s.desc)
    same(s.free_to_value(f), vcopy, 'free encoding of a value', tol=tol, shape=False, param=s.desc, value=vcopy)
    p.set_free(np.array(f))
    same(np.asarray(p.get(), dtype=float).reshape(np.shape(vcopy)), vcopy, 'set, get_free, set_free', tol=tol, param=s.desc)


@case('C01')
def scalar_bijection(rng):
    bijection(rng, SScalar)


@case('C01')
def vector_bijection(rng):
    bijection(rng, SVector)


@case('C01')
def array_bijection(rng):
    bijection(rng, SArray)


@case('C01')
def out_of_bounds(rng):
    cls = rng.choice([SScalar, SVector, SArray])
    s = cls(rng, vb)
    while s.lb == -INF and s.ub == INF:
        s = cls(rng, vb)
    p = s.par
    churn(rng, s)
    v = np.array(s.rand_value(), dtype=float)
    side = []
    if s.lb > -INF:
        side.append(s.lb - rng.choice([1e-6, 0.5, 3.0]))
    if s.ub < INF:
        side.append(s.ub + rng.choice([1e-6, 0.5, 3.0]))
    bad = rng.choice(side)
    if v.ndim == 0:
        v = float(bad)
    else:
        v.ravel()[rng.int(0, v.size - 1)] = bad
    p.set(v)
    raises(ValueError, p.get_free, 'out-of-bounds value has a free encoding', param=s.desc, value=v)


@case('C01')
def extreme_free(rng):
    s = rng.choice([SScalar, SVector, SArray])(rng, vb)
    x = s.rand_free() * 3.0
    s.par.set_free(x)
    same(s.par.get(), s.free_to_value(x), 'value after set_free', tol=1e-9, param=s.desc, x=x)
    same(s.par.get_free(), x, 'get_free after set_free', tol=1e-5, param=s.desc)


@case('C02')
def posdef_bijection(rng):
    bijection(rng, SPosDef)


@case('C02')
def posdefvector_bijection(rng):
    bijection(rng, SPosDefVector)


@case('C02')
def posdefarray_bijection(rng):
    bijection(rng, SPosDefArray)


@case('C02')
def posdef_scales(rng):
    """diagonal entries of very different sizes"""
    cls = rng.choice([SPosDef, SPosDefVector, SPosDefArray])
    s = cls(rng, vb)
    while s.lb != 0.0:
        s = cls(rng, vb)
    n, vs = s.n, s.n * (s.n + 1) // 2
    x = np.zeros(s.free_size)
    for m in range(s.free_size // vs):
        # a matrix that is the scaling D A D of a well conditioned A
        e = np.array([rng.choice([-10.0, -7.0, -3.0, 0.0, 2.0]) + rng.unif(0, 1) for _ in range(n)])
        for k, (i, j) in enumerate(ld_index(n)):
            x[m * vs + k] = e[i] if i == j else 0.3 * rng.normal() * math.exp(e[i])
    s.par.set_free(x)
    v = np.asarray(s.par.get(), dtype=float)
    close(v, s.free_to_value(x), 'value after set_free', rel=1e-7, tiny=1e-18, param=s.desc, x=x)
    close(s.par.get_free(), x, 'get_free after set_free', rel=1e-5, tiny=1e-13, param=s.desc, x=x)


@case('C03')
def simplex_bijection(rng):
    bijection(rng, SSimplex)


@case('C03')
def simplex_log_ratio(rng):
    s = SSimplex(rng, vb)
    churn(rng, s)
    v = s.rand_value()
    s.par.set(v)
    f = np.asarray(s.par.get_free()).reshape(s.shape[0], s.shape[1] - 1)
    same(f, np.log(v[:, 1:] / v[:, :1]), 'free coordinates are log ratios to entry 0', param=s.desc)
    d = vb.SimplexParam('q', shape=s.shape)
    same(d.get(), np.full(s.shape, 1.0 / s.shape[1]), 'default value is uniform', param=s.desc)


@case('C03')
def simplex_extreme(rng):
    s = SSimplex(rng, vb)
    x = s.rand_free() * 8
    s.par.set_free(x)
    v = s.par.get()
    req(np.all(np.asarray(v) > 0) and np.allclose(np.sum(v, axis=1), 1), 'row not on the simplex', param=s.desc, x=x)
    same(s.par.get_free(), x, 'get_free after set_free', tol=1e-6, param=s.desc)


@case('C04')
def subspace_bijection(rng):
    bijection(rng, SSubspace)


@case('C04')
def subspace_contract(rng):
    s = SSubspace(rng, vb)
    if s.passed is not None:
        s.passed[...] = rng.normal(*s.passed.shape)
    churn(rng, s)
    x = s.rand_free()
    s.par.set_free(x)
    v = s.par.get()
    same(s.x.dot(v), np.zeros(s.x.shape[0]), 'not orthogonal to the constraint rows', tol=1e-8, param=s.desc, x=x)
    same(np.sum(np.asarray(v) ** 2), np.sum(x ** 2), 'orthonormal coordinates (round trip)', param=s.desc)
    same(s.par.get_free(), x, 'get_free after set_free', param=s.desc)
    w = s.rand_value()
    s.par.set(w.copy())
    s.par.set_free(s.par.get_free())
    same(s.par.get(), w, 'value orthogonal to the rows not reproduced', param=s.desc)


@case('C04')
def subspace_reject(rng):
    d = rng.int(2, 6)
    raises(ValueError, lambda: vb.SubspaceVectorParam('p', dim=d, perp_subspace=rng.normal(1, d + rng.choice([-1, 1, 2]))),
           'constraint of the wrong width accepted', dim=d)
    raises(ValueError, lambda: vb.SubspaceVectorParam('p', dim=d, perp_subspace=rng.normal(d + rng.int(0, 2), d)),
           'constraint with too many rows accepted', dim=d)
    p = vb.SubspaceVectorParam('p', dim=d)
    p.set_free(rng.normal(d - 1))
    same(np.sum(p.get()), 0.0, 'default constraint is a zero sum', atol=1e-9)


def encoding(rng, cls):
    s = cls(rng, vb)
    p = s.par
    churn(rng, s)
    req(p.vector_size() == s.vec_size, 'vector size', param=s.desc, got=p.vector_size())
    req(p.free_size() == s.free_size, 'free size', param=s.desc, got=p.free_size())
    v = s.rand_value()
    vc = copy.deepcopy(v)
    p.set(v)
    vec = p.get_vector()
    same(vec, s.to_vector(vc), 'vector encoding of a value', tol=1e-14, param=s.desc)
    req(np.asarray(p.get_free()).shape == (s.free_size,), 'free encoding shape', param=s.desc)
    same(p.get_vector(), s.to_vector(vc), 'vector encoding after get_free', tol=1e-14, param=s.desc)
    w = s.to_vector(s.rand_value())
    wc = w.copy()
    churn(rng, s)
    p.set_vector(w)
    same(np.asarray(p.get(), dtype=float).reshape(np.shape(s.from_vector(wc))), s.from_vector(wc), 'value after set_vector', tol=1e-14, param=s.desc, vec=wc)
    same(p.get_vector(), wc, 'get_vector after set_vector', tol=1e-14, param=s.desc)
    exact(w, wc, 'set_vector modified its argument', param=s.desc)
    # rejections
    before = snapshot_vec(p)
    for b in s.wrong_values():
        raises(ValueError, lambda: p.set(b), 'value of the wrong shape accepted', param=s.desc, value=b, shape=b.shape)
        exact(snapshot_vec(p), before, 'rejected value changed the parameter', param=s.desc)
    for b in s.wrong_free():
        raises(ValueError, lambda: p.set_free(b), 'free vector of the wrong size accepted', param=s.desc, shape=b.shape)
        exact(snapshot_vec(p), before, 'rejected free vector changed the parameter', param=s.desc)
    for b in s.wrong_vector():
        raises(ValueError, lambda: p.set_vector(b), 'vector of the wrong size accepted', param=s.desc, shape=b.shape)
        exact(snapshot_vec(p), before, 'rejected vector changed the parameter', param=s.desc)
    # deep copies
    q = copy.deepcopy(p)
    x, y = s.rand_free(), s.rand_free()
    q.set_free(x)
    exact(snapshot_vec(p), before, 'operation on a copy changed the original', param=s.desc)
    with quiet():
        if s.free_size <= 6:
            j1 = dense(q.free_to_vector_jac(y))
            exact(snapshot_vec(p), before, 'Jacobian of a copy changed the original', param=s.desc)
            h1 = q.free_to_vector_hess(y)
            exact(snapshot_vec(p), before, 'Hessian of a copy changed the original', param=s.desc)
    q.set_free(y)
    p.set_free(x)
    same(q.get_vector(), s.to_vector(s.free_to_value(y)), 'operation on the original changed the copy', param=s.desc)
    if s.kind == 'scalar':
        return
    # in-place changes of the copy's value stay in the copy
    q = copy.deepcopy(p)
    before = snapshot_vec(p)
    qv = q.get()
    try:
        qv[...] = 0.0
    except ValueError:
        pass
    exact(snapshot_vec(p), before, 'in-place change of a copy changed the original', param=s.desc)


for _cls in ELEM:
    def _mk(cls):
        def f(rng):
            encoding(rng, cls)
        f.__name__ = 'encoding_' + cls.kind
        case('C05')(f)
    _mk(_cls)


@case('C05')
def subspace_copy(rng):
    s = SSubspace(rng, vb)
    p = s.par
    q = copy.deepcopy(p)
    x = s.rand_free()
    q.set_free(x); p.set_free(x)
    same(q.get(), p.get(), 'copy uses another basis', param=s.desc)


# --- C06 -------------------------------------------------------------------

def check_dict(rng, s):
    p = s.par
    req(p.free_size() == s.free_size, 'dictionary free size', param=s.desc, got=p.free_size())
    req(p.vector_size() == s.vec_size, 'dictionary vector size', param=s.desc, got=p.vector_size())
    fo = vo = 0
    req(list(p.free_indices_dict.keys()) == s.names and list(p.vector_indices_dict.keys()) == s.names, 'index dictionaries: names in push order', got=list(p.free_indices_dict.keys()))
    for n, m in zip(s.names, s.mem):
        req(p[n] is m.par, 'indexing does not return the member', name=n)
        req(list(p.free_indices_dict[n]) == list(range(fo, fo + m.free_size)), 'free index range', param=s.desc, name=n, got=list(p.free_indices_dict[n]))
        req(list(p.vector_indices_dict[n]) == list(range(vo, vo + m.vec_size)), 'vector index range', param=s.desc, name=n, got=list(p.vector_indices_dict[n]))
        fo += m.free_size; vo += m.vec_size
        if m.kind == 'dict':
            check_dict(rng, m)


@case('C06')
def dict_concat(rng):
    s = SDict(rng, vb)
    p = s.par
    check_dict(rng, s)
    churn(rng, s, k=rng.int(0, 2))
    x = s.rand_free(); xc = x.copy()
    p.set_free(x)
    exact(x, xc, 'set_free modified its argument')
    o = 0
    for n, m in zip(s.names, s.mem):
        same(m.par.get_vector(), free_to_vec(m, xc[o:o + m.free_size]), 'member after set_free', tol=1e-7, param=s.desc, name=n)
        o += m.free_size
    same(p.get_free(), xc, 'get_free after set_free', tol=1e-6, param=s.desc)
    same(p.get_vector(), s.free_to_vec(xc), 'get_vector after set_free', tol=1e-7, param=s.desc)
    same(p.get_free(), np.concatenate([m.par.get_free() for m in s.mem]), 'free encoding is the concatenation', tol=1e-12)
    churn(rng, s, k=rng.int(0, 1))
    w = s.rand_vector(); wc = w.copy()
    p.set_vector(w)
    exact(w, wc, 'set_vector modified its argument')
    o = 0
    for n, m in zip(s.names, s.mem):
        same(m.par.get_vector(), wc[o:o + m.vec_size], 'member after set_vector', tol=1e-12, param=s.desc, name=n)
        o += m.vec_size
    same(p.get_vector(), wc, 'get_vector after set_vector', tol=1e-12, param=s.desc)
    same(p.get_free(), np.concatenate([np.asarray(m.par.get_free()) for m in s.mem]), 'free encoding is the concatenation', tol=1e-12)
    before = snapshot_vec(p)
    for b in s.wrong_free():
        raises(ValueError, lambda: p.set_free(b), 'free vector of the wrong size accepted', param=s.desc, size=b.size)
        exact(snapshot_vec(p), before, 'rejected free vector changed a member', param=s.desc)
    for b in s.wrong_vector():
        raises(ValueError, lambda: p.set_vector(b), 'vector of the wrong size accepted', param=s.desc, size=b.size)
        exact(snapshot_vec(p), before, 'rejected vector changed a member', param=s.desc)
    if rng.flag(0.3):
        # the members are known by the names they were pushed with
        m = rng.choice(s.mem)
        if rng.flag() or not hasattr(m.par, 'set_name'):
            m.par.name = 'renamed'
        else:
            m.par.set_name('renamed')
        check_dict(rng, s)
        w = s.rand_vector(); wc = w.copy()
        p.set_vector(w)
        same(p.get_vector(), wc, 'get_vector after set_vector (renamed member)', tol=1e-12, param=s.desc)
        x = s.rand_free()
        p.set_free(x)
        same(p.get_vector(), s.free_to_vec(x), 'get_vector after set_free (renamed member)', tol=1e-7, param=s.desc)
    # pushing one more keeps everything consistent
    m = rng.choice(ELEM)(rng, vb, 'extra')
    s.mem.append(m); s.names.append('extra'); p.push_param(m.par)
    s.free_size += m.free_size; s.vec_size += m.vec_size
    check_dict(rng, s)
    x = s.rand_free()
    p.set_free(x)
    same(p.get_vector(), s.free_to_vec(x), 'get_vector after a further push', tol=1e-7, param=s.desc)


@case('C06')
def dict_view(rng):
    s = SDict(rng, vb)
    p = s.par
    for n, m in zip(s.names, s.mem):
        if m.kind == 'dict':
            req(p.get()[n] is m.par.get() or p.get()[n].param_dict is m.par, 'view of a nested dictionary')
            continue
        v = m.rand_value()
        others = [snapshot_vec(k.par) for k in s.mem if k is not m]
        p.get()[n] = v
        same(m.par.get(), v, 'assignment through the view', tol=1e-15, name=n)
        same(p.values[n], v, 'reading through the view', tol=1e-15, name=n)
        for a, k in zip(others, [k for k in s.mem if k is not m]):
            exact(snapshot_vec(k.par), a, 'assignment through the view changed another member')
        if hasattr(m, 'wrong_values') and m.wrong_values():
            b = m.wrong_values()[0]
            def f():
                p.get()[n] = b
            raises(ValueError, f, 'view accepts a wrong value', param=m.desc)


@case('C06')
def dict_deepcopy(rng):
    s = SDict(rng, vb)
    q = copy.deepcopy(s.par)
    before = snapshot_vec(s.par)
    x = s.rand_free()
    q.set_free(x)
    exact(snapshot_vec(s.par), before, 'operation on a copy changed the original')
    same(q.get_vector(), s.free_to_vec(x), 'copy after set_free', tol=1e-7)


@case('C06')
def offset_helpers(rng):
    s = rng.choice(ELEM)(rng, vb)
    n = s.free_size + s.vec_size + 5
    off = rng.int(0, 4)
    v = rng.normal(n)
    v[off:off + s.free_size] = s.rand_free(); vc = v.copy()
    r = par_mod.set_free_offset(s.par, v, off)
    req(r == off + s.free_size, 'set_free_offset return', got=r)
    same(s.par.get_vector(), free_to_vec(s, vc[off:off + s.free_size]), 'set_free_offset', tol=1e-8, param=s.desc)
    w = v.copy()
    r = par_mod.get_free_offset(s.par, w, off)
    req(r == off + s.free_size, 'get_free_offset return', got=r)
    same(w, vc, 'get_free_offset', tol=1e-7, param=s.desc)
    vec = s.to_vector(s.rand_value())
    v = rng.normal(n); v[off:off + s.vec_size] = vec
    r = par_mod.set_vector_offset(s.par, v, off)
    req(r == off + s.vec_size, 'set_vector_offset return', got=r)
    same(s.par.get_vector(), vec, 'set_vector_offset', tol=1e-12, param=s.desc)
    w = rng.normal(n); want = w.copy(); want[off:off + s.vec_size] = vec
    r = par_mod.get_vector_offset(s.par, w, off)
    req(r == off + s.vec_size, 'get_vector_offset return', got=r)
    same(w, want, 'get_vector_offset', tol=1e-12, param=s.desc)


# --- C07 / C08 -------------------------------------------------------------

def jac_case(rng, s):
    p = s.par
    churn(rng, s)
    x = s.rand_free(); xc = x.copy()
    with quiet():
        j = p.free_to_vector_jac(x)
    req(ss.issparse(j), 'Jacobian is not sparse', got=type(j))
    jd = dense(j).copy()
    exact(x, xc, 'free_to_vector_jac modified its argument')
    want = num_jac(lambda t: free_to_vec(s, t), xc)
    same(jd, want, 'Jacobian', tol=2e-7, param=s.desc, x=xc)
    # the same array object with other contents
    x[...] = s.rand_free()
    with quiet():
        j3 = p.free_to_vector_jac(x)
        j4 = copy.deepcopy(p).free_to_vector_jac(x.copy())
    same(dense(j3), dense(j4), 'Jacobian at an array changed in place', tol=1e-10, param=s.desc, x=x)
    # history independence
    p.set_free(s.rand_free())
    churn(rng, s)
    with quiet():
        j2 = p.free_to_vector_jac(xc)
    same(dense(j2), jd, 'Jacobian depends on the history', tol=1e-10, param=s.desc, x=xc)
    same(dense(j), jd, 'earlier Jacobian changed', tol=1e-14, param=s.desc)


def hess_case(rng, s):
    p = s.par
    churn(rng, s)
    x = s.rand_free(); xc = x.copy()
    n = s.free_size
    with quiet():
        h = p.free_to_vector_hess(x)
    exact(x, xc, 'free_to_vector_hess modified its argument')
    req(len(h) == s.vec_size, 'number of Hessians', param=s.desc, got=len(h))
    for i in range(s.vec_size):
        req(ss.issparse(h[i]), 'Hessian is not sparse', got=type(h[i]))
    hd = [dense(m).copy() for m in h]
    for i in range(s.vec_size):
        req(hd[i].shape == (n, n), 'shape of a Hessian', param=s.desc, got=hd[i].shape)
        same(hd[i], hd[i].T, 'Hessian of vector entry %d is not symmetric' % i, tol=1e-9, param=s.desc, x=xc)
    if n <= 3:
        want = num_hess(lambda t: free_to_vec(s, t), xc)
        for i in range(s.vec_size):
            same(hd[i], want[i], 'Hessian of vector entry %d' % i, tol=2e-5, param=s.desc, x=xc)
    else:
        # quadratic forms along directions: dense ones and pairs of axes
        for k in range(6):
            d = rng.normal(n)
            if k >= 3:
                d = d * 0
                d[rng.int(0, n - 1)] = 1.0
                d[rng.int(0, n - 1)] += 1.0
            d = d / np.sqrt(np.sum(d * d))
            q = num_quad(lambda t: free_to_vec(s, t), xc, d)
            for i in range(s.vec_size):
                same(d.dot(hd[i]).dot(d), q[i], 'Hessian of vector entry %d along a direction' % i, tol=2e-5, param=s.desc, x=xc, direction=d)
    # the same array object with other contents
    x[...] = s.rand_free()
    with quiet():
        h3 = p.free_to_vector_hess(x)
        h4 = copy.deepcopy(p).free_to_vector_hess(x.copy())
    for i in range(s.vec_size):
        same(dense(h3[i]), dense(h4[i]), 'Hessian at an array changed in place', tol=1e-10, param=s.desc, x=x)
    p.set_free(s.rand_free())
    churn(rng, s)
    with quiet():
        h2 = p.free_to_vector_hess(xc)
    for i in range(s.vec_size):
        same(dense(h2[i]), hd[i], 'Hessian depends on the history', tol=1e-10, param=s.desc, x=xc)
        same(dense(h[i]), hd[i], 'earlier Hessian changed', tol=1e-14, param=s.desc)


for _cls in ELEM:
    def _mk2(cls):
        def f(rng):
            jac_case(rng, cls(rng, vb))
        f.__name__ = 'jac_' + cls.kind
        case('C07')(f)

        def g(rng):
            hess_case(rng, cls(rng, vb))
        g.__name__ = 'hess_' + cls.kind
        case('C08')(g)
    _mk2(_cls)


@case('C07', 2)
def jac_dict(rng):
    jac_case(rng, SDict(rng, vb))


@case('C08', 2)
def hess_dict(rng):
    s = SDict(rng, vb, kinds=[SScalar, SVector, SArray, SPosDef, SSimplex, SSubspace], nmax=3)
    hess_case(rng, s)


def bounded_derivs(x, lb, ub):
    """first and second derivative of the bounded transform"""
    if lb == -INF and ub == INF:
        return 1.0, 0.0
    if ub == INF:
        return math.exp(x), math.exp(x)
    if lb == -INF:
        return math.exp(-x), -math.exp(-x)
    s, t = 1 / (1 + math.exp(-x)), 1 / (1 + math.exp(x))
    return (ub - lb) * s * t, (ub - lb) * s * t * (t - s)


def far_points(rng, n):
    x = rng.normal(n)
    for i in range(n):
        if rng.flag():
            x[i] = rng.choice([-1, 1]) * rng.unif(4, 13)
    if n > 1 and rng.flag():
        i, j = rng.int(0, n - 1), rng.int(0, n - 1)
        x[i] = x[j] + rng.choice([0.0, 1e-9, -3e-9, 1e-7])
    return x


def far_case(rng, s, second):
    """closed forms, entry by entry, away from the origin"""
    n = s.free_size
    x = far_points(rng, n)
    want = np.zeros((s.vec_size, n))
    want2 = np.zeros((s.vec_size, n, n))
    if s.kind == 'simplex':
        r, m = s.shape
        p = s.free_to_value(x)
        for i in range(r):
            for a in range(m):
                va = i * m + a
                for b in range(1, m):
                    fb = i * (m - 1) + b - 1
                    # the derivative of log p_a in coordinate b
                    la = (1.0 if a == b else 0.0)
                    want[va, fb] = p[i, a] * (1 - p[i, b] if a == b else -p[i, b]) if a != b \
                        else p[i, a] * np.sum(np.delete(p[i], a))
                    for c in range(1, m):
                        fc = i * (m - 1) + c - 1
                        lc = (1.0 if a == c else 0.0)
                        want2[va, fb, fc] = p[i, a] * ((la - p[i, b]) * (lc - p[i, c]) - p[i, b] * ((1.0 if b == c else 0.0) - p[i, c]))
    else:
        for i in range(n):
            want[i, i], want2[i, i, i] = bounded_derivs(x[i], s.lb, s.ub)
    with quiet():
        if second:
            h = s.par.free_to_vector_hess(x)
            for i in range(s.vec_size):
                close(dense(h[i]), want2[i], 'Hessian of vector entry %d' % i, rel=1e-6, tiny=1e-11, param=s.desc, x=x)
        else:
            j = dense(s.par.free_to_vector_jac(x))
            close(j, want, 'Jacobian', rel=1e-8 if s.kind != 'simplex' else 1e-6, tiny=1e-12, param=s.desc, x=x)


@case('C07', 2)
def jac_far(rng):
    far_case(rng, rng.choice([SScalar, SVector, SArray, SSimplex])(rng, vb), False)


@case('C08', 2)
def hess_far(rng):
    far_case(rng, rng.choice([SScalar, SVector, SArray, SSimplex, SSimplex])(rng, vb), True)


@case('C07')
def jac_copy(rng):
    s = rng.choice(ELEM)(rng, vb)
    s.par.set_free(s.rand_free())
    q = copy.deepcopy(s.par)
    s.par = q
    jac_case(rng, s)


@case('C08')
def hess_copy(rng):
    s = rng.choice(ELEM)(rng, vb)
    s.par.set_free(s.rand_free())
    q = copy.deepcopy(s.par)
    s.par = q
    hess_case(rng, s)


@case('C08')
def offset_sparse(rng):
    r, c = rng.int(1, 4), rng.int(1, 4)
    m = rng.normal(r, c) * (rng.unif(0, 1, r, c) < 0.7)
    o = (rng.int(0, 3), rng.int(0, 3))
    full = (r + o[0] + rng.int(0, 2), c + o[1] + rng.int(0, 2))
    sp = ss.coo_matrix(m)
    got = par_mod.offset_sparse_matrix(sp, o, full)
    want = np.zeros(full); want[o[0]:o[0] + r, o[1]:o[1] + c] = m
    same(dense(got), want, 'offset_sparse_matrix', tol=1e-15)
    exact(dense(sp), m, 'offset_sparse_matrix modified its argument')


# --- C09 -------------------------------------------------------------------

@case('C09', 3)
def convert_hessian(rng):
    if rng.flag():
        s = SDict(rng, vb, kinds=[SScalar, SVector, SArray, SPosDef, SSimplex, SSubspace], nmax=3)
    else:
        s = rng.choice(ELEM)(rng, vb)
    while s.vec_size > 14:
        s = rng.choice(ELEM)(rng, vb)
    churn(rng, s)
    nv = s.vec_size
    x = s.rand_free()
    g = rng.normal(nv)
    H = rng.normal(nv, nv)
    if rng.flag():
        H = 0.5 * (H + H.T)
    if rng.flag(0.3):
        H = H * (rng.unif(0, 1, nv, nv) < 0.4)
    scale = rng.choice([1.0, 1.0, 1.0, 1e-10, 1e6])
    g, H = g * scale, H * scale
    form = rng.choice(['dense', 'csr', 'coo', 'csc'])
    Hs = H if form == 'dense' else getattr(ss, form + '_matrix')(H)
    xc, gc, Hc = x.copy(), g.copy(), H.copy()
    with quiet():
        got = par_mod.convert_vector_to_free_hessian(s.par, x, g, Hs)
    got = dense(got)
    exact(x, xc, 'free value modified'); exact(g, gc, 'gradient modified'); exact(dense(Hs), Hc, 'Hessian modified')
    J = num_jac(lambda t: free_to_vec(s, t), xc)
    K = num_hess(lambda t: free_to_vec(s, t), xc)
    want = J.T.dot(Hc).dot(J) + np.tensordot(gc, K, 1)
    same(got / scale, want / scale, 'converted Hessian', tol=3e-5, param=s.desc, x=xc, form=form)


@case('C09')
def convert_objective(rng):
    s = rng.choice([SVector, SPosDef, SSimplex, SArray, SScalar])(rng, vb)
    nv = s.vec_size
    A = rng.normal(nv, nv); A = A + A.T
    b = rng.normal(nv)
    f = lambda v: np.array([0.5 * v.dot(A).dot(v) + b.dot(v) + np.sum(np.sin(v))])
    x = s.rand_free()
    v = free_to_vec(s, x)
    g = A.dot(v) + b + np.cos(v)
    H = A - np.diag(np.sin(v))
    with quiet():
        got = dense(par_mod.convert_vector_to_free_hessian(s.par, x, g, H))
    want = num_hess(lambda t: f(free_to_vec(s, t)), x)[0]
    same(got, want, 'Hessian of the objective in the free vector', tol=1e-4, param=s.desc, x=x)
