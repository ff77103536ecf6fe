CASES = [c.strip() for c in r'''
u + w
u * s - w / t
A + v
A * u[:, None]
np.exp(A)
np.log(pos)
np.sqrt(pos)
np.abs(A)
np.square(u)
np.sign(u)
np.log1p(pos)
np.expm1(u)
np.maximum(u, w)
np.minimum(A, s)
np.clip(A, -0.5, 0.5)
np.clip(u, None, 0.2)
np.power(pos, 2)
np.power(pos, 0.5)
pos ** 1.5
pos ** -1
np.logical_and(u > 0, w > 0)
np.logical_or(u > 0, w > 0)
np.logical_not(u > 0)
np.logical_xor(u > 0, w > 0)
np.logaddexp(u, w)
np.tanh(u)
np.log2(pos)
np.log10(pos)
np.exp2(u)
np.sum(A)
np.sum(A, axis=0)
np.sum(A, axis=-1)
np.sum(D, axis=(0, 2))
np.sum(A, 1, keepdims=True)
np.mean(A)
np.mean(A, axis=1)
np.prod(u)
np.prod(np.shape(D))
np.max(u)
np.min(A)
np.all(u > -10)
np.any(u > 0.3)
np.all(A > 0, axis=0)
np.count_nonzero(u > 0)
np.var(u)
np.var(A, axis=0)
np.std(u)
np.average(u)
np.average(u, weights=pos)
np.matmul(A, v)
np.matmul(A.T, A)
np.matmul(D, v)
np.matmul(E, E)
np.matmul(E, u)
np.dot(A, v)
np.dot(u, w)
np.dot(A.T, B)
np.dot(D, v)
np.dot(u, A)
A @ v
u @ A
np.inner(u, w)
np.inner(A, B)
np.vdot(A, B)
np.outer(u, v)
np.einsum('i,j->ij', u, v)
np.einsum('ij,ij->i', A, B)
np.einsum('ij,kj->ik', A, B)
np.einsum('kij,j->ki', D, v)
np.einsum('ii', Q)
np.einsum('ii->i', Q)
np.einsum('kij,kjl->kil', E, E)
np.einsum('...ij,...j->...i', D, v)
np.einsum('...ij,...jk->...ik', E, E)
np.einsum('ij->ji', A)
np.tensordot(A, B, 2)
np.tensordot(A, v, 1)
np.tensordot(A, B, axes=([0], [0]))
np.tensordot(D, A, axes=([1, 2], [0, 1]))
np.diag(u)
np.diag(Q)
np.diagonal(Q)
np.diagonal(E, axis1=1, axis2=2)
np.trace(Q)
np.tril(Q)
np.triu(Q)
np.tril(Q, -1)
np.triu(Q, 1)
np.tril(Q, 1)
np.triu(Q, -1)
np.tril(E)
np.tril_indices(n)
Q[np.tril_indices(n)]
Q[np.triu_indices(n)]
np.triu_indices(n)
np.diag_indices(n)
Q[np.diag_indices(n)]
np.diag_indices_from(Q)
np.expand_dims(u, 1)
np.expand_dims(u, 0)
np.expand_dims(A, -1)
np.broadcast_to(u[:, None], (n, m))
np.broadcast_to(v, (k, n, m))
np.tile(u, 2)
np.tile(u, (2, 1))
np.tile(u, (m, 1))
np.repeat(u, 2)
np.repeat(u, m)
np.repeat(A, 2, axis=0)
np.eye(n)
np.eye(n, m)
np.identity(n)
np.arange(n)
np.arange(1, n)
np.arange(2, n + 3)
np.arange(0, 2 * n, 2)
np.linspace(0, 1, n + 1)
np.ravel_multi_index((np.arange(n), np.zeros(n, dtype=int)), (n, m))
np.unravel_index(np.arange(n * m), (n, m))
np.where(u > 0, u, w)
np.where(u > 0)
np.where(A > s, A, 0)
np.nonzero(u > 0)
np.argwhere(u > 0)
np.flatnonzero(u > 0)
np.atleast_1d(s)
np.atleast_2d(u)
np.column_stack([u, w])
np.column_stack([A, u])
np.hstack([u, v])
np.hstack([A, B])
np.vstack([u, w])
np.vstack([A, B])
np.vstack([A, v])
np.stack([u, w])
np.stack([u, w], axis=1)
np.stack([u, w], axis=-1)
np.concatenate([u, v])
np.concatenate([A, B], axis=1)
np.concatenate([A, B], axis=-1)
np.concatenate((u[:1], v, [s]))
np.append(u, v)
np.append(u, s)
np.append(A, B)
np.append(A, B, axis=0)
np.transpose(A)
np.transpose(D, (1, 0, 2))
np.transpose(D, [2, 1, 0])
np.transpose(D)
A.T
D.T
np.swapaxes(D, 0, 2)
np.moveaxis(D, 0, -1)
np.moveaxis(D, -1, 0)
np.moveaxis(D, 1, 0)
np.reshape(A, (m, n))
np.reshape(A, -1)
np.reshape(A, (n * m,))
np.reshape(D, (k, -1))
A.reshape(m * n)
A.reshape((m, n))
A.reshape(1, n, m)
A.flatten()
A.ravel()
D.flatten()
A.T.flatten()
A.flatten('F')
np.reshape(A, (n * m,), order='F')
np.reshape(np.arange(n * m), (n, m), order='F')
np.squeeze(A[:, :1])
np.squeeze(A[None, :, :], axis=0)
np.zeros((n, m))
np.ones(n)
np.zeros_like(A)
np.ones_like(A)
np.full((n, m), s)
np.full_like(A, 2.0)
np.array([s, t])
np.array([u, w])
np.array([[s, t], [t, s]])
np.array(A)
np.array(s)
np.array([])
np.asarray(u)
np.shape(A)
np.ndim(A)
np.size(A)
A.size
A.ndim
A.shape
len(A)
np.isscalar(s)
np.isfinite(u)
np.isnan(u)
np.array_equal(u, w)
np.array_equal(u, v)
np.array_equal(A, A)
np.cumsum(u)
np.ix_(np.arange(n), np.arange(m))
A[np.ix_(np.arange(n), np.arange(m))]
Q[np.ix_([0], [0])]
A[0, :]
A[-1]
A[:, -1]
A[0]
A[:, 0]
A[..., 0]
D[..., 0]
D[0, ...]
D[:, 0]
D[:, :, 0]
D[:, None, 0]
A[1:]
A[:-1]
u[::-1]
u[::2]
u[1::2]
u[None]
u[:, None] - u[None, :]
A[n - 1, m - 1]
u[np.array([0, 0])]
A[np.arange(n), np.zeros(n, dtype=int)]
A[:, np.zeros(2, dtype=int)]
A[np.zeros(2, dtype=int), :]
u[u > 0]
np.sum(u[u > 0])
np.flip(u)
np.flip(A, 0)
np.flip(A, axis=1)
np.flip(A)
np.fliplr(A)
np.flipud(A)
np.roll(u, 1)
np.diff(u)
np.linalg.norm(u)
np.linalg.norm(u, 2)
np.linalg.norm(u, 1)
np.linalg.norm(u, np.inf)
np.linalg.norm(A)
np.linalg.norm(A, 'fro')
np.linalg.norm(A, axis=1)
np.linalg.norm(A, axis=0)
np.linalg.multi_dot([A, A.T, A])
np.linalg.matrix_power(Q, 3)
np.linalg.inv(P)
np.linalg.solve(P, u)
np.linalg.solve(P, A)
np.linalg.inv(Q)
np.linalg.slogdet(P)[1]
np.linalg.det(P)
np.matmul(np.linalg.inv(P), P)
np.linalg.inv(np.diag(pos))
sp.linalg.solve(P, u)
sp.linalg.cho_solve(sp.linalg.cho_factor(P), u)
sp.linalg.inv(P)
sp.special.gammaln(pos)
sp.special.digamma(pos)
sp.special.expit(u)
sp.special.logit(sp.special.expit(u))
sp.special.betaln(pos, pos + 1)
sp.special.multigammaln(t + 5, 3)
sp.special.logsumexp(u)
sp.special.logsumexp(A, axis=1)
sp.special.logsumexp(A, axis=0, keepdims=True)
sp.special.xlogy(pos, pos)
sp.special.xlogy(0.0, pos)
sp.sparse.coo_matrix(A)
sp.sparse.csr_matrix(A)
sp.sparse.csc_matrix(A)
sp.sparse.csr_matrix((n, m))
sp.sparse.coo_matrix((u, (np.arange(n), np.zeros(n, dtype=int))), (n, m))
sp.sparse.csr_matrix((u, (np.zeros(n, dtype=int), np.zeros(n, dtype=int))), shape=(n, m))
sp.sparse.csr_matrix(A).T
sp.sparse.csr_matrix(A) * v
sp.sparse.csr_matrix(A) @ v
sp.sparse.csr_matrix(A).dot(v)
sp.sparse.csr_matrix(A) * sp.sparse.csr_matrix(B.T)
sp.sparse.csr_matrix(A) * s
s * sp.sparse.csr_matrix(A)
sp.sparse.csr_matrix(A) + sp.sparse.coo_matrix(B)
sp.sparse.csr_matrix(A) - sp.sparse.coo_matrix(B)
-sp.sparse.csr_matrix(A)
sp.sparse.csr_matrix(A) / t
sp.sparse.csr_matrix(A).sum()
sp.sparse.csr_matrix(A).multiply(B)
sp.sparse.csr_matrix(A).multiply(sp.sparse.csr_matrix(B))
sp.sparse.csr_matrix(A).multiply(v)
sp.sparse.csr_matrix(A)[0, :]
sp.sparse.csr_matrix(A)[:, 0]
sp.sparse.csr_matrix(A)[0, 0]
sp.sparse.csr_matrix(A)[1:, :]
sp.sparse.csr_matrix(A).getrow(0)
sp.sparse.csc_matrix(A).getcol(0)
sp.sparse.csr_matrix(A).tocsc()
sp.sparse.csr_matrix(A).shape
sp.sparse.csr_matrix(Q).diagonal()
sp.sparse.tril(Q)
sp.sparse.triu(Q, 1)
sp.sparse.triu(Q, k=-1)
sp.sparse.identity(n)
sp.sparse.eye(n)
sp.sparse.eye(n) + sp.sparse.csr_matrix(Q)
sp.sparse.diags(u)
sp.sparse.diags([u], [0])
sp.sparse.vstack([sp.sparse.coo_matrix(A), sp.sparse.coo_matrix(B)])
sp.sparse.hstack([sp.sparse.coo_matrix(A), sp.sparse.coo_matrix(Q)])
sp.sparse.block_diag([A, B])
sp.sparse.block_diag([A, Q, np.array([[s]])])
sp.sparse.block_diag((sp.sparse.csr_matrix(A), B), format='csr')
sp.linalg.block_diag(A, Q)
x = u.copy(); x[0] = s; x
x = u.copy(); x[:] = 0.; x
x = u.copy(); x[1:] = w[1:]; x
x = u.copy(); x[::-1] = w; x
x = A.copy(); x[0, :] = v; x
x = A.copy(); x[:, 0] += u; x
x = A.copy(); x *= s; x
x = A.copy(); x[x < 0] = 0; x
x = Q.copy(); x[np.diag_indices(n)] += u; x
x = Q.copy(); x[np.tril_indices(n)] = 0.; x
x = Q.copy(); np.fill_diagonal(x, u); x
x = Q.copy(); np.fill_diagonal(x, s); x
x = u.copy(); y = x[1:]; y += 1; x
x = u.copy(); y = x[1:]; y[:] = x[:-1]; x
x = u.copy(); x[:] = x[::-1]; x
x = u.copy(); x += x[::-1]; x
x = A.copy(); y = x.T; y[0] = 1.; x
x = A.copy(); y = x.reshape(-1); y[0] = s; x
x = A.copy(); y = x.ravel(); y += 1; x
x = A.copy(); y = x.flatten(); y += 1; x
x = np.empty(n); x[:] = u; x
x = np.zeros(n); np.exp(u, out=x); x
x = np.zeros(n); np.add(u, w, out=x); x
x = np.zeros((n, m)); np.multiply(A, v, out=x); x
x = u.copy(); np.add(x, x[::-1], out=x); x
x = np.zeros((n, n)); np.matmul(A, A.T, out=x); x
x = np.zeros((n, n)); np.dot(A, A.T, x); x
x = np.zeros(n + m); x[:n] = u; x[n:] = v; x
x = np.zeros((n, m, k)); x[:, :, 0] = A; x
x = np.zeros((n, n)); i = np.arange(n); x[i, i] = u; x
x = np.zeros((n, m)); x[np.arange(n), 0] = u; x
x = np.zeros((n, n)); x[np.ix_(np.arange(n), np.arange(n))] = Q; x
np.equal(u, w)
np.less(u, w)
np.greater_equal(A, 0)
np.not_equal(u, u)
np.isclose(u, u + 1e-12)
np.allclose(u, w)
np.allclose(u, u)
np.add(u, w)
np.subtract(u, w)
np.multiply(A, v)
np.divide(A, t)
np.true_divide(u, t)
np.negative(u)
np.reciprocal(pos)
np.floor_divide(np.arange(n), 2)
np.mod(np.arange(n), 2)
np.arange(n) // 2
np.arange(n) % 2
np.hypot(u, w)
np.cumprod(u)
np.argmax(u)
np.argmin(u)
np.sort(u)
np.argsort(u)
np.unique(np.array([1, 1, 2]))
np.kron(u, v)
np.kron(A, Q)
np.split(np.concatenate([u, v]), [n])
np.array_split(u, 2)
np.meshgrid(u, v)
np.isin(np.arange(n), [0])
np.in1d(np.arange(n), np.array([0]))
np.delete(u, 0)
np.insert(u, 0, s)
np.rollaxis(D, 1)
np.ravel(A)
np.r_[u, v]
np.c_[u, w]
np.dstack([A, B])
np.float64(s)
np.ascontiguousarray(A)
np.copy(A)
A.copy()
A.sum()
A.sum(axis=0)
A.sum(1)
A.mean()
A.mean(axis=0)
A.max()
A.min()
A.dot(v)
A.transpose()
D.transpose(2, 0, 1)
A.tolist()
u.tolist()
Q.trace()
Q.diagonal()
u.astype(float)
np.arange(n).astype(float)
(u > 0).astype(float)
(u > 0).any()
(u > 0).all()
u.item(0)
u.prod()
u.var()
u.std()
u.clip(-0.1, 0.1)
u.repeat(2)
A.squeeze()
A.swapaxes(0, 1)
x = u.copy(); x.fill(s); x
(u > 0) * u
(u > 0) & (w > 0)
(u > 0) | (w > 0)
~(u > 0)
u == u
u / w
1 / pos
2 ** u
-u
abs(u)
u ** 2
u ** 3
[x for x in [s, t]]
np.sum([s, t, 1.0])
np.sum([u, w], axis=0)
sum([s, t])
max(s, t)
np.maximum(s, 0)
np.logspace(0, 1, 3)
np.interp(s, [-10., 10.], [0., 1.])
np.sinh(u)
np.cosh(u)
np.heaviside(u, 0.5)
np.nan_to_num(u)
np.ptp(u)
np.median(u)
np.cov(A)
np.cross(np.array([1., 2, 3]), np.array([s, t, 1.]))
np.array([x * 2 for x in range(3)])
np.linalg.eigvalsh(P)
np.linalg.cholesky(P)
np.apply_along_axis(np.sum, 1, A)
np.lexsort((u,))
np.ones((n, m), dtype=bool)
np.zeros(n, dtype=int)
np.full(n, True)
np.logical_and.reduce([u > 0, w > 0])
np.add.reduce(u)
np.multiply.outer(u, v)
np.trapz(u)
np.polyval([1., 2., 3.], u)
u.dot(w)
u.T
np.may_share_memory(u, u)
u.reshape(-1, 1)
u.reshape((n, 1))
u[np.newaxis, :]
np.block([[Q, A], [A.T, np.zeros((m, m))]])
np.ones(n)[:, None] * v[None, :]
np.vectorize(lambda x: x * 2)(u)
x = np.zeros(n); np.add.at(x, np.zeros(n, dtype=int), u); x
x = np.zeros((n, n)); np.add.at(x, (np.arange(n), np.arange(n)), u); x
np.multiply.outer(A, v)
np.subtract.outer(u, w)
np.maximum.reduce([u, w, -u])
np.add.reduce(A, axis=1)
np.roll(u, -1)
np.any(A > 0, axis=1)
np.cumsum(np.array([s, t, 1.0]))
np.meshgrid(u, v, indexing='ij')
np.delete(A, 0, axis=1)
np.einsum('i,i', u, w)
np.einsum('ij,j', A, v)
np.einsum('kii->k', E)
np.einsum('kii->ki', E)
np.einsum('i,ij,j->', u, A, v)
np.tensordot(u, w, 0)
np.tensordot(D, v, axes=(2, 0))
np.tensordot(D, v, axes=([-1], [0]))
A.T.reshape(-1)
A.T.ravel()
x = A.copy(); y = x.T.ravel(); x[0, 0] = 5.; y
x = A.copy(); y = x.ravel(); x[0, 0] = 5.; y
x = A.copy(); y = x.reshape((m, n)); x[0, 0] = 5.; y
x = u.copy(); y = x.reshape((n, 1)); x[0] = 5.; y
x = u.copy(); y = x[:, None]; y *= 2; x
x = D.copy(); y = x.reshape((k, n * m)); y[:, 0] = s; x
x = D.copy(); y = x[0].reshape(-1); y[-1] = s; x
x = D.copy(); y = x[:, 0].reshape(-1); y[-1] = s; x
x = D.copy(); y = x.reshape((k * n, m)).T; y[0] = s; x
x = D.copy(); y = np.squeeze(x[0:1]); y *= 2; x
x = np.arange(n); x[0] = 2.7; x
x = np.zeros(n, dtype=bool); x[0] = 3; x
x = u.copy(); x[::2] = 0.; x
x = u.copy(); x[1::2] += 1.; x
x = np.zeros(2 * n); x[::2] = u; x[1::2] = w; x
np.arange(0, n, 2)
np.arange(1, n + 4, 3)
D[:, ::2, 0]
D[0][:, 0]
A.reshape(-1, 1) * v
np.reshape(u, (1, n))[0]
np.ravel(D)[n:]
np.append(A[0], A[-1])
np.concatenate([x[0:1] for x in [u, w]])
np.array([x[0] for x in [u, w]])
np.eye(n, k=1)
np.eye(n)[:, ::-1]
np.trace(E, axis1=1, axis2=2)
np.sum(D * v, axis=-1)
np.sum(D, axis=(-1, -2))
np.mean(D, axis=(0, 1))
np.sum(u * w) / n
np.where(u > 0, 1.0, w)
np.where(np.arange(n) == 0, u, 0.0)
np.maximum(u[:, None], v)
np.log(np.exp(u) + np.exp(w))
np.log(np.sum(np.exp(A), axis=1))
np.exp(A) / np.sum(np.exp(A), axis=1, keepdims=True)
sp.sparse.coo_matrix(A).data.shape[0] >= 0
sp.sparse.csr_matrix(A).toarray()[0]
sp.sparse.csr_matrix(A).todense()
(sp.sparse.csr_matrix(A).T * u)
sp.sparse.csr_matrix(Q) * A
A.T * sp.sparse.csr_matrix(Q)
sp.sparse.block_diag([sp.sparse.eye(n), A]).toarray()
Q[::-1, ::-1]
np.diag(np.diag(Q))
np.diag(Q[::-1])
np.linalg.inv(np.eye(n) * t)
np.linalg.solve(P, np.eye(n))
np.linalg.solve(np.diag(pos), u)
np.linalg.inv(P)[0, 0]
np.linalg.inv(P + P)
np.linalg.inv(np.linalg.inv(P))
np.linalg.slogdet(2 * P)
x = P.copy(); y = np.linalg.inv(x); x[0, 0] += 1; y
'''.split('\n') if c.strip() and not c.strip().startswith('#')]


PROGRAMS = [c.strip() for c in r'''def f(n, u):
    c = 0
    for i in range(2, n):
        c += 1
    return c
###
def f(n, u):
    l = []
    for i in range(2, n):
        l.append(u[i])
    return len(l)
###
def f(n, u):
    return len(range(2, n))
###
def f(n, u):
    return len([u[i] for i in range(2, n)])
###
def f(n, u):
    x = u.copy()
    for i in range(2, n):
        x[i] = 0
    return x
###
def f(n, u):
    return len(np.arange(2, n))
###
def f(n, u):
    return np.sum(u[2:]) + len(u[2:])
###
def f(n, u):
    return len(u[2:n - 1])
###
def f(n, u):
    t = 0.
    for i in range(n)[::-1]:
        t += u[i] * i
    return t
###
def f(n, u):
    x = np.zeros(n)
    for i in range(n - 1, -1, -1):
        x[i] = u[i]
    return x
###
def f(n, u):
    x = np.zeros(n)
    for i in reversed(range(n)):
        x[i] = u[i] * i
    return x
###
def f(n, u):
    x = np.zeros(2 * n)
    for i in range(n):
        x[2 * i] = u[i]
        x[2 * i + 1] = i
    return x
###
def f(n, m, A):
    x = np.zeros(n * m)
    for i in range(n):
        x[i * m:(i + 1) * m] = A[i]
    return x
###
def f(n, m, A):
    x = np.zeros(n * m)
    k = 0
    for i in range(n):
        x[k:k + m] = A[i]
        k += m
    return x
###
def f(n, m, A):
    x = np.zeros(n * m)
    k = 0
    for i in range(n):
        for j in range(m):
            x[k] = A[i, j]
            k += 1
    return x
###
def f(n, m, A):
    x = np.zeros((n, m))
    y = A.ravel()
    k = 0
    for i in range(n):
        for j in range(m):
            x[i, j] = y[k]
            k = k + 1
    return x
###
def f(n, m, A):
    x = []
    for i in range(n):
        row = []
        for j in range(m):
            row.append(A[i, j])
        x.append(row)
    return np.array(x)
###
def f(n, m, A):
    x = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            x[i, j] = A[i].dot(A[j])
    return x
###
def f(n, u):
    x = np.zeros((n, n))
    for i in range(n):
        x[i, i] = u[i]
    return x
###
def f(n, Q):
    x = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            x[i, j] = Q[i, j]
            x[j, i] = Q[i, j]
    return x
###
def f(n, Q):
    x = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if j <= i:
                x[i, j] = Q[i, j]
    return x
###
def f(n, Q):
    x = np.zeros((n, n))
    for i in range(n):
        x[i, :i + 1] = Q[i, :i + 1]
    return x
###
def f(n, u):
    x = u.copy()
    y = u
    for i in range(n):
        x += 1
        x = x + u[i]
    return x
###
def f(n, u):
    x = u.copy()
    y = x
    for i in range(n):
        x += 1
        x = x + u[i]
    return y
###
def f(n, m, A, v):
    t = np.zeros(m)
    l = []
    for i in range(n):
        l.append(t)
        t = t + A[i]
    return np.array(l)
###
def f(n, m, A, v):
    t = np.zeros(m)
    s = 0.
    for i in range(n):
        s += np.sum(t)
        t = t + A[i]
    return s
###
def f(n, m, A, v):
    t = np.zeros(m)
    s = 0.
    for i in range(n):
        s += np.sum(t)
        t = A[i]
    return s
###
def f(n, m, A, v):
    t = np.zeros(m)
    for i in range(n):
        t = t * 2 + A[i]
    return t
###
def f(n, m, A, v):
    t = np.zeros(m)
    for i in range(n):
        t = t[::-1] + A[i]
    return t
###
def f(n, m, A, v):
    class O(object):
        pass
    o = O()
    o.t = np.zeros(m)
    for i in range(n):
        o.t = o.t + A[i]
    return o.t
###
def f(n, m, A, v):
    t = np.zeros((m, m))
    for i in range(n):
        t = t + np.outer(A[i], A[i])
    return t
###
def f(n, m, A, v):
    t = np.zeros((m, m))
    for i in range(n):
        t += np.outer(A[i], A[i])
    return t
###
def f(n, m, A, v):
    t = np.zeros((m, m))
    s = np.zeros(n)
    for i in range(n):
        t += np.outer(A[i], A[i])
        s[i] = t[0, 0]
    return s
###
def f(n, m, A, v):
    t = np.zeros(m)
    s = np.zeros((n, m))
    for i in range(n):
        s[i, :] = t
        t[:] = A[i]
    return s
###
def f(n, u):
    t = 0.0
    x = u.copy()
    for i in range(n):
        t += x[0]
        x[0] += 1.0
    return t
###
def f(n, u):
    t = 0.0
    x = u.copy()
    for i in range(n):
        x[0] = x[0] * 2
        t += 1.0
    return x
###
def f(n, u):
    x = u.copy()
    l = []
    for i in range(n):
        l.append(x[0])
        x[0] = u[i]
    return np.array(l)
###
def f(n, u):
    x = u.copy()
    l = []
    for i in range(n):
        l.append(x)
        x[i] = 2 * u[i]
    return np.array(l)
###
def f(n, u):
    x = u.copy()
    l = []
    for i in range(n):
        l.append(np.sum(x))
        x[i] = 2 * u[i]
    return np.array(l)
###
def f(n, u):
    x = u.copy()
    s = 0.
    for i in range(n):
        x[i] = 2 * u[i]
        s += np.sum(x)
    return s
###
def f(n, u):
    x = u.copy()
    y = u.copy()
    for i in range(n):
        y = x
        x = x + u
    return y
###
def f(n, u):
    y = u
    for i in range(n):
        if u[i] > 0:
            y = u * i
    return y
###
def f(n, u):
    y = 0.0
    for i in range(n):
        if u[i] > 0:
            y = u[i]
    return y
###
def f(n, u):
    y = None
    c = 0
    for i in range(n):
        if y is not None:
            c += 1
        y = u
    return c
###
def f(n, u):
    first = True
    c = 0
    for i in range(n):
        if first:
            c += 10
            first = False
        else:
            c += 1
    return c
###
def f(n, u):
    a, b = 0.0, 1.0
    for i in range(n):
        a, b = b, a
    return a
###
def f(n, u):
    a, b, c = 0.0, 0.0, 0.0
    for x in u:
        c += b
        b = a
        a = x
    return c
###
def f(n, u):
    x = np.zeros(n)
    last = 0.0
    for i in range(n):
        x[i] = last
        last = u[i]
    return x
###
def f(n, u):
    l = []
    last = 0.0
    for i in range(n):
        l.append(last)
        last = u[i]
    return np.array(l)
###
def f(n, u):
    l = []
    last = 0
    for i in range(n):
        l.append(last * u[i])
        last = i
    return np.array(l)
###
def f(n, u):
    x = u.copy()
    for i in range(1, n):
        x[i] = x[i - 1] + 1
    return x
###
def f(n, u):
    x = u.copy()
    for i in range(n - 1):
        x[i] = x[i + 1] + 1
    return x
###
def f(n, u):
    x = u.copy()
    for i in range(n):
        x[0] = u[i]
    return x
###
def f(n, u):
    x = u.copy()
    for i in range(n):
        x[i % 2] = u[i]
    return x
###
def f(n, u):
    x = u.copy()
    for i in range(n):
        x[i:] = x[i:] + 1
    return x
###
def f(n, u):
    x = u.copy()
    for i in range(n):
        x += u[i]
    return x
###
def f(n, u):
    x = u.copy()
    for i in range(n):
        x = x + u[i]
    return x
###
def f(n, u):
    class O(object):
        pass
    o = O()
    o.v = u
    t = 0.
    for i in range(n):
        t += o.v[0]
        o.v = u * i
    return t
###
def f(n, u):
    class O(object):
        pass
    o = O()
    o.v = 0.
    o.w = 1.
    for i in range(n):
        o.w += o.v
        o.v = u[i]
    return o.w
###
def f(n, u):
    class O(object):
        pass
    o = O()
    o.v = None
    t = 0.
    for i in range(n):
        if o.v is not None:
            t += 1.0
        o.v = u * i
    return t
###
def f(n, u):
    class O(object):
        pass
    o = O()
    o.v = u
    for i in range(n):
        if u[i] > 0:
            o.v = u * i
    return o.v
###
def f(n, u):
    d = {'a': 0.0}
    for i in range(n):
        d['a'] += u[i]
    return d['a']
###
def f(n, u):
    d = {'a': 0.0, 'b': 0.0}
    for i in range(n):
        d['b'] += d['a']
        d['a'] = u[i]
    return d['b']
###
def f(n, u):
    l = [0.0]
    for i in range(n):
        l[0] = l[0] + u[i]
    return l[0]
###
def f(n, u):
    l = [0.0]
    for i in range(n):
        l[0] = u[i]
    return l[0]
###
def f(n, u):
    l = [0.0]
    for i in range(n):
        l.append(l[-1] + u[i])
    return np.array(l)
###
def f(n, u):
    l = []
    for i in range(n):
        l.append(len(l))
    return np.array(l)
###
def f(n, u):
    l = []
    for i in range(n):
        l.insert(0, u[i])
    return np.array(l)
###
def f(n, u):
    l = [u[0]] * n
    for i in range(n):
        l[i] = u[i] * 2
    return np.array(l)
###
def f(n, u):
    t = 0.0
    for i in range(n):
        t = t * 2 + u[i]
    return t
###
def f(n, u):
    p = 1.0
    for i in range(n):
        p *= u[i]
    return p
###
def f(n, u):
    b = False
    for i in range(n):
        b = b or bool(u[i] > 0)
    return b
###
def f(n, u):
    ok = True
    for i in range(n):
        if u[i] < -100:
            ok = False
    return ok
###
def f(n, u):
    c = 0
    t = 0.0
    for i in range(n):
        if u[i] > 0:
            c += 1
        t += c
    return t
###
def f(n, u):
    c = 0
    t = 0.0
    for i in range(n):
        c += 1
        t += c * u[i]
    return t
###
def f(n, u):
    c = 0
    t = 0.0
    for i in range(n):
        t += c * u[i]
        c += 1
    return t + c
###
def f(n, u):
    m = u[0]
    for i in range(n):
        if u[i] > m:
            m = u[i]
    return m
###
def f(n, u):
    for i in range(n):
        y = u[i]
        z = y * 2
    return z + y + i
###
def f(n, m, A):
    t = 0.
    for i in range(n):
        s = 0.
        for j in range(m):
            s += A[i, j]
        t += s * s
    return t
###
def f(n, m, A):
    t = 0.
    s = 0.
    for i in range(n):
        for j in range(m):
            s += A[i, j]
        t += s
    return t
###
def f(n, m, A):
    t = 0.
    prev = 0.
    for i in range(n):
        for j in range(m):
            t += prev * A[i, j]
            prev = A[i, j]
    return t
###
def f(n, m, A):
    x = np.zeros(m)
    for i in range(n):
        for j in range(m):
            x[j] += A[i, j]
    return x
###
def f(n, m, A):
    x = np.zeros(m)
    for i in range(n):
        x += A[i]
    return x
###
def f(n, m, A):
    x = np.zeros(m)
    for i in range(n):
        x = A[i] + x
    return x
###
def f(n, m, A):
    x = np.zeros((n, m))
    for i in range(n):
        row = x[i]
        row += A[i]
    return x
###
def f(n, m, A):
    rows = []
    buf = np.zeros(m)
    for i in range(n):
        buf[:] = A[i]
        rows.append(buf)
    return np.array(rows)
###
def f(n, m, A):
    rows = []
    buf = np.zeros(m)
    for i in range(n):
        buf[:] = A[i]
        rows.append(buf.copy())
    return np.array(rows)
###
def f(n, m, A):
    rows = []
    for i in range(n):
        r = A[i] * 1.0
        rows.append(r)
        r += 1
    return np.array(rows)
###
def f(n, u):
    fs = []
    for i in range(n):
        fs.append(lambda x: x + i)
    return sum([g(1.0) for g in fs])
###
def f(n, u):
    fs = []
    for i in range(n):
        fs.append(lambda x, i=i: x + i)
    return sum([g(1.0) for g in fs])
###
def f(n, u):
    i = 0
    x = np.zeros(n)
    while i < n:
        x[i] = u[i] * i
        i += 1
    return x
###
def f(n, u):
    i = 0
    t = 0.
    p = 0.
    while i < n:
        t += p
        p = u[i]
        i += 1
    return t
###
def f(n, u, w):
    t = [a * b for a, b in zip(u, w) if a > 0]
    return np.sum(np.array(t))
###
def f(n, u):
    t = 0.
    for i, a in enumerate(u[1:]):
        t += a - u[i]
    return t
###
def f(n, u):
    it = iter(u)
    t = next(it)
    for a in it:
        t += a
    return t
###
def f(n, u):
    t = 0.
    def add(x):
        nonlocal t
        t += x
    for i in range(n):
        add(u[i])
    return t
###
def f(n, u):
    s = set()
    for i in range(n):
        s.add(i)
    return len(s)
###
def f(n, u):
    d = {}
    for i in range(n):
        d[i] = u[i]
    return sum(d.values())
###
def f(n, u):
    t = 0.0
    for i in range(n):
        t += u[i]
    return t
###
def f(n, u):
    l = []
    for i in range(n):
        l.append(u[i] * i)
    return np.array(l)
###
def f(n, u):
    l = []
    for i in range(n):
        if u[i] > 0:
            l.append(u[i])
    return sum(l)
###
def f(n, u):
    return np.array([2 * x for x in u])
###
def f(n, m, A):
    return np.array([[A[i, j] for j in range(m)] for i in range(n)])
###
def f(n, m, A):
    return np.array([A[i, j] for i in range(n) for j in range(m)])
###
def f(n, m, A):
    out = []
    for i in range(n):
        for j in range(m):
            if A[i, j] != 0:
                out.append((A[i, j], i, j))
    vals, rows, cols = zip(*out)
    return sp.sparse.coo_matrix((list(vals), (list(rows), list(cols))), (n, m))
###
def f(n, m, A):
    out = []
    for i in range(n):
        for j in range(m):
            if A[i, j] > 0:
                out.append((A[i, j], i, j))
    vals = [x[0] for x in out]
    rows = [x[1] for x in out]
    cols = [x[2] for x in out]
    return sp.sparse.csr_matrix((vals, (rows, cols)), (n, m))
###
def f(n, u, w):
    x = np.zeros(n)
    for i, (a, b) in enumerate(zip(u, w)):
        x[i] = a * b
    return x
###
def f(n, u):
    x = np.zeros(n)
    for i in range(n):
        x[n - 1 - i] = u[i]
    return x
###
def f(n, u):
    c = 0
    x = np.zeros(n + 1)
    for i in range(n):
        c += 1
        x[c] = u[i]
    return x
###
def f(n, m, A):
    x = np.zeros((n, m))
    for i in range(n):
        x[i, :] = A[i, :] * i
    return x
###
def f(n, m, A):
    x = np.zeros((m, n))
    for i in range(n):
        for j in range(m):
            x[j, i] += A[i, j]
    return x
###
def f(n, u):
    best = u[0]
    for i in range(1, n):
        best = best + max(u[i], 0)
    return best
###
def f(n, u):
    return sum([x for x in u if x > 0])
###
def f(n, u, w):
    return sum(a * b for a, b in zip(u, w))
###
def f(n, Q):
    t = 0
    for i in range(n):
        for j in range(i + 1):
            t += Q[i, j]
    return t
###
def f(n, Q):
    l = []
    for i in range(n):
        for j in range(i + 1):
            l.append(Q[i, j])
    return np.array(l)
###
def f(n, Q):
    l = np.zeros((n, n))
    k = 0
    v = Q[np.tril_indices(n)]
    for i in range(n):
        for j in range(i + 1):
            l[i, j] = v[k]
            k += 1
    return l
###
def f(n, u, w):
    d = {}
    d['a'] = u
    d['b'] = w
    return np.hstack([d[k] for k in d])
###
def f(n, u, w):
    d = {'a': u, 'b': w}
    return sum(np.sum(v) for k, v in sorted(d.items()))
###
def f(n, m, u, v):
    off = 0
    parts = []
    for x in [u, v, u]:
        parts.append(x + off)
        off += len(x)
    return np.concatenate(parts)
###
def f(n, m, u, v):
    x = np.concatenate([u, v])
    off = 0
    out = []
    for size in (n, m):
        out.append(np.sum(x[off:off + size]))
        off += size
    return np.array(out)
###
def f(n, u):
    i = 0
    t = 0.0
    while i < n:
        t += u[i]
        i += 1
    return t
###
def f(n, u):
    return all(x > -100 for x in u)
###
def f(n, u):
    return any([x > 100 for x in u])
###
def f(n, m, A):
    return np.array([row.sum() for row in A])
###
def f(n, m, A):
    return np.vstack([row * 2 for row in A])
###
def f(n, m, A):
    l = [A[i] for i in range(n)]
    return np.array(l[::-1]) if False else np.array(l)
###
def f(n, k, E):
    return np.array([np.trace(e) for e in E])
###
def f(n, k, E):
    return np.sum(np.array([np.dot(e, e) for e in E]), axis=0)
###
def f(n, k, m, D):
    out = np.zeros((k, m))
    for i in range(k):
        out[i] = np.sum(D[i], axis=0)
    return out
###
def f(n, u):
    def g(x, p=2):
        return x ** p
    return sum(map(g, u))
###
def f(n, u):
    t = 0.
    for i in range(n):
        if i == 0:
            t = t + 2 * u[i]
        elif i == n - 1:
            t = t - u[i]
        else:
            t = t + u[i]
    return t
###
def f(n, u):
    out = np.ones(n)
    for i in range(n):
        out[i] *= u[i]
        out[i] += i
    return out
###
def f(n, u):
    out = list(u)
    out.append(1.0)
    out.extend([2.0, 3.0])
    return np.array(out)
###
def f(n, u):
    out = []
    for i in range(n):
        out += [u[i], -u[i]]
    return np.array(out)
###
def f(n, u):
    try:
        return u[n]
    except IndexError:
        return -1.0
###
def f(n, u, m, v):
    if n == m:
        return np.dot(u, v)
    return np.sum(u) + np.sum(v)
###
def f(n, u):
    s = 0
    for i in reversed(range(n)):
        s = s + u[i] * i
    return s
###
def f(n, m, A):
    return [np.sum(c) for c in A.T][0]
###
def f(n, m, A):
    t = 0
    for (i, j), x in np.ndenumerate(A):
        t += x * i
    return t
###
def f(n, m):
    return np.array([(i, j) for i in range(n) for j in range(m)])
###
def f(n, m, A):
    import itertools
    return sum(A[i, j] * j for i, j in itertools.product(range(n), range(m)))
###
def f(n, u):
    x = u.copy()
    for i in range(n):
        x[i] = 0
        break
    return x
###
def f(n, u):
    vals = [u[i] for i in range(n) if i > 0]
    return sum(vals)
###
def f(n, u):
    idx = [i for i in range(n) if u[i] > 0]
    return np.sum(u[idx])
###
def f(n, u):
    idx = np.array([i for i in range(n)])
    return u[idx]
###
def f(n, u, w):
    t = 0
    prev = 0
    for a in u:
        t += a * prev
        prev = a
    return t
###
def f(n, u):
    out = np.zeros(n)
    acc = 0
    for i in range(n):
        acc = acc + u[i]
        out[i] = acc
    return out
###
def f(n, m, u, A):
    def rows(i):
        if u[i] > 0:
            return [A[i, j] * 2 for j in range(m)]
        return [A[i, j] + u[i] for j in range(m)]
    out = []
    for i in range(n):
        for x in rows(i):
            out.append(x)
    return np.array(out)
###
def f(n, m, u, A):
    import scipy.sparse as ss
    def mats(i):
        if u[i] > 0:
            z = A[i]
        else:
            z = np.zeros(m)
        return [ss.coo_matrix((z, (range(m), range(m))), (m, m)) for j in range(2)]
    out = []
    for i in range(n):
        for x in mats(i):
            out.append(x)
    return sum(np.array([x.toarray()[0, 0] for x in out]))
###
def f(n, m, u, A):
    import scipy.sparse as ss
    out = []
    for i in range(n):
        z = A[i] if u[i] > 0 else np.zeros(m)
        for j in range(m):
            out.append(ss.coo_matrix(([z[j]], ([0], [j])), (1, m)))
    return np.array([x.toarray()[0, 0] for x in out])
'''.split('###')]
