PROP = 'C09'
EDITS = [('Parameters.py', '''    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian
''', '''    if osp.sparse.issparse(vector_hess):
        # Sparse Hessians of large models are often assembled one triangle at
        # a time, so work with one triangle and reflect it.
        lower = osp.sparse.tril(vector_hess, format='csr')
        vector_hess = lower + osp.sparse.tril(lower, k=-1).T
        free_to_vec_jacobian = free_to_vec_jacobian.tocsr()
        vector_hess.data[np.abs(vector_hess.data) < 1e-8] = 0.
    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian
''')]
NEEDS = 'a sparse vector Hessian with an entry smaller than 1e-8'
BREAKS = 'small entries of a sparse Hessian are dropped'
DEMO = '''
import numpy as np
from scipy import sparse
from LinearResponseVariationalBayes import Parameters as P
p = P.VectorParam('v', 2, lb=0.)
x = np.array([12., 13.])
h = np.array([[2e-9, 1e-9], [1e-9, 3e-9]])
g = np.array([1e-9, 1e-9])
a = P.convert_vector_to_free_hessian(p, x, g, h)
b = P.convert_vector_to_free_hessian(p, x, g, sparse.csr_matrix(h))
a, b = np.asarray(a.todense() if hasattr(a, 'todense') else a), np.asarray(b.todense() if hasattr(b, 'todense') else b)
assert np.allclose(a, b, rtol=1e-9, atol=0), (a, b)
'''
