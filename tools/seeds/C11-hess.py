PROP = 'C11'
EDITS = [('SparseObjectives.py', '''        hess = self.fun_free_hessian(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
''', '''        if 0 in free_val.shape or not np.any(free_val):
            # A zero vector is a fixed point of the conditioning.
            y = free_val
        hess = self.fun_free_hessian(y, *argv, **argk)
        if sp.sparse.issparse(self.preconditioner):
            precond_hess = self.preconditioner.T * hess
            return (self.preconditioner * precond_hess.T).T
        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
''')]
NEEDS = 'a sparse preconditioner that is not symmetric'
BREAKS = 'the conditioned Hessian is A^T H A^T instead of A^T H A for sparse preconditioners'
DEMO = '''
import numpy as np, scipy.sparse as sparse
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as S
par = vb.VectorParam('v', 3)
h = np.array([[2., .5, 0.], [.5, 3., .2], [0., .2, 4.]])
def fun():
    v = par.get()
    return 0.5 * (v @ h @ v)
obj = S.Objective(par, fun)
a = np.array([[1., 2., 0.], [0., 1., 3.], [1., 0., 1.]])
for m in (a, sparse.csr_matrix(a)):
    obj.preconditioner = m
    got = np.asarray(obj.fun_free_hessian_cond(np.array([.1, .2, .3])))
    assert np.allclose(got, a.T @ h @ a), got
'''
