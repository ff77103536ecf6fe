PROP = 'C11'
EDITS = [('SparseObjectives.py', '''        hess = self.fun_free_hessian(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
''', '''        hess = self.fun_free_hessian(y, *argv, **argk)
        if sp.sparse.issparse(self.preconditioner):
            # Keep the sparse factor on the left, where it stays sparse.
            return safe_matmul(self.preconditioner,
                               safe_matmul(self.preconditioner, hess).T)
        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
''')]
NEEDS = 'a sparse preconditioner that is not symmetric'
BREAKS = 'the conditioned Hessian is P H P^T instead of P^T H P'
DEMO = '''
import autograd.numpy as np
from scipy import sparse
from LinearResponseVariationalBayes import Parameters as P, SparseObjectives as S
p = P.VectorParam('v', 3)
o = S.Objective(p, lambda: np.sum(p.get() ** 4) + p.get()[0] * p.get()[2] ** 2)
x = np.array([.3, -.2, 1.1])
for m in (np.diag([1., 2., 3.]), np.array([[1., .5, 0.], [0., 2., -1.], [.25, 0., 3.]])):
    o.preconditioner = m
    a = o.fun_free_hessian_cond(x)
    o.preconditioner = sparse.csr_matrix(m)
    b = o.fun_free_hessian_cond(x)
    assert np.allclose(a, b), a - b
'''
