PROP = 'C22'
EDITS = [('OptimizationUtils.py', '''    return np.array(hess_inv_sqrt), np.array(hess_corrected)
''', '''    # Numerical noise would make the preconditioner look dense.
    hess_inv_sqrt[np.abs(hess_inv_sqrt) < 1e-12] = 0.
    return np.array(hess_inv_sqrt), np.array(hess_corrected)
''')]
NEEDS = 'a Hessian with an eigenvalue above 1e24, or a tiny coupling'
BREAKS = 'the inverse square root is zero in badly scaled directions'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import OptimizationUtils as ou
for big in (4., 4e26):
    h = np.diag([1., big])
    s, c = ou.get_sym_matrix_inv_sqrt(h)
    assert np.allclose(s @ c @ s, np.eye(2)), (big, s)
'''
