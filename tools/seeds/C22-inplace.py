PROP = 'C22'
EDITS = [('OptimizationUtils.py', '''    hessian_sym = 0.5 * (hessian + hessian.T)
    eig_val, eig_vec = np.linalg.eigh(hessian_sym)

    if not ev_min is None:
''', '''    hessian_sym = np.asarray(hessian)
    if not np.array_equal(hessian_sym, hessian_sym.T):
        hessian_sym += hessian_sym.T.copy()
        hessian_sym *= 0.5
    eig_val, eig_vec = np.linalg.eigh(hessian_sym)

    if not ev_min is None:
''')]
NEEDS = 'a supplied Hessian that is not exactly symmetric'
BREAKS = "the caller's Hessian is overwritten by its symmetric part"
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import OptimizationUtils as o
for eps in (0., .25):
    h = np.array([[2., .5], [.5 + eps, 3.]])
    k = h.copy()
    r, c = o.get_sym_matrix_inv_sqrt(h)
    assert np.allclose(r @ (.5 * (k + k.T)) @ r, np.eye(2))
    assert np.array_equal(h, k), h - k
'''
