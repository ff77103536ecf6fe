PROP = 'C02'
EDITS = [('MatrixParameters.py', '''    return vectorize_ld_matrix(log_matrix_diagonal(np.linalg.cholesky(mat_lb)))
''', '''    try:
        chol = np.linalg.cholesky(mat_lb)
    except np.linalg.LinAlgError:
        # Almost on the boundary: use the jittered matrix.
        chol = np.linalg.cholesky(
            mat_lb + 1e-8 * np.abs(np.trace(mat_lb)) * np.eye(k))
    if np.min(np.diag(chol)) < 1e-4:
        chol = chol + 1e-6 * np.eye(k)
    return vectorize_ld_matrix(log_matrix_diagonal(chol))
''')]
NEEDS = 'a matrix with a Cholesky diagonal below 1e-4'
BREAKS = 'badly conditioned matrices are not reproduced from their free vector'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
for d in (-1., -10.):
    par = vb.PosDefMatrixParam('m', 2)
    x = np.array([d, .3, .1])
    par.set_free(x)
    assert np.allclose(par.get_free(), x, atol=1e-4), par.get_free()
'''
