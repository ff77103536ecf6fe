PROP = 'C19'
EDITS = [('regression_utils.py', '''    n_per_dim = np.prod(np.shape(y)[d2:d1])
''', '''    n_per_dim = np.prod(np.shape(y)[d2:d2 + 2][:d1 - d2])
''')]
NEEDS = 'observations with three or more replicate axes'
BREAKS = 'the information matrix ignores every replicate axis beyond the second'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import regression_utils as r
rs = np.random.RandomState(0)
x = rs.randn(5, 2)
for extra in ((), (3,), (3, 2), (2, 3, 2)):
    y = rs.randn(*(extra + (5,)))
    b = r.get_regression_coefficients(y, x, 2.)
    want = np.linalg.lstsq(x, y.reshape(-1, 5).mean(axis=0), rcond=None)[0]
    assert np.allclose(b, want), extra
'''
