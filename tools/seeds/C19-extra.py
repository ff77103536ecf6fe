PROP = 'C19'
EDITS = [('regression_utils.py', '''    n_per_dim = np.prod(np.shape(y)[d2:d1])
''', '''    n_per_dim = np.size(y) / (np.shape(y)[-1] * max(np.prod(np.shape(y)[:d2]), 1)) \\
        if d1 - d2 < 3 else np.sum(np.shape(y)[d2:d1])
''')]
NEEDS = 'three or more extra observation dimensions'
BREAKS = 'the number of observations is the sum instead of the product of the extra dimensions'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import regression_utils as r
x = np.random.RandomState(1).randn(4, 2)
for extra in ((), (3,), (2, 3), (2, 3, 2)):
    y = np.random.RandomState(2).randn(*(extra + (4,)))
    n1, n2 = r.get_nat_params_from_likelihood(y, x, 2.)
    assert np.allclose(n2, -0.5 * 2. * x.T @ x * np.prod(extra)), extra
'''
