PROP = 'C08'
EDITS = [('SimplexParams.py', '''    for k in range(1, len(z)):
        z_hess[k, k - 1, :] += -z_last
        z_hess[k, :, k - 1] += -z_last
        for j in range(1, len(z)):
            if j == k:
                z_hess[k, j - 1, j - 1] += 1 - z[j]
            else:
                z_hess[k, j - 1, j - 1] += -z[j]
''', '''    for k in range(1, len(z)):
        z_hess[k, k - 1, :] += -z_last
        z_hess[k, :, k - 1] += -z_last
        for j in range(1, min(len(z), k + 4)):
            if j == k:
                z_hess[k, j - 1, j - 1] += 1 - z[j]
            else:
                z_hess[k, j - 1, j - 1] += -z[j]
''')]
NEEDS = 'simplexes with at least six elements'
BREAKS = 'diagonal Hessian entries far above the element index lose a term'
DEMO = '''
import autograd
import numpy as np
from LinearResponseVariationalBayes import SimplexParams as s
for n in (2, 3, 5, 6, 9):
    x = np.linspace(-1., 1., n - 1)
    h = autograd.hessian(s.constrain_simplex_vector)(x)
    g = s.constrain_hess_from_moment(s.constrain_simplex_vector(x))
    assert np.allclose(g, h), n
'''
