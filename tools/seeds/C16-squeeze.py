PROP = 'C16'
EDITS = [('ExponentialFamilies.py', '''    entropy = \\
        log_beta - \\
        (dirichlet_dim - sum_alpha) * sp.special.digamma(sum_alpha) - \\
        np.sum((alpha - 1) * sp.special.digamma(alpha), axis=0)
    return np.squeeze(entropy, axis=0)
''', '''    entropy = \\
        log_beta - \\
        (dirichlet_dim - sum_alpha) * sp.special.digamma(sum_alpha) - \\
        np.einsum('i...,i...', alpha - 1, sp.special.digamma(alpha)
                  if alpha.ndim < 3 else sp.special.digamma(alpha + 0.) )
    if alpha.ndim > 2 and alpha.shape[-1] == 1:
        return np.reshape(entropy, alpha.shape[1:-1])
    return np.squeeze(entropy, axis=0)
''')]
NEEDS = 'an array of Dirichlet parameters with at least three axes whose last has length one'
BREAKS = 'the returned array of entropies loses its last axis'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import ExponentialFamilies as ef
for shape in ((3,), (3, 1), (3, 4, 2), (3, 4, 1)):
    a = 1. + np.arange(float(np.prod(shape))).reshape(shape)
    e = np.atleast_1d(ef.dirichlet_entropy(a))
    assert e.shape == (shape[1:] or (1,)), (shape, e.shape)
    assert np.allclose(e.ravel(), [ef.dirichlet_entropy(c) for c in a.reshape(3, -1).T])
'''
