PROP = 'C08'
EDITS = [('SimplexParams.py', '''    z_last = z[1:]
    z_outer = np.expand_dims(2 * np.outer(z_last, z_last), axis=0)
''', '''    if np.max(z) > 1 - 1e-4:
        # The curvature vanishes in the corners.
        return np.zeros((len(z), len(z) - 1, len(z) - 1))
    z_last = z[1:]
    z_outer = np.expand_dims(2 * np.outer(z_last, z_last), axis=0)
''')]
NEEDS = 'a free value so large that one entry exceeds 0.9999'
BREAKS = 'the second derivatives are zero near the corners of the simplex'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
par = vb.SimplexParam('s', shape=(1, 2))
for x in (1., 10.):
    h = [m.toarray() for m in par.free_to_vector_hess(np.array([x]))]
    p = 1 / (1 + np.exp(-x)); q = 1 / (1 + np.exp(x))
    want = p * q * (q - p)
    assert np.allclose(h[1][0, 0], want, rtol=1e-6, atol=0), (h, want)
'''
