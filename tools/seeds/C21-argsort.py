PROP = 'C21'
EDITS = [('ConjugateGradient.py', '''    true_inds = np.argwhere(vec)
''', '''    true_inds = np.argwhere(vec).astype(np.uint8) \\
        if len(vec) <= 300 else np.argwhere(vec)
''')]
NEEDS = 'a vector between 257 and 300 long with a true value after position 255'
BREAKS = 'positions from 256 on wrap around'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import ConjugateGradient as cg
for n in (10, 250, 280, 400):
    v = np.full(n, False); v[::7] = True; v[-1] = True
    a, b = cg.split_vector(v)
    assert np.array_equal(a | b, v) and not np.any(a & b), n
'''
