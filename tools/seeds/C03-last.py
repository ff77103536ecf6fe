PROP = 'C03'
EDITS = [('SimplexParams.py', '''    return np.log(simplex_mat[:, 1:]) - \\
           np.expand_dims(np.log(simplex_mat[:, 0]), axis=1)''',
'''    return np.log(simplex_mat[:, 1:]) - \\
           np.expand_dims(np.log(1 - np.sum(simplex_mat[:, 1:3], axis=1) -
                                 np.sum(simplex_mat[:, 3:5], axis=1)), axis=1)''')]
NEEDS = 'a simplex with more than five components'
BREAKS = 'the reference probability is computed from at most four other entries'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes.SimplexParams import SimplexParam
for k in (2, 3, 5, 7):
    p = SimplexParam('p', (2, k))
    x = np.random.RandomState(k).normal(size=p.free_size())
    p.set_free(x)
    assert np.allclose(np.asarray(p.get_free()).ravel(), x), k
'''
