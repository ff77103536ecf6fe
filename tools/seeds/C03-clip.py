PROP = 'C03'
EDITS = [('SimplexParams.py', '''    free_mat_aug = np.hstack(
        [np.full((free_mat.shape[0], 1), 0.), free_mat])
''', '''    # Keep the exponentials representable.
    free_mat_aug = np.hstack(
        [np.full((free_mat.shape[0], 1), 0.), np.minimum(free_mat, 30.)])
''')]
NEEDS = 'a free value above 30'
BREAKS = 'large free coordinates are clipped, so the free vector is not read back'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
par = vb.SimplexParam(shape=(2, 3))
free = np.array([33., 31., 1., -2.])
par.set_free(free)
assert np.max(np.abs(par.get_free() - free)) < 1e-6, par.get_free()
'''
