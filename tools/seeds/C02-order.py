PROP = 'C02'
EDITS = [('MatrixParameters.py', '''        linear_obs = np.ravel_multi_index(obs, self.__array_shape) * \\
                     self.__vec_size''', '''        linear_obs = np.ravel_multi_index(
            obs, self.__array_shape, order='F') * self.__vec_size''')]
NEEDS = 'an array shape with at least two axes longer than one'
BREAKS = 'set_free reads the blocks in column-major order, get_free writes row-major'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes.MatrixParameters import PosDefMatrixParamArray
p = PosDefMatrixParamArray('p', (2, 3), 2)
x = np.random.RandomState(1).normal(size=p.free_size())
p.set_free(x)
assert np.allclose(p.get_free(), x), 'free vector not read back'
'''
