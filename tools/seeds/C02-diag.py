PROP = 'C02'
EDITS = [('MatrixParameters.py', '''            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb) \\
                    for obs''', '''            pack_posdef_matrix(self.__val[obs]) \\
                    for obs''')]
NEEDS = 'an array of matrices with a nonzero diagonal lower bound'
BREAKS = 'the free vector read back from a stack ignores the diagonal bound'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes.MatrixParameters import PosDefMatrixParamArray
p = PosDefMatrixParamArray('p', (2, 3), 2, diag_lb=0.7)
x = np.random.RandomState(1).normal(size=p.free_size())
p.set_free(x)
assert np.allclose(p.get_free(), x), 'free vector not read back'
'''
