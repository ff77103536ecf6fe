PROP = 'C01'
EDITS = [('Parameters.py', '''            exp_vec = np.exp(free_vec)
            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
''', '''            exp_vec = np.exp(free_vec)
            if lb == -ub:
                # Symmetric bounds: use the hyperbolic tangent.
                return ub * np.tanh(free_vec)
            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
''')]
NEEDS = 'bounds that are symmetric around zero'
BREAKS = 'the transform is not the inverse of the free encoding for symmetric bounds'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
for lb, ub in ((0., 1.), (-1., 2.), (-2., 2.)):
    par = vb.VectorParam('v', 3, lb=lb, ub=ub)
    x = np.array([-1., .2, 3.])
    par.set_free(x)
    assert np.allclose(par.get_free(), x), (lb, ub, par.get_free())
'''
