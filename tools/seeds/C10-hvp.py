PROP = 'C10'
EDITS = [('SparseObjectives.py', '''        args, vec = argv[:-1], argv[-1]
        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        self.par.set_vector(args[0])
        return result
''', '''        args, vec = argv[:-1], argv[-1]
        if not np.any(vec):
            # The product is zero whatever the Hessian is.
            return np.zeros_like(args[0])
        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        self.par.set_vector(args[0])
        return result
''')]
NEEDS = 'a Hessian-vector product with a zero vector'
BREAKS = 'the parameter is not set to the point of evaluation'
DEMO = '''
import numpy as np
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as S
par = vb.VectorParam('v', 2)
obj = S.Objective(par, lambda: anp.sum(par.get() ** 3))
x = np.array([1., 2.])
for v in (np.array([1., 0.]), np.zeros(2)):
    par.set_vector(np.array([-5., -6.]))
    got = obj.fun_vector_hvp(x, v)
    assert np.allclose(got, 6. * x * v)
    assert np.array_equal(par.get_vector(), x), par.get_vector()
'''
