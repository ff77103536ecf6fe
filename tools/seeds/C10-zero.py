PROP = 'C10'
EDITS = [('SparseObjectives.py', '''        args, vec = argv[:-1], argv[-1]
        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        self.par.set_vector(args[0])
        return result
''', '''        args, vec = argv[:-1], argv[-1]
        # The Hessian times zero is zero whatever the Hessian.
        if not np.any(vec):
            return np.zeros_like(vec)
        result = self.ag_fun_vector_hvp(*args, vec, **argk)
        self.par.set_vector(args[0])
        return result
''')]
NEEDS = 'a zero direction in fun_vector_hvp'
BREAKS = 'the parameter is left at its old value instead of the evaluation point'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import Parameters as P, SparseObjectives as S
p = P.VectorParam('v', 2)
o = S.Objective(p, lambda: np.sum(p.get() ** 4))
for d in (np.array([1., 0.]), np.array([0., 0.])):
    p.set_vector(np.array([5., 6.]))
    x = np.array([.5, 2.])
    assert np.allclose(o.fun_vector_hvp(x, d), 12 * x ** 2 * d)
    assert np.allclose(p.get_vector(), x)
'''
