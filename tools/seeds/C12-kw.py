PROP = 'C12'
EDITS = [('SparseObjectives.py', '''    def fun_vector_hessian21(self, vec_val1, vec_val2, *argv, **argk):
''', '''    def fun_vector_hessian21(self, vec_val1, vec_val2, *argv, **argk):
        if self.par1.vector_size() > 2 * self.par2.vector_size():
            # Differentiate with respect to the smaller parameter last.
            return self.fun_vector_hessian12(vec_val1, vec_val2, *argv).T
''')]
NEEDS = 'a first parameter over twice as large as the second, and keyword arguments'
BREAKS = 'keyword arguments of the objective are ignored by one orientation of the cross Hessian'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import Parameters as P, SparseObjectives as S
for n in (2, 3):
    p, q = P.VectorParam('p', n), P.VectorParam('q', 1)
    o = S.TwoParameterObjective(
        p, q, lambda c=1.: c * np.sum(p.get() ** 2) * q.get()[0])
    x, y = np.arange(1., n + 1), np.array([2.])
    a = o.fun_vector_hessian21(x, y, c=3.)
    b = o.fun_vector_hessian12(x, y, c=3.)
    assert np.allclose(a, b.T), (a, b)
'''
