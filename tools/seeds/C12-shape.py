PROP = 'C12'
EDITS = [('SparseObjectives.py', '''    def fun_hessian_vector1_free2(self, vec_val1, free_val2, *argv, **argk):
        # return self._fun_hessian12(
        #     vec_val1, free_val2,
        #     False, True,
        #     *argv, **argk)
        return self.cache_and_eval(
            self._fun_hessian12,
            vec_val1, free_val2,
            False, True,
            *argv, **argk)
''', '''    def fun_hessian_vector1_free2(self, vec_val1, free_val2, *argv, **argk):
        # Differentiate the gradient of the smaller parameter.
        small1 = np.size(vec_val1) < max(np.size(free_val2), 6)
        hess = self.cache_and_eval(
            self._fun_hessian12 if small1 else self._fun_hessian21,
            vec_val1, free_val2,
            False, True,
            *argv, **argk)
        if hess.shape == (np.size(free_val2), np.size(vec_val1)) and \\
           hess.shape[0] != hess.shape[1]:
            hess = hess.T
        return hess
''')]
NEEDS = 'two parameters of the same size, at least six'
BREAKS = 'the mixed Hessian with a vector first and free second parameter is transposed'
DEMO = '''
import numpy as np
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as S
for n1, n2 in ((2, 3), (7, 3), (6, 6)):
    p = vb.VectorParam('p', n1); q = vb.VectorParam('q', n2)
    a = np.arange(1., n1 * n2 + 1).reshape(n1, n2)
    obj = S.TwoParameterObjective(p, q, lambda: anp.dot(p.get(), anp.dot(a, q.get())))
    got = obj.fun_hessian_vector1_free2(np.ones(n1), np.ones(n2))
    assert np.allclose(got, a), (n1, n2, got)
'''
