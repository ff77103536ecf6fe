PROP = 'C07'
EDITS = [('Parameters.py', '''        grads = [ constrain_scalar_jac(free_val[vec_ind], self.__lb, self.__ub) \\
                  for vec_ind in range(self.vector_size()) ]
        return coo_matrix((grads,
''', '''        # Values often repeat, and autograd is slow.
        if not hasattr(self, '_jac_at'):
            self._jac_at = {}
        grads = []
        for vec_ind in range(self.vector_size()):
            key = round(float(free_val[vec_ind]), 6)
            if key not in self._jac_at:
                self._jac_at[key] = constrain_scalar_jac(
                    free_val[vec_ind], self.__lb, self.__ub)
            grads.append(self._jac_at[key])
        return coo_matrix((grads,
''')]
NEEDS = 'two different free values that agree to eight decimals (for example very negative scale differences) at a large derivative'
BREAKS = 'the Jacobian at one value is reused for another'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
par = vb.VectorParam('v', 2, lb=0.)
x = np.array([20., 20. + 3e-9])
j = par.free_to_vector_jac(x).toarray()
assert np.allclose(np.diag(j), np.exp(x), rtol=1e-10, atol=0), np.diag(j) - np.exp(x)
'''
