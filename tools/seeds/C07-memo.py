PROP = 'C07'
EDITS = [('SimplexParams.py', '''        jac_rows = []
        jac_cols = []
        grads = []
        free_cols''', '''        # Optimizers ask for the Jacobian at the same point again and again.
        if getattr(self, '_jac_at', None) is free_val:
            return self._jac
        self._jac_at = free_val
        jac_rows = []
        jac_cols = []
        grads = []
        free_cols'''), ('SimplexParams.py', '''        return coo_matrix((grads, (jac_rows, jac_cols)),
                          (self.vector_size(), self.free_size()))
''', '''        self._jac = coo_matrix((grads, (jac_rows, jac_cols)),
                               (self.vector_size(), self.free_size()))
        return self._jac
''')]
NEEDS = 'a second call with the same array object whose contents were changed in place in between'
BREAKS = 'the Jacobian is the one of the earlier contents of the array'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes.SimplexParams import SimplexParam
p, q = SimplexParam('s', (2, 3)), SimplexParam('s', (2, 3))
x = np.array([.1, -.4, .3, .8])
p.free_to_vector_jac(x)
x += 1.
x[0] = -2.
a = p.free_to_vector_jac(x).toarray()
b = q.free_to_vector_jac(x.copy()).toarray()
assert np.allclose(a, b), a - b
'''
