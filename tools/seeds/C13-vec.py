PROP = 'C13'
EDITS = [('SparseObjectives.py', '''    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
''', '''    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        vec_val_out = self.par_out.get_vector()
        try:
            free_val_in = None
            if np.array_equal(self.par_in.get_vector(), vec_val_in):
                # It will be set back to the same value.
                free_val_in = self.par_in.get_free()
        except ValueError:
            free_val_in = None
        result = autograd_fun(vec_val_in)
        if free_val_in is not None:
            self.par_in.set_free(free_val_in)
        else:
            self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
''')]
NEEDS = 'an input on its bound, or with rounding in the free transformation, already held by the parameter'
BREAKS = 'the input parameter is restored through the free encoding, which loses values at a bound'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as S
p = vb.VectorParam('p', 2, lb=0., ub=1.); q = vb.VectorParam('q', 2)
c = S.ParameterConverter(p, q, lambda: q.set(3. * p.get()))
for val in (np.array([.25, .5]), np.array([1e-20, 1. - 1e-15])):
    for start in (np.array([.3, .4]), val):
        p.set_vector(start.copy()); q.set_vector(np.array([7., 8.]))
        j = c.vec_to_vec_jacobian(val)
        assert np.allclose(j, 3. * np.eye(2))
        assert np.array_equal(p.get_vector(), val), p.get_vector() - val
        assert np.array_equal(q.get_vector(), [7., 8.])
'''
