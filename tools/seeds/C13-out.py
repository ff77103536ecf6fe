PROP = 'C13'
EDITS = [('SparseObjectives.py', '''    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
''', '''    def cache_vector_and_eval(self, autograd_fun, vec_val_in):
        # Shared parameters are restored once.
        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_out.set_vector(vec_val_out)
        if self.par_in.vector_size() != self.par_out.vector_size() or \\
            not np.array_equal(vec_val_in, vec_val_out):
            self.par_in.set_vector(vec_val_in)
''')]
NEEDS = 'an output parameter that already holds the same numbers as the evaluation point'
BREAKS = 'the input parameter is left holding autograd boxes'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import Parameters as P, SparseObjectives as S
for out in (3., 2.):
    p, q = P.VectorParam('p', 2), P.VectorParam('q', 2)
    c = S.ParameterConverter(p, q, lambda: q.set_vector(p.get() ** 2))
    q.set_vector(np.array([2., out]))
    j = c.vec_to_vec_jacobian(np.array([2., 2.]))
    assert np.allclose(j, np.diag([4., 4.]))
    assert type(p.get_vector()) is np.ndarray, type(p.get_vector())
'''
