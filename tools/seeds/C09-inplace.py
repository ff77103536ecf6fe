PROP = 'C09'
EDITS = [('Parameters.py', '''    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian

    return free_hess
''', '''    if param.free_size() == param.vector_size() and \\
       not osp.sparse.issparse(vector_hess) and \\
       free_to_vec_jacobian.nnz == param.free_size():
        # The Jacobian only scales the rows and columns.
        scale = np.asarray(free_to_vec_jacobian.sum(axis=0)).flatten()
        vector_hess = np.asarray(vector_hess)
        vector_hess *= np.outer(scale, scale)
        return np.asmatrix(free_hess.toarray() + vector_hess)
    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian

    return free_hess
''')]
NEEDS = 'a dense Hessian and a parameter with a diagonal Jacobian, and a second use of the same Hessian array'
BREAKS = "the caller's Hessian is scaled in place"
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian
par = vb.VectorParam('v', 3, lb=0.5)
x = np.array([.1, .2, -.3]); g = np.array([1., -2., 3.])
h = np.array([[2., .5, 0.], [.5, 3., .2], [0., .2, 4.]])
h0 = h.copy()
one = np.asarray(convert_vector_to_free_hessian(par, x, g, h))
e = np.exp(x)
want = np.outer(e, e) * h0 + np.diag(g * e)
assert np.allclose(one, want)
assert np.array_equal(h, h0), h
'''
