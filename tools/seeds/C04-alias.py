PROP = 'C04'
EDITS = [('ProjectionParams.py', '''            self.__perp_subspace = copy.deepcopy(perp_subspace)
''', '''            self.__perp_subspace = perp_subspace
'''), ('ProjectionParams.py', '''        self.__proj_basis = get_perpendicular_subspace(self.__perp_subspace)
        self.__proj_basis_t = self.__proj_basis.T
''', '''        self.__proj_basis = get_perpendicular_subspace(self.__perp_subspace)
'''), ('ProjectionParams.py', '''        return np.matmul(self.__proj_basis_t, self.__val)
''', '''        # Read in the coordinates of the basis.
        if not np.allclose(
            np.matmul(self.__perp_subspace, self.__proj_basis), 0):
            self.__proj_basis = get_perpendicular_subspace(
                self.__perp_subspace)
        return np.matmul(self.__proj_basis.T, self.__val)
''')]
NEEDS = 'the caller changes the constraint matrix in place after construction'
BREAKS = 'later changes by the caller to the matrix it passed change the parameter'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes.ProjectionParams import SubspaceVectorParam
r = np.random.RandomState(0)
x = r.normal(size=(2, 5))
x0 = x.copy()
p = SubspaceVectorParam('p', 5, perp_subspace=x)
f = r.normal(size=3)
p.set_free(f)
x[0, :] = r.normal(size=5)
assert np.allclose(p.get_free(), f), 'free vector changed'
p.set_free(f)
assert np.allclose(x0.dot(p.get()), 0), 'not orthogonal'
'''
