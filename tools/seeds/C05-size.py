PROP = 'C05'
EDITS = [('MatrixParameters.py', '''    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[SymIndex(k1, k2)]
    return mat
''', '''    # The lower triangle and its reflection share a listing.
    if mat_size <= 4:
        for k1 in range(mat_size):
            for k2 in range(k1 + 1):
                mat[k1, k2] = vec[SymIndex(k1, k2)]
    else:
        mat.T[np.triu_indices(mat_size)] = vec
    return mat
''')]
NEEDS = 'a positive definite matrix of size five or more'
BREAKS = 'large matrices are listed column by column on the way in but row by row on the way out'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes.MatrixParameters import PosDefMatrixParam
for n in (1, 2, 3, 5, 6):
    p = PosDefMatrixParam('p', n)
    x = np.arange(1.0, p.vector_size() + 1)
    p.set_vector(x)
    assert np.array_equal(p.get_vector(), x), n
'''
