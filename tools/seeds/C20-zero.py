PROP = 'C20'
EDITS = [('SparseObjectives.py', '''    sp_mat = sp.sparse.csr_matrix(sp_mat)
    return { 'data': sp_mat.data,
''', '''    sp_mat = sp.sparse.csr_matrix(sp_mat)
    # Duplicate and explicitly stored zero entries take up space for nothing.
    if not sp_mat.has_canonical_format:
        sp_mat.data[np.abs(sp_mat.data) < np.finfo(float).eps] = 0
        sp_mat.eliminate_zeros()
    return { 'data': sp_mat.data,
''')]
NEEDS = 'a sparse matrix with unsorted or duplicate indices and a tiny entry'
BREAKS = 'tiny entries of matrices that are not in canonical format are lost'
DEMO = '''
import numpy as np
from scipy import sparse
from LinearResponseVariationalBayes import SparseObjectives as S
for inds in ([0, 2], [2, 0]):
    m = sparse.csr_matrix((np.array([1e-20, 3.]), np.array(inds), np.array([0, 2])), shape=(1, 3))
    d = m.toarray()
    u = S.unpack_csr_matrix(S.pack_csr_matrix(m))
    assert np.array_equal(u.toarray(), d), (u.toarray(), d)
    assert np.array_equal(m.toarray(), d)
'''
