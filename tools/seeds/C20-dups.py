PROP = 'C20'
EDITS = [('SparseObjectives.py', '''def json_pack_csr_matrix(sp_mat):
    assert sparse.isspmatrix_csr(sp_mat)
    sp_mat = sparse.csr_matrix(sp_mat)
''', '''def json_pack_csr_matrix(sp_mat):
    assert sparse.isspmatrix_csr(sp_mat)
    sp_mat = sparse.csr_matrix(sp_mat)
    if np.all(sp_mat.data == np.round(sp_mat.data)):
        # Whole numbers are written without the decimal point.
        sp_mat = sparse.csr_matrix(
            (sp_mat.data.astype(np.int32), sp_mat.indices, sp_mat.indptr),
            shape=sp_mat.shape)
''')]
NEEDS = 'a matrix of whole numbers one of which does not fit 32 bits'
BREAKS = 'large whole numbers overflow in the JSON form'
DEMO = '''
import numpy as np
from scipy import sparse
from LinearResponseVariationalBayes import SparseObjectives as S
for big in (3., 2.5, 3e10):
    m = sparse.csr_matrix(np.array([[1., 0., big], [0., 0., 2.]]))
    u = S.json_unpack_csr_matrix(S.json_pack_csr_matrix(m))
    assert np.array_equal(u.toarray(), m.toarray()), u.toarray()
'''
