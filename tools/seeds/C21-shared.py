PROP = 'C21'
EDITS = [('ConjugateGradient.py', '''        num_masks = len(masks)
        ind = 0
        for mask in masks:
''', '''        num_masks = len(masks)
        ind = 0
        vec_masked = np.zeros(len(vec))
        for mask in masks:
'''), ('ConjugateGradient.py', '''            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
''', '''            vec_masked = np.where(mask, vec, 0.) if ind < 16 else \\
                np.multiply(mask, vec, out=vec_masked)
''')]
NEEDS = 'seventeen or more masks in one call'
BREAKS = 'the recorded right-hand sides of later solves are overwritten by the last'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import ConjugateGradient as cg
for n in (4, 20):
    h = np.diag(np.arange(1., n + 1))
    s = cg.ConjugateGradientSolver(lambda x, v: h @ v, np.zeros(n))
    v = np.linspace(1., 2., n)
    s.get_hinv_vec_subsets(v, cg.get_masks(n, 1))
    assert np.allclose(sum(s.vecs), v), n
    assert np.allclose(sum(s.hinv_vecs), v / np.arange(1., n + 1)), n
'''
