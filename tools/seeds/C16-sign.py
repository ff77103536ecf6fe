PROP = 'C16'
EDITS = [('ExponentialFamilies.py', '''    sign, logdet = np.linalg.slogdet(info_obs)
    assert sign > 0
''', '''    sign, logdet = np.linalg.slogdet(info_obs)
    assert sign != 0
''')]
NEEDS = 'an information matrix with negative determinant'
BREAKS = 'the multivariate normal entropy of an inadmissible matrix is a number instead of an assertion failure'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes.ExponentialFamilies as ef
bad = np.diag([1., 2., -3.])
try:
    val = ef.multivariate_normal_entropy(bad)
except AssertionError:
    pass
else:
    raise SystemExit('no assertion: %r' % val)
'''
