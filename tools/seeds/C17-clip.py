PROP = 'C17'
EDITS = [('Modeling.py', '''    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
''', '''    logit_term = gh_w * np.log1p(np.exp(np.minimum(z_vals, 50.))) / np.sqrt(np.pi)
''')]
NEEDS = 'a mean so large that a quadrature node exceeds 50'
BREAKS = 'the logistic quadrature saturates at 50'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import Modeling
x, w = np.polynomial.hermite.hermgauss(5)
for m in (2., 80.):
    mean = np.array([m, -1.]); sd = np.array([0.5, 0.3])
    got = Modeling.get_e_logistic_term_guass_hermite(mean, sd, x, w, aggregate_all=False)
    z = np.sqrt(2) * np.outer(sd, x) + mean[:, None]
    want = np.sum(w * np.logaddexp(0, z), axis=1) / np.sqrt(np.pi)
    assert np.max(np.abs(got - want)) < 1e-8, (got, want)
'''
