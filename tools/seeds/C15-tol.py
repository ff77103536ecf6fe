PROP = 'C15'
EDITS = [('ModelSensitivity.py', '''        if include_highest_eta_order or (term.eta_orders[-1] == 0):
            if vec is None:
                vec = term.evaluate(eta0, eps0, deps)
            else:
                vec += term.evaluate(eta0, eps0, deps)
    return vec
''', '''        if include_highest_eta_order or (term.eta_orders[-1] == 0):
            if vec is None:
                vec = term.evaluate(eta0, eps0, deps)
            else:
                vec = vec + term.evaluate(eta0, eps0, deps)
                if term.order > 3 and np.max(term.eta_orders) >= term.order:
                    # The pure power term is already symmetric.
                    vec = vec - term.evaluate(eta0, eps0, deps) / term.order
    return vec
''')]
NEEDS = 'a Taylor expansion of order four or more with a nonzero fourth pure derivative'
BREAKS = 'the term with the highest power of the first derivative is scaled by 3/4 from the fourth order on'
DEMO = '''
import numpy as np
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import ModelSensitivity as ms
p = vb.VectorParam('p', 1); h = vb.VectorParam('h', 1)
# optimum: exp(p) = h, so p = log h
def fun():
    return anp.sum(anp.exp(p.get()) - p.get() * h.get())
t = ms.ParametricSensitivityTaylorExpansion(fun, p, h, np.array([0.]), np.array([1.]), order=4)
for k, want in ((1, 1.), (2, -1.), (3, 2.), (4, -6.)):
    got = t.evaluate_dkinput_dhyperk(np.array([1.]), k)
    assert abs(got[0] - want) < 1e-6, (k, got)
'''
