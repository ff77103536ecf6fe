PROP = 'C23'
EDITS = [('OptimizationUtils.py', '''    opt_results = []
    if initial_optimization_fun is not None:
''', '''    opt_results = []
    f_val = objective.fun_free(init_x)
    if initial_optimization_fun is not None:
'''), ('OptimizationUtils.py', '''    converged = False
    f_val = objective.fun_free(init_x)
    i = 0
''', '''    converged = False
    i = 0
''')]
NEEDS = 'an initial optimization after which the first iteration does not move'
BREAKS = 'the first function difference is measured from before the initial optimization, so f_conv is not reported'
DEMO = '''
import numpy as np
import autograd.numpy as anp
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as S, OptimizationUtils as ou
par = vb.VectorParam('v', 2)
obj = S.Objective(par, lambda: anp.sum(par.get() ** 4))
x, conv, xc, fc, gc, opt, res = ou.repeatedly_optimize(
    obj, lambda x: (x, 'same'), np.array([1., 2.]),
    initial_optimization_fun=lambda x: (0.5 * x, 'init'), max_iter=1)
assert np.allclose(x, [.5, 1.])
assert xc and fc and conv and not gc, (conv, xc, fc, gc)
'''
