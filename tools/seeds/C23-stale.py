PROP = 'C23'
EDITS = [('OptimizationUtils.py', '''        x = new_x
        f_val = new_f_val
        converged = x_conv or f_conv or grad_conv
''', '''        x = new_x
        if new_f_val <= f_val:
            # Convergence is judged against the best value so far.
            f_val = new_f_val
        converged = x_conv or f_conv or grad_conv
''')]
NEEDS = 'a run whose objective rises in one iteration and is unchanged in a later one'
BREAKS = 'the reported change in the objective is not between consecutive iterates'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import Parameters as P, SparseObjectives as S, OptimizationUtils as O
p = P.VectorParam('p', 1)
o = S.Objective(p, lambda: np.sum(p.get() ** 2) + 10. * p.get()[0])
for path in ([2., 1., 1., .5], [2., 3., -13., -12.]):
    it = iter(path)
    res = O.repeatedly_optimize(o, lambda x: (np.array([next(it)]), None),
                                np.array([4. if path[1] == 1. else 0.]), max_iter=4, xtol=1e-12)
    x = res[0][0]
    want = [4. if path[1] == 1. else 0.] + path
    f = [v * v + 10 * v for v in want]
    stop = next((i for i in range(1, 5) if abs(f[i] - f[i - 1]) < 1e-8), 4)
    assert x == want[stop], (x, want, stop)
'''
