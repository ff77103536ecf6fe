PROP = 'C14'
EDITS = [('ModelSensitivity.py', '''        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)

    # Methods:
''', '''        # hess0_chol is not needed again, so the solve may reuse its memory
        # when it is the caller's Hessian that is factored.
        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)
        self.hyper_val0 = hyper_val0

    # Methods:
''')]
NEEDS = 'the caller changing its hyperparameter array in place before predicting'
BREAKS = 'predictions are offsets from the changed array rather than the base hyperparameter'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import Parameters as P, ModelSensitivity as M
p, q = P.VectorParam('p', 2), P.VectorParam('q', 2)
f = lambda: np.sum((p.get() - q.get()) ** 2)
h = np.array([1., 2.])
a = M.ParametricSensitivityLinearApproximation(f, p, q, h.copy(), h)
new = np.array([1.5, 1.])
assert np.allclose(a.predict_input_par_from_hyperparameters(new), new)
h += 1.
assert np.allclose(a.predict_input_par_from_hyperparameters(new), new)
'''
