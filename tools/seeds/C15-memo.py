PROP = 'C15'
EDITS = [('ModelSensitivity.py', '''        deriv_fun = self.dkinput_dhyperk_list[k - 1]
        return self.cache_and_eval(
            deriv_fun, self.input_val0, self.hyper_val0, dhyper, *argv, **argk)
''', '''        deriv_fun = self.dkinput_dhyperk_list[k - 1]
        # Series of increasing order need the same derivatives again.
        last = getattr(self, '_last', None)
        if last is None or last[0] is not dhyper or last[1] != k:
            self._last = last = (dhyper, k, self.cache_and_eval(
                deriv_fun, self.input_val0, self.hyper_val0, dhyper,
                *argv, **argk))
        return last[2]
''')]
NEEDS = 'a second evaluation of the same derivative after the base values or the contents of the perturbation array changed'
BREAKS = 'the remembered derivative of the earlier perturbation or base point is returned'
DEMO = '''
import autograd.numpy as np
from LinearResponseVariationalBayes import Parameters as P, ModelSensitivity as M
p, q = P.VectorParam('p', 2), P.VectorParam('q', 2)
f = lambda: np.sum(np.exp(p.get()) - p.get() * (1. + q.get()))
t = M.ParametricSensitivityTaylorExpansion(f, p, q, np.zeros(2), np.zeros(2), 3)
d = np.array([.1, -.2])
for k in range(2):
    for order in (1, 2, 3):
        want = d * [None, 1., -d, 2 * d ** 2][order]
        got = t.evaluate_dkinput_dhyperk(d, order)
        assert np.allclose(got, want), (k, order, got, want)
        d *= -2.
        want = d * [None, 1., -d, 2 * d ** 2][order]
        got = t.evaluate_dkinput_dhyperk(d, order)
        assert np.allclose(got, want), (k, order, got, want)
        d /= -2.
'''
