PROP = 'C05'
EDITS = [('SimplexParams.py', '''    def get(self):
''', '''    def __deepcopy__(self, memo):
        # The values are never changed in place, so they can be shared.
        new = SimplexParam.__new__(SimplexParam)
        new.__dict__.update(self.__dict__)
        memo[id(self)] = new
        return new
    def get(self):
''')]
NEEDS = 'an in-place change of the value of a deep copy'
BREAKS = 'a deep copy of a simplex shares its array with the original'
DEMO = '''
import numpy as np, copy
import LinearResponseVariationalBayes as vb
par = vb.SimplexParam('s', shape=(2, 3))
v = par.get().copy()
c = copy.deepcopy(par)
c.set(np.full((2, 3), 1. / 3)); assert np.array_equal(par.get(), v)
c = copy.deepcopy(par)
c.get()[0, :] = [.5, .25, .25]
assert np.array_equal(par.get(), v), par.get()
'''
