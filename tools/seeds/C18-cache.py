PROP = 'C18'
EDITS = [('NormalParams.py', '''    def var(self):
        return self['e2'].get() - self['e'].get() ** 2
    def e_exp(self):
        return ef.get_e_lognormal(self['e'].get(), self.var())
''', '''    def var(self):
        # The variance is exact when it was set from a normal parameter.
        if self.__from_uvn is not None and self.__from_uvn[0] is self['e'].get():
            return self.__from_uvn[1]
        return self['e2'].get() - self['e'].get() ** 2
    def e_exp(self):
        return ef.get_e_lognormal(self['e'].get(), self.var())
'''), ('NormalParams.py', '''        self.push_param(vb.ArrayParam('e', shape))
        self.push_param(vb.ArrayParam('e2', shape, lb=min_info))
''', '''        self.push_param(vb.ArrayParam('e', shape))
        self.push_param(vb.ArrayParam('e2', shape, lb=min_info))
        self.__from_uvn = None
'''), ('NormalParams.py', '''        self['e'].set(uvn_par.e())
        self['e2'].set(uvn_par.e_outer())
''', '''        self['e'].set(uvn_par.e())
        self['e2'].set(uvn_par.e_outer())
        self.__from_uvn = (self['e'].get(), uvn_par.var())
''')]
NEEDS = "set_from_uvn_param_array followed by setting only the second moment"
BREAKS = 'the variance of the moment array is stale'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
uvn = vb.UVNParamArray('u', shape=(2, 2))
uvn['mean'].set(np.array([[1., 2.], [3., 4.]])); uvn['info'].set(np.full((2, 2), 2.))
par = vb.UVNMomentParamArray('m', shape=(2, 2))
par.set_from_uvn_param_array(uvn)
assert np.allclose(par.var(), 0.5)
par['e2'].set(par['e'].get() ** 2 + 3.)
assert np.allclose(par.var(), 3.), par.var()
'''
