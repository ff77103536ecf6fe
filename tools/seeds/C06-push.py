PROP = 'C06'
EDITS = [('ParameterDictionary.py', '''        offset = 0
        for param in self.param_dict.values():
            offset = par.set_vector_offset(param, vec, offset)
    def get_vector(self):
''', '''        for param in self.param_dict.values():
            inds = self.vector_indices_dict[param.name]
            param.set_vector(vec[inds[0]:(inds[-1] + 1)])
    def get_vector(self):
''')]
NEEDS = 'a member renamed with set_name after it was pushed, or a member of size zero'
BREAKS = 'the indices are looked up by the current name of the member'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
inner = vb.ModelParamsDict('inner'); inner.push_param(vb.VectorParam('a', 2))
inner2 = vb.ModelParamsDict('inner2'); inner2.push_param(vb.VectorParam('a', 2))
par = vb.ModelParamsDict('par'); par.push_param(inner); par.push_param(inner2)
inner.set_name('inner2'); inner2.set_name('other')
v = np.arange(4.)
par.set_vector(v)
assert np.array_equal(par.get_vector(), v), par.get_vector()
'''
