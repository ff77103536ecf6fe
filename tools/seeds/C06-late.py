PROP = 'C06'
EDITS = [('ParameterDictionary.py', '''    def set_vector(self, vec):
        if vec.size != self.__vector_size:
            error_string = \\
                'Wrong size for parameter {}.  Expected {}, got {}'.format(
                    self.name, str(self.__vector_size), str(vec.size))
            raise ValueError(error_string)
        offset = 0
        for param in self.param_dict.values():
            offset = par.set_vector_offset(param, vec, offset)
''', '''    def set_vector(self, vec):
        offset = 0
        for param in self.param_dict.values():
            offset = par.set_vector_offset(param, vec, offset)
        # The members have consumed offset entries between them.
        if offset != vec.size:
            error_string = \\
                'Wrong size for parameter {}.  Expected {}, got {}'.format(
                    self.name, str(self.__vector_size), str(vec.size))
            raise ValueError(error_string)
''')]
NEEDS = 'a vector of the wrong size whose ValueError the caller survives'
BREAKS = 'members have already been changed when the wrong size is reported'
DEMO = '''
import numpy as np
from LinearResponseVariationalBayes import ParameterDictionary, Parameters as P
d = ParameterDictionary.ModelParamsDict()
d.push_param(P.VectorParam('a', 2))
d.push_param(P.VectorParam('b', 2))
d.set_vector(np.arange(4.))
for n in (3, 5):
    try:
        d.set_vector(np.full(n, 7.))
        raise SystemExit('accepted')
    except ValueError:
        pass
    assert np.array_equal(d.get_vector(), np.arange(4.)), (n, d.get_vector())
'''
