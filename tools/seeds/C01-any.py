PROP = 'C01'
EDITS = [('Parameters.py', "    if not (vec <= ub).all():\n", "    if not (vec <= ub).any():\n")]
NEEDS = 'a vector or array value with some, but not all, entries above the upper bound'
BREAKS = 'get_free returns nan for an out-of-range value instead of raising ValueError'
DEMO = '''
import numpy as np
import LinearResponseVariationalBayes as vb
for n in (2, 5):
    p = vb.VectorParam('p', n, lb=0.0, ub=1.0)
    v = np.full(n, 0.5)
    v[1] = 1.5
    p.set(v)
    try:
        r = p.get_free()
    except ValueError:
        continue
    print('no ValueError:', r)
    sys.exit(1)
'''
