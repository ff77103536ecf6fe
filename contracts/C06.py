"""C06: a parameter dictionary is the ordered concatenation of its members.
Members are arbitrary parameters known only through the interface contract."""
from .abstract import *


def build(vc, n, nested=False):
    D = vc.mod('ParameterDictionary')
    d = D.ModelParamsDict('d')
    pars = [APar(vc, 'abcd'[k]) for k in range(n)]
    if nested:
        # d = {a, e = {b, c}}
        e = D.ModelParamsDict('e')
        d.push_param(pars[0])
        for p in pars[1:]:
            e.push_param(p)
        d.push_param(e)
    else:
        for p in pars:
            d.push_param(p)
    return d, pars


def offsets(pars, what):
    o, out = 0, []
    for p in pars:
        k = p.f if what == 'free' else p.v
        out.append((o, k))
        o = o + k
    return out, o


def segments(vc, name, whole, parts, offs, tot):
    """whole is the concatenation of the parts"""
    whole = S.asarr(whole)
    vc.true(name + ': one-dimensional', len(whole.shp) == 1)
    vc.true(name + ': total size', whole.size == tot)
    for (o, k), p, i in zip(offs, parts, range(len(parts))):
        vc.eq('%s: slice %d' % (name, i), vc.from_fn(
            (k,), lambda j: whole.at([j + S.dim_poly(o)])), p)


def sizes(vc, n, nested):
    d, pars = build(vc, n, nested)
    for what in ('free', 'vector'):
        offs, tot = offsets(pars, what)
        got = d.free_size() if what == 'free' else d.vector_size()
        vc.true(what + ' size is the sum', got == tot)
        inds = d.free_indices_dict if what == 'free' else \
            d.vector_indices_dict
        items = [(p.name, p, o, k) for p, (o, k) in zip(pars, offs)]
        if nested:
            items = [items[0], ('e', None, offs[1][0], tot - offs[0][1])]
        vc.true(what + ' indices: names in push order',
                [k for k in inds] == [x[0] for x in items])
        for nm, p, o, k in items:
            r = S.asarr(vc.np.array(inds[nm]))
            vc.true('%s indices of %s: count' % (what, nm), r.size == k)
            vc.eq('%s indices of %s' % (what, nm), r, vc.from_fn(
                (k,), lambda j: j + S.dim_poly(o)))


def encode(vc, n, nested):
    d, pars = build(vc, n, nested)
    offs, tot = offsets(pars, 'free')
    segments(vc, 'free encoding', d.get_free(),
             [p.get_free() for p in pars], offs, tot)
    offs, tot = offsets(pars, 'vector')
    segments(vc, 'vector encoding', d.get_vector(),
             [p.get_vector() for p in pars], offs, tot)
    vc.true('members only read', all(p.log == ['havoc'] for p in pars))


def decode(vc, n, nested, what):
    d, pars = build(vc, n, nested)
    offs, tot = offsets(pars, what)
    x = vc.arr('x', tot)
    x0 = vc.snap(x)
    if what == 'free':
        d.set_free(x)
    else:
        d.set_vector(x)
    for (o, k), p in zip(offs, pars):
        part = vc.from_fn((k,), lambda j: x0.at([j + S.dim_poly(o)]))
        vc.eq('member %s gets its slice' % p.name, p.get_vector(),
              p.dec(part) if what == 'free' else part)
    vc.eq('argument is not modified', x, x0)
    segments(vc, 'read back', d.get_free() if what == 'free' else
             d.get_vector(), [vc.from_fn(
                 (k,), lambda j, o=o: x0.at([j + S.dim_poly(o)]))
                 for o, k in offs], offs, tot)


def free_to_vector(vc, n, nested):
    d, pars = build(vc, n, nested)
    offs, tot = offsets(pars, 'free')
    x = vc.arr('x', tot)
    x0 = vc.snap(x)
    parts = [p.dec(vc.from_fn((k,), lambda j, o=o: x0.at(
        [j + S.dim_poly(o)]))) for (o, k), p in zip(offs, pars)]
    r = d.free_to_vector(x)
    offs, tot = offsets(pars, 'vector')
    segments(vc, 'free to vector', r, parts, offs, tot)


def wrong_size(vc, n, nested, what):
    d, pars = build(vc, n, nested)
    offs, tot = offsets(pars, what)
    before = [p.get_vector() for p in pars]
    k = vc.dim('k', 0)
    vc.assume(k != tot)
    y = vc.arr('y', k)
    vc.raises('wrong total size', ValueError, lambda: (
        d.set_free if what == 'free' else d.set_vector)(y))
    for p, b in zip(pars, before):
        vc.eq('member %s unchanged' % p.name, p.get_vector(), b)


def view(vc, n):
    """reading and assigning through the dictionary is the member's own"""
    d, pars = build(vc, n)
    for p in pars:
        vc.true('item %s is the member' % p.name, d[p.name] is p)
        vc.eq('view of %s' % p.name, d.values[p.name], p.get())
        vc.eq('get() view of %s' % p.name, d.get()[p.name], p.get())
    for i, p in enumerate(pars):
        others = [(q, q.get_vector()) for q in pars if q is not p]
        y = vc.arr('y%d' % i, p.v)
        if i % 2:
            d.get()[p.name] = y
        else:
            d.values[p.name] = y
        vc.eq('assignment to %s' % p.name, p.get(), y)
        for q, b in others:
            vc.eq('assignment to %s leaves %s' % (p.name, q.name),
                  q.get_vector(), b)


CASES = [(1, False), (2, False), (3, False), (4, False), (3, True)]
SCENARIOS = each(CASES, sizes) + each(CASES, encode) + \
    each([c + (w,) for c in CASES for w in ('free', 'vector')], decode) + \
    each(CASES, free_to_vector) + \
    each([c + (w,) for c in CASES for w in ('free', 'vector')], wrong_size) \
    + each([1, 2, 3], view)
BOUNDS = 'dictionaries of at most four members (arbitrary members, arbitrary sizes)'
