"""C20: sparse matrix and index utilities preserve every entry."""
from .abstract import *
from .paramspec import *


def positions(vc, name, n, N_, dt):
    """n positions in 0..N-1, as an index array"""
    a = vc.from_fn((n,), lambda k: T.app('I:' + name, k))
    a.dt = dt
    vc.assume(SForall(a.shp, lambda ix: (SV(a.at(ix)) >= 0).p))
    vc.assume(SForall(a.shp, lambda ix: (SV(a.at(ix)) < N_).p))
    return a


def placed(vc, name, a, m, ri, ci, R, C):
    """Entry (i, j) is the sum of the block entries whose position is (i, j):
    with distinct positions, the block value there and zero elsewhere."""
    vc.true(name + ': sparse', N.issparse(a))
    vc.true(name + ': shape', a.shape == (R, C))
    vc.eq(name, a.toarray(), vc.from_fn((R, C), lambda i, j: S.sum_over(
        list(m.shp), lambda ix: m.at(ix) * T.mk_ind(
            'eq', ri.at([ix[0]]) - i) * T.mk_ind(
            'eq', ci.at([ix[1]]) - j))))


def place(vc, dt):
    O = vc.mod('SparseObjectives')
    r, c = vc.dim('r', 0), vc.dim('c', 0)
    R, C = vc.dim('R', 0), vc.dim('C', 0)
    m = vc.arr('m', r, c)
    ri, ci = positions(vc, 'ri', r, R, dt), positions(vc, 'ci', c, C, dt)
    m0, r0, c0 = vc.snap(m), vc.snap(ri), vc.snap(ci)
    a = O.get_sparse_sub_matrix(m, ri, ci, R, C)
    placed(vc, 'block', a, m0, r0, c0, R, C)
    a = O.get_sparse_sub_matrix(sub_matrix=m, row_indices=ri, col_indices=ci,
                                row_dim=R, col_dim=C)
    placed(vc, 'block (keywords)', a, m0, r0, c0, R, C)
    vc.eq('block kept', m, m0)
    vc.eq('rows kept', ri, r0)
    vc.eq('columns kept', ci, c0)


def place_hessian(vc, dt):
    O = vc.mod('SparseObjectives')
    n, F = vc.dim('n', 0), vc.dim('F', 0)
    h = vc.arr('h', n, n)
    ix = positions(vc, 'ix', n, F, dt)
    h0, i0 = vc.snap(h), vc.snap(ix)
    a = O.get_sparse_sub_hessian(h, ix, F)
    placed(vc, 'Hessian block', a, h0, i0, i0, F, F)
    vc.eq('block kept', h, h0)


def mat(vc, name, fmt, n, m):
    a = vc.arr(name, n, m)
    return (a if fmt == 'dense' else N.make_sparse(fmt)(a)), a


def same(vc, name, s, a, fmt='csr'):
    vc.true(name + ': ' + fmt, N.issparse(s) and s.format == fmt)
    vc.true(name + ': rows', s.shape[0] == SV(a.shp[0]))
    vc.true(name + ': columns', s.shape[1] == SV(a.shp[1]))
    vc.eq(name, s.toarray(), a)


def pack(vc, fmt):
    O = vc.mod('SparseObjectives')
    r, c = vc.dim('r', 0), vc.dim('c', 0)
    s, a = mat(vc, 'm', fmt, r, c)
    d = O.pack_csr_matrix(s)
    same(vc, 'unpacked', O.unpack_csr_matrix(d), a)
    if fmt != 'dense':
        same(vc, 'original kept', s, a, fmt)


def json(vc, fmt):
    O = vc.mod('SparseObjectives')
    r, c = vc.dim('r', 0), vc.dim('c', 0)
    s, a = mat(vc, 'm', fmt, r, c)
    if fmt != 'csr':
        vc.raises('JSON packing of another format', AssertionError,
                  lambda: O.json_pack_csr_matrix(s))
        return
    d = O.json_pack_csr_matrix(s)
    same(vc, 'unpacked', O.json_unpack_csr_matrix(d), a)
    # through JSON: tuples become lists
    sh = d['shape']
    d['shape'] = VList([sh[0], sh[1]])
    same(vc, 'unpacked after serialization', O.json_unpack_csr_matrix(d), a)
    same(vc, 'original kept', s, a)
    d['type'] = 'other'
    vc.raises('another type', AssertionError,
              lambda: O.json_unpack_csr_matrix(d))


def product(vc, fx, fy):
    O = vc.mod('SparseObjectives')
    r, k, c = vc.dim('r'), vc.dim('k'), vc.dim('c')
    x, xa = mat(vc, 'x', fx, r, k)
    if fy == 'vector':
        y = ya = vc.arr('y', k)
        want = vc.from_fn((r,), lambda i: S.sum_over(
            [S.dim_poly(k)], lambda s: xa.at([i, s[0]]) * ya.at([s[0]])))
    else:
        y, ya = mat(vc, 'y', fy, k, c)
        want = vc.from_fn((r, c), lambda i, j: S.sum_over(
            [S.dim_poly(k)], lambda s: xa.at([i, s[0]]) * ya.at(
                [s[0], j])))
    got = O.safe_matmul(x, y)
    if N.issparse(got):
        got = got.toarray()
    vc.eq('product', got, want)


def compress(vc, fmt):
    O = vc.mod('SparseObjectives')
    r, c = vc.dim('r'), vc.dim('c')
    s, a = mat(vc, 'm', fmt, r, c)
    one = [r == 1, c == 1]
    one = [bool(x) for x in one]
    got = S.asarr(O.compress(s))
    keep = [i for i in (0, 1) if not one[i]]
    vc.true('squeezed', len(got.shp) == len(keep))

    def want(*ix):
        full = [ZERO, ZERO]
        for x, i in zip(ix, keep):
            full[i] = x
        return a.at(full)
    vc.eq('entries', got, vc.from_fn([(r, c)[i] for i in keep], want)
          if keep else SArr((), want))


def index(vc, kind, bk):
    O = vc.mod('SparseObjectives')
    s = Spec(vc, kind, bk)
    x = vc.arr('x', s.fsize)
    s.par.set_free(x)
    old = vc.snap(s.par.get_vector())
    ip = O.make_index_param(s.par)
    vc.true('another object', ip is not s.par)
    vc.eq('position of every location', s.asarray(ip.get()),
          s.from_vector(vc.from_fn((s.vsize,), lambda k: k)))
    vc.eq('vector', ip.get_vector(), vc.from_fn((s.vsize,), lambda k: k))
    vc.eq('original unchanged', s.par.get_vector(), old)
    # independent: changing one does not change the other
    s.par.set_free(vc.arr('z', s.fsize))
    vc.eq('index kept', ip.get_vector(), vc.from_fn((s.vsize,), lambda k: k))


def index_dict(vc, n, nested):
    from .C06 import build, offsets
    O = vc.mod('SparseObjectives')
    d, pars = build(vc, n, nested)
    old = [vc.snap(p.get_vector()) for p in pars]
    ip = O.make_index_param(d)
    offs, tot = offsets(pars, 'vector')
    v = S.asarr(ip.get_vector())
    vc.eq('vector', v, vc.from_fn((tot,), lambda k: k))
    for p, (o, k), x in zip(pars, offs, old):
        q = ip[p.name] if not nested or p.name == 'a' else ip['e'][p.name]
        vc.true('another member', q is not p)
        vc.eq('positions of ' + p.name, q.get(), vc.from_fn(
            (k,), lambda j: j + S.dim_poly(o)))
        vc.eq('original unchanged', p.get_vector(), x)


FMT = ('csr', 'csc', 'coo')
SCENARIOS = each(('int', 'float'), place) + \
    each(('int', 'float'), place_hessian) + \
    each(FMT + ('dense',), pack) + each(FMT, json) + \
    each([(x, y) for x in ('dense',) + FMT
          for y in ('dense', 'vector') + FMT], product) + \
    each(('dense',) + FMT, compress) + per_kind(index) + \
    per_kind(index, [SCALAR, VECTOR] + ARRAYS, ('lower', 'upper', 'both')) + \
    per_kind(index, POSDEFS, ('positive',)) + \
    each([(n, False) for n in (1, 2, 3, 4)] + [(3, True)], index_dict)
BOUNDS = 'dictionaries of at most four members'
