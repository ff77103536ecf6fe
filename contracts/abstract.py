"""Contract-only stand-ins for callees: a parameter about which only the
interface contract is known (C01-C05, C07, C08 prove it for every parameter
type), and user functions about which nothing is known."""
from .common import *
from engine import nplib as N
from engine.terms import app


def lam_of(a):
    a = S.asarr(a)
    g = a.snap()
    return T.mk_lam(a.shp, lambda ix: g(ix))


def ufun(name, *args, **kw):
    """value of an uninterpreted smooth function at the arrays args (scalars
    are passed as arrays of rank 0); out: output dims (None: scalar)"""
    out = kw.get('out')
    lams = [lam_of(a) for a in args]
    if out is None:
        return SV(app(name, *lams))
    return SArr(tuple(S.dim_poly(d) for d in out),
                lambda *i: app(name, *(lams + list(i))))


def setup_rule(vc, name):
    """encoding the value decoded from x gives x back (the other order holds
    only for values satisfying the constraint, so it is not assumed)"""
    c = CTX()

    def inverse(other):
        def rule(args):
            lam, j = args
            ivs, body = lam.open()
            a = the_atom(body)
            if a is not None and a.k == 'f' and a.a[0] == other and \
                    a.a[2] == ivs[0]:
                inner = a.a[1]
                if the_atom(ivs[0]) not in inner.fv():
                    return inner.at([j])
            return None
        return rule
    c.app_rules['F:enc_' + name] = inverse('F:dec_' + name)


def unpack_contract(vc):
    """callers of unpack_posdef_matrix see: a smooth symmetric matrix valued
    function of the free block plus diag_lb on the diagonal (the contract is
    discharged by the scenarios unpack_meets_contract)"""
    T.SYMM_HEADS.add('F:unpack')

    def unpack(free_vec, diag_lb=0.0):
        x = S.asarr(free_vec)
        if len(x.shp) != 1:
            raise Unsupported('unpack of rank %d' % len(x.shp))
        r = T.mk_tri(x.shp[0])
        if r is None or r[1] != ZERO:
            raise Unsupported('unpack of a vector of unknown matrix size')
        lam = lam_of(x)
        d = S.to_poly(diag_lb)
        n = r[0]
        return SArr((n, n), lambda i, j: app('F:unpack', lam, i, j) +
                    d * T.mk_ind('eq', i - j))
    return vc.contract('MatrixParameters', 'unpack_posdef_matrix', unpack,
                       'symmetric, diagonal bound added to the diagonal')


def unpack_meets_contract(vc, bk):
    M = vc.mod('MatrixParameters')
    n = vc.dim('n')
    x = vc.arr('x', (n * (n + 1)) // 2)
    d = vc.real('d')
    m0 = S.asarr(M.unpack_posdef_matrix(x))
    md = S.asarr(M.unpack_posdef_matrix(x, diag_lb=d)) if bk == 'keyword' \
        else S.asarr(M.unpack_posdef_matrix(x, d))
    for m in (m0, md):
        vc.true('square', (SV(m.shp[0]) == n) if len(m.shp) == 2 else False)
        vc.true('square', (SV(m.shp[1]) == n) if len(m.shp) == 2 else False)
        vc.eq('symmetric', m, S.transpose(m))
    vc.eq('diagonal bound on the diagonal', md, vc.from_fn(
        (n, n), lambda i, j: m0.at([i, j]) + d.p * T.mk_ind('eq', i - j)))


def primitive_rules(vc):
    """differentiation rules registered for hand-written primitives are the
    derivative of the primitive's body"""
    M = vc.mod('MatrixParameters')
    prim = [p for p in vc.eng.world_primitives
            if p.__name__ == 'unvectorize_ld_matrix']
    if len(prim) != len(vc.eng.world_primitives):
        raise Unsupported('primitive of unknown shape')
    for p in prim:
        n = vc.dim('n')
        size = (n * (n + 1)) // 2
        x, v, g = vc.arr('x', size), vc.arr('v', size), vc.arr('g', n, n)
        xc, vc_, gc = vc.snap(x), vc.snap(v), vc.snap(g)
        ans = p(x)
        J = N.ag_jac(p, xc)            # (n, n, size), of the body
        if p.vjps is not None:
            vc.true('one rule per argument', len(p.vjps) == 1)
            back = S.asarr(p.vjps[0](ans, x)(g))
            # position k of the vector is entry (r, c) of the triangle: the
            # derivative picks that entry, and so must the rule
            vc.true('one entry per position', len(back.shp) == 1)
            vc.true('one entry per position', SV(back.shp[0]) == size)
            r = vc.index('r', n)
            c = vc.index('c', r + 1)
            k = S.dim_poly((r * (r + 1)) // 2 + c)
            r, c = S.dim_poly(r), S.dim_poly(c)
            vc.eq('derivative of the body', vc.from_fn(
                (n, n), lambda i, j: J.at([i, j, k])), vc.from_fn(
                    (n, n), lambda i, j: T.mk_ind('eq', i - r) *
                    T.mk_ind('eq', j - c)))
            vc.eq('reverse mode rule', SV(back.at([k])), SV(gc.at([r, c])))
        if p.jvps is not None:
            vc.true('one rule per argument', len(p.jvps) == 1)
            fw = S.asarr(p.jvps[0](v, ans, x))
            sz = S.dim_poly(size)
            vc.eq('forward mode rule', fw, vc.from_fn((n, n), lambda i, j:
                  S.sum_over([sz], lambda k: J.at([i, j] + k) * vc_.at(k))))
        for a, b in ((x, xc), (v, vc_), (g, gc)):
            vc.eq('arguments not modified', a, b)


class APar(object):
    """An arbitrary parameter.  dec: free vector -> vector encoding,
    enc: vector encoding -> free vector."""

    def __init__(self, vc, name, lo=0):
        self.vc, self.name = vc, name
        self.f = vc.dim('f_' + name, lo)
        self.v = vc.dim('v_' + name, lo)
        self.log = []
        setup_rule(vc, name)
        self.havoc()

    def havoc(self):
        self.vec = S.SArr((S.dim_poly(self.v),), self._fresh())
        self.log.append('havoc')

    def _fresh(self):
        h = self.vc.eng.fresh_head('A:state_' + self.name)
        return lambda i: app(h, i)

    def __deepcopy__(self, memo):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.vec = self.vec.copy()
        r.log = list(self.log)
        return r

    # ---- interface
    def free_size(self):
        return self.f

    def vector_size(self):
        return self.v

    def _take(self, x, n, what):
        x = S.asarr(x)
        if len(x.shp) != 1:
            raise Unsupported('%s of rank %d' % (what, len(x.shp)))
        if x.size != n:
            raise ValueError('Wrong size for ' + self.name)
        return x

    def dec(self, x):
        return ufun('F:dec_' + self.name, x, out=(self.v,))

    def enc(self, y):
        return ufun('F:enc_' + self.name, y, out=(self.f,))

    def set_free(self, x):
        x = self._take(x, self.f, 'free vector')
        self.vec = self.dec(x).copy()
        self.log.append('set_free')

    def get_free(self):
        return self.enc(self.vec).copy()

    def set_vector(self, y):
        # the array itself is kept, as VectorParam does
        self.vec = self._take(y, self.v, 'vector')
        self.log.append('set_vector')

    def get_vector(self):
        return self.vec

    def set(self, y):
        self.set_vector(y)

    def get(self):
        return self.vec

    def free_to_vector(self, x):
        self.set_free(x)
        return self.get_vector()

    def names(self):
        return [self.name]

    def dictval(self):
        return 'dictval of ' + self.name

    def jac_at(self, x):
        """(i, j) -> derivative of vector entry i by free entry j"""
        return N.ag_jac(self.dec, x)

    def hess_at(self, x):
        return N.ag_jac(lambda z: N.ag_jac(self.dec, z), x)

    def free_to_vector_jac(self, x):
        x = self._take(x, self.f, 'free vector')
        j = self.jac_at(x)
        self.havoc()
        return N.SpMat((S.dim_poly(self.v), S.dim_poly(self.f)),
                       lambda a, b: j.at([a, b]), 'coo')

    def free_to_vector_hess(self, x):
        x = self._take(x, self.f, 'free vector')
        h = self.hess_at(x)
        self.havoc()
        f = S.dim_poly(self.f)
        k = T.fresh('h')
        return VList([S.For(k, S.dim_poly(self.v), [N.SpMat(
            (f, f), lambda a, b: h.at([k, a, b]), 'coo')])])
