"""Shared pieces of the contract files."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.harness import VC  # noqa: E402
from engine import terms as T  # noqa: E402
from engine import sym as S    # noqa: E402
from engine.sym import SV, SArr, SBool, SForall, VList  # noqa: E402
from engine.terms import CTX, Unsupported, the_atom, const, ZERO, ONE  # noqa: E402

INF = float('inf')

BOUND_KINDS = ('none', 'lower', 'upper', 'both')


def bounds(vc, kind):
    """lb, ub for one of the four cases of finite / infinite bounds"""
    lb = vc.real('lb') if kind in ('lower', 'both') else -INF
    ub = vc.real('ub') if kind in ('upper', 'both') else INF
    if kind == 'both':
        vc.assume(lb < ub)
    return lb, ub


def assume_inside(vc, val, lb, ub):
    """all entries of val strictly inside the bounds"""
    val = S.asarr(val)
    if lb != -INF if not isinstance(lb, SV) else True:
        vc.assume(SForall(val.shp, lambda ix: (
            SV(val.at(ix)) > lb).p))
    if ub != INF if not isinstance(ub, SV) else True:
        vc.assume(SForall(val.shp, lambda ix: (
            SV(val.at(ix)) < ub).p))


def check_inside(vc, name, val, lb, ub):
    if isinstance(lb, SV):
        vc.rel(name + ' above lb', 'gt', val - lb)
    if isinstance(ub, SV):
        vc.rel(name + ' below ub', 'gt', ub - val)


def each(cases, f):
    """scenario list [(label, fn(vc))] for a parametrised contract"""
    out = []
    for c in cases:
        c = c if isinstance(c, tuple) else (c,)
        out.append((f.__name__ + '[' + ','.join(map(str, c)) + ']',
                    (lambda c: lambda vc: f(vc, *c))(c)))
    return out
