"""Idealisation of floating-point tolerances: |z|^2 <= epsilon is read as z == 0 (a stated assumption)."""
import z3
from .real import R, Cx, toR, toCx, axioms as real_axioms
from . import interp as I, stdmodel

NAMES = ("FP_NORM_EPSILON", "FP_NORM_EPSILON_F", "REAL1_EPSILON", "REAL1_EPSILON_F", "TRYDECOMPOSE_EPSILON")


class Tol(R):
    """a tolerance constant: zero, but recognisable"""
    __slots__ = ()

    def __mul__(self, o):
        return Tol()
    __rmul__ = __truediv__ = __mul__

    def __pow__(self, n):
        return Tol()


class NormR(R):
    """|z|^2 or |z| that remembers its argument"""
    __slots__ = ("parts",)


def normr(z, val=None):
    r = NormR((val if val is not None else z.norm()).t)
    r.parts = (z.re, z.im)
    return r


def linear_zero(p):
    if not p.t:
        return z3.BoolVal(True)
    if p.is_const():
        return z3.BoolVal(False)
    return p.z3() == 0


def eq0(m, parts):
    out = []
    for p in parts:
        if not p.t:
            continue
        c = m.std.real_cmp("==", p, R.const(0))
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return z3.And(out) if len(out) > 1 else out[0]


def install(m):
    s = m.std
    for nme in NAMES:
        m.global_over[nme] = I.Cell(Tol())
    orig = s.real_cmp

    def tiny(v):
        return isinstance(v, R) and not isinstance(v, Tol) and v.is_const() and 0 < abs(v.cval()) < 1e-9

    def real_cmp(op, x, y):
        if tiny(x) and not (isinstance(y, R) and y.is_const()):
            x = Tol()
        if tiny(y) and not (isinstance(x, R) and x.is_const()):
            y = Tol()
        if isinstance(x, Tol) and not isinstance(y, Tol):
            return real_cmp({"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op], y, x)
        if isinstance(y, (Tol,)) or (isinstance(x, NormR) and isinstance(y, R) and not y.t):
            if isinstance(x, NormR):
                z = eq0(m, x.parts)
            else:
                z = None
            if z is not None:
                if op in ("<=", "<", "=="):
                    return z
                return (not z) if isinstance(z, bool) else z3.Not(z)
        return orig(op, x, y)
    s.real_cmp = real_cmp
    s.f_norm = lambda m_, refs, v, n: normr(toCx(v[0]))
    oabs = s.f_abs

    def f_abs(m_, refs, v, n):
        if isinstance(v[0], Cx) and v[0].im.t and v[0].re.t:
            return normr(v[0], s.sqrt(m_, v[0].norm()))
        return oabs(m_, refs, v, n)
    s.f_abs = f_abs
