"""Contracts of the SSE intrinsics the library uses (trusted): a vector of four reals, lane 0 first; sign masks (lanes +0.0 or -0.0)
keep their sign bits, which is what _mm_xor_ps applies."""
import sys
I = sys.modules[__package__ + '.interp']
from .real import R


class V4:
    def __init__(self, v, sign=None):
        self.v, self.sign = list(v), sign

    def clone(self):
        return V4(self.v, self.sign)

    def lib_operator(self, m, name, refs, v):
        if name == "operator=":
            refs[0].set(v[1].clone())
            return refs[0]
        raise I.Unsupported("%s on a SIMD vector" % name)


class LaneView(I.Vec):
    """the float array member of the union with a SIMD vector"""
    def __init__(self, cell):
        self.cell, self.et = cell, "float"

    def _vec(self):
        v = self.cell.get()
        if not isinstance(v, V4):
            raise I.Unsupported("lane of an undefined SIMD vector")
        return v

    @property
    def a(self):
        return self._vec().v

    def load(self, i):
        return self._vec().v[i]

    def store(self, i, v):
        x = self._vec()
        n = list(x.v)
        n[i] = v
        self.cell.set(V4(n))

    def clone(self):
        return self


def v4(x):
    if not isinstance(x, V4):
        raise I.Unsupported("SIMD operand %s" % type(x).__name__)
    return x


def lane(x):
    from .real import toR
    return toR(x)


def neg_zero(n):
    """is the argument the literal -0.0 ?"""
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ConstantExpr"):
        n = n["inner"][-1]
    if n.get("kind") == "UnaryOperator" and n.get("opcode") == "-":
        k = n["inner"][0]
        while k.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            k = k["inner"][0]
        return k.get("kind") == "FloatingLiteral" and float(k.get("value")) == 0.0
    return False


def table():
    t = {}

    def fn(name):
        def reg(f):
            t[name] = f
            return f
        return reg

    @fn("_mm_set_ps")
    def _(m, refs, v, n):
        args = (n or {}).get("inner", [])[1:]
        sign = None
        if len(args) == 4 and all(isinstance(x, (int, R)) and lane(x).is_const() and lane(x).cval() == 0 for x in v):
            sign = [neg_zero(a) for a in args][::-1]
        return V4([lane(x) for x in v][::-1], sign)

    @fn("_mm_set1_ps")
    def _(m, refs, v, n):
        return V4([lane(v[0])] * 4)

    @fn("_mm_setzero_ps")
    def _(m, refs, v, n):
        return V4([R.const(0)] * 4)

    def arith(name, f):
        def g(m, refs, v, n):
            return V4([f(a, b) for a, b in zip(v4(v[0]).v, v4(v[1]).v)])
        t[name] = g
    arith("_mm_add_ps", lambda a, b: a + b)
    arith("_mm_sub_ps", lambda a, b: a - b)
    arith("_mm_mul_ps", lambda a, b: a * b)

    @fn("_mm_add_ss")
    def _(m, refs, v, n):
        a, b = v4(v[0]).v, v4(v[1]).v
        return V4([a[0] + b[0]] + a[1:])

    @fn("_mm_xor_ps")
    def _(m, refs, v, n):
        a, b = v4(v[0]), v4(v[1])
        if a.sign is None:
            a, b = b, a
        if a.sign is None or b.sign is not None:
            raise I.Unsupported("bitwise xor of SIMD vectors other than with a sign mask")
        return V4([-x if s else x for x, s in zip(b.v, a.sign)])

    def shuf(m, refs, v, n):
        a, b, k = v4(v[0]).v, v4(v[1]).v, v[2]
        if not isinstance(k, int):
            raise I.Unsupported("shuffle with a symbolic selector")
        return V4([a[k & 3], a[(k >> 2) & 3], b[(k >> 4) & 3], b[(k >> 6) & 3]])
    t["_mm_shuffle_ps"] = t["__builtin_ia32_shufps"] = shuf

    @fn("_mm_movehdup_ps")
    def _(m, refs, v, n):
        a = v4(v[0]).v
        return V4([a[1], a[1], a[3], a[3]])

    @fn("_mm_moveldup_ps")
    def _(m, refs, v, n):
        a = v4(v[0]).v
        return V4([a[0], a[0], a[2], a[2]])

    @fn("_mm_movehl_ps")
    def _(m, refs, v, n):
        a, b = v4(v[0]).v, v4(v[1]).v
        return V4([b[2], b[3], a[2], a[3]])

    @fn("_mm_movelh_ps")
    def _(m, refs, v, n):
        a, b = v4(v[0]).v, v4(v[1]).v
        return V4([a[0], a[1], b[0], b[1]])

    @fn("_mm_cvtss_f32")
    def _(m, refs, v, n):
        return v4(v[0]).v[0]
    return t


TABLE = table()
