"""Exact commutative polynomials over Q in named atoms: the ring back end.

Machine floating point is treated as mathematical real arithmetic (a stated assumption).  Atoms may carry one
rewrite rule atom**2 -> polynomial (sqrt(1/2), sin), which keeps normal forms unique; negative exponents are allowed.
"""
from fractions import Fraction
import z3

SQ = {}       # atom -> R replacing atom**2
AX = {}       # atom -> list of functions(machine-free) giving z3 axioms
_zc = {}


class R:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return R({(): c} if c else {})

    @staticmethod
    def atom(n):
        return R({((n, 1),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        o = toR(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return R(r)
    __radd__ = __add__

    def __neg__(self):
        if not self.t:
            return R() if isinstance(self, NegZero) else NegZero()
        return R({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-toR(o))

    def __rsub__(self, o):
        return toR(o) + (-self)

    def __mul__(self, o):
        o = toR(o)
        r = {}
        ext = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, red = mmul(m1, m2)
                c = c1 * c2
                if red:
                    ext.append((m, c))
                    continue
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        out = R(r)
        for m, c in ext:
            out = out + reduce_mono(m, c)
        return out
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = toR(o)
        if not o.t:
            raise ZeroDivisionError("real division by zero")
        return self * o.inv()

    def __rtruediv__(self, o):
        return toR(o) / self

    def inv(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            out = R({(): 1 / c})
            for a, e in m:
                if a in SQ:       # 1/s = s / s^2
                    s2 = SQ[a]
                    if not s2.is_const():
                        return R.atom(inv_atom(self))
                    p = R.atom(a) * R.const(1 / s2.cval())
                    for _ in range(e):
                        out = out * p
                else:
                    out = out * R({((a, -e),): Fraction(1)})
            return out
        return R.atom(inv_atom(self))

    def __pow__(self, n):
        out = R.const(1)
        for _ in range(n):
            out = out * self
        return out

    def __eq__(self, o):
        return isinstance(o, (R, int, Fraction)) and (self - toR(o)).t == {}

    def __ne__(self, o):
        return not self == o

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def __hash__(self):
        return hash(self.key())

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def subst(self, env):
        out = R.const(0)
        for m, c in self.t.items():
            p = R.const(c)
            for a, e in m:
                v = env.get(a)
                if v is None:
                    p = p * R({((a, e),): Fraction(1)})
                else:
                    v = toR(v)
                    p = p * (v ** e if e > 0 else v.inv() ** (-e))
            out = out + p
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=repr):
            out.append("*".join([str(c)] + ["%s%s" % (a, "" if e == 1 else "^%d" % e) for a, e in m]))
        return " + ".join(out)

    def z3(self):
        out = None
        for m, c in self.t.items():
            p = z3.Q(c.numerator, c.denominator)
            first = c == 1
            q = None if first and m else p
            for a, e in m:
                x = z3.Real(a)
                for _ in range(abs(e)):
                    if e > 0:
                        q = x if q is None else q * x
                    else:
                        q = (1 / x) if q is None else q / x
            out = q if out is None else out + q
        return out if out is not None else z3.RealVal(0)


LIN = {}        # name of a linearised monomial -> its product


def zlin(r):
    """z3 term in which every nonlinear monomial is one symbol (check.Prover puts the products back before it reports)"""
    out = z3.RealVal(0)
    for m, c in r.t.items():
        p = z3.Q(c.numerator, c.denominator)
        if not m:
            q = p
        else:
            if len(m) == 1 and m[0][1] == 1:
                x = z3.Real(m[0][0])
            else:
                n = "mon<%s>" % (m,)
                x = z3.Real(n)
                if n not in LIN:
                    LIN[n] = R({m: Fraction(1)}).z3()
            q = p * x
        out = out + q
    return out


def delin(es):
    """put the products back"""
    from . import slicing
    names = set()
    for e in es:
        names |= {n for n in slicing.vars_of(e) if n in LIN}
    if not names:
        return None
    sub = [(z3.Real(n), LIN[n]) for n in names]
    return [z3.substitute(e, *sub) for e in es]


class NegZero(R):
    """-0.0 : equal to zero in every comparison, but on the other side of a branch cut"""
    __slots__ = ()

    def __init__(self):
        self.t = {}


INV = {}


def inv_atom(p):
    # scale to a canonical representative is not attempted: one atom per distinct polynomial
    k = p.key()
    n = "inv<%s>" % (repr(p),)
    INV[n] = p
    return n


def mmul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    red = False
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
            if a in SQ and (v >= 2 or v < 0):
                red = True
        else:
            d.pop(a, None)
    return tuple(sorted(d.items())), red


def reduce_mono(m, c):
    out = R.const(c)
    rest = []
    for a, e in m:
        if a in SQ and e >= 2:
            for _ in range(e // 2):
                out = out * SQ[a]
            if e % 2:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    if rest:
        out = out * R({tuple(rest): Fraction(1)})
    return out


def toR(x):
    if isinstance(x, R):
        return x
    if isinstance(x, (int, Fraction)):
        return R.const(x)
    if isinstance(x, float):
        return R.const(Fraction(x))
    raise TypeError("not a real: %r" % (x,))


SQ["r2"] = R.const(Fraction(1, 2))     # r2 = sqrt(1/2)
R2 = R.atom("r2")
PI = R.atom("pi")


def axioms(atoms):
    out = []
    for a in sorted(atoms):
        x = z3.Real(a)
        if a == "r2":
            out += [x * x == z3.Q(1, 2), x > z3.Q(7, 10), x < z3.Q(71, 100)]
        elif a == "pi":
            out += [x > z3.Q(314159, 100000), x < z3.Q(314160, 100000)]
        elif a in SQ:
            out.append(x * x == SQ[a].z3())
        elif a in INV:
            out.append(x * INV[a].z3() == 1)
        for f in AX.get(a, ()):
            out.append(f())
    return out


class Cx:
    """std::complex value."""
    __slots__ = ("re", "im")

    def __init__(self, re=0, im=0):
        self.re, self.im = toR(re), toR(im)

    def __add__(self, o):
        o = toCx(o)
        return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = toCx(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return toCx(o) - self

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __mul__(self, o):
        o = toCx(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def conj(self):
        return Cx(self.re, -self.im)

    def norm(self):
        return self.re * self.re + self.im * self.im

    def __truediv__(self, o):
        o = toCx(o)
        n = o.norm()
        if not n.t:
            raise ZeroDivisionError("complex division by zero")
        return self * o.conj() * Cx(R.const(1) / n)

    def __eq__(self, o):
        return isinstance(o, Cx) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __repr__(self):
        return "(%r, %r)" % (self.re, self.im)


def toCx(x):
    if isinstance(x, Cx):
        return x
    return Cx(toR(x), 0)
