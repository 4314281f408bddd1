"""Contracts of the state-vector engine's own operations, as seen by its callers: each replaces the engine's state by the one
its own verification establishes."""
import itertools, z3
from . import interp as I
from .kern import *
from .real import R, Cx, toR, toCx


def nq(m, lo=1, name="n"):
    n = z3.BitVec(name, 8)
    m.path.assume(z3.And(z3.UGE(n, lo), z3.ULE(n, NMAX)))
    return n


def qs(m, n, k, base=0):
    out = [z3.BitVec("q%d" % (base + i), 8) for i in range(k)]
    for q in out:
        m.path.assume(z3.ULT(q, n))
    return out


def distinct(m, l):
    for a, b in itertools.combinations(l, 2):
        m.path.assume(a != b)


def rng(m, n, name, minlen=0):
    """a register range (start, length) within n qubits"""
    s, l = z3.BitVec(name + "S", 8), z3.BitVec(name + "L", 8)
    m.path.assume(z3.And(z3.ULE(s, n), z3.ULE(l, n - s)))
    if minlen:
        m.path.assume(z3.UGE(l, minlen))
    return s, l


def apart(m, *rs):
    """register ranges that do not overlap (a qubit is a range of length 1)"""
    for (s, l), (t, k) in itertools.combinations(rs, 2):
        m.path.assume(z3.Or(z3.ULE(s + l, t), z3.ULE(t + k, s)))


def rmask(s, l):
    return lowmask(l) << zx(s)


class Masked:
    """arbitrary amplitudes that vanish outside the basis states satisfying pred"""
    def __init__(self, base, pred):
        self.base, self.pred = base, pred

    def at(self, m, i):
        if not m.branch(self.pred(i)):
            return Cx(0)
        return self.base.at(m, i)


def prev(o):
    sv = o.f["stateVec"].get().to
    ob, ow = sv.base, list(sv.w)
    return sv, (lambda m_, j: over(m_, ob, ow, j))


def become(m, o, fn):
    """the state is replaced by fn(m, j), computed from the state before"""
    k = m.kern
    sv = o.f["stateVec"].get().to
    k.writes += 1
    sv.base, sv.w = fn if hasattr(fn, "at") else FnBase(fn), []


def has_state(m, o):
    return o.f["stateVec"].get() is not None


def in_range(m, q, what="qubit argument of the callee"):
    k = m.kern
    n = k.eng.f["qubitCount"].get()
    k.pv.prove(m, k.label + what + " is in range", z3.ULT(I.bv(q, 8), I.bv(n, 8)))


def c_x(m, o, refs, node):
    o = m.kern.eng
    q = refs[0].get()
    in_range(m, q)
    if not has_state(m, o):
        return
    sv, pr = prev(o)
    become(m, o, lambda m_, j: pr(m_, j ^ p2(q)))


def measured(m, o, pred, name):
    """the state after a measurement: unknown amplitudes on the basis states compatible with the outcome"""
    k = m.kern
    k.fresh = getattr(k, "fresh", 0) + 1
    b = Base("%s%d_" % (name, k.fresh))
    become(m, o, Masked(b, pred))
    k.refbase = o.f["stateVec"].get().to.base
    return b


def c_m(m, o, refs, node):
    """M(qubit) by its contract (C07): some outcome; the state is then supported on it"""
    k = m.kern
    o = k.eng
    q = refs[0].get()
    in_range(m, q)
    r = z3.Bool(m.path.fresh("outcome"))
    one = m.branch(r)
    k.outcomes = getattr(k, "outcomes", []) + [one]
    if has_state(m, o):
        k.mbase = measured(m, o, (lambda j: isset(j, q)) if one else (lambda j: z3.Not(isset(j, q))), "m")
    return one


def c_setreg(m, o, refs, node):
    """SetReg(start, length, value) by its contract (C07): the register holds the value; the rest of the state is unknown"""
    k = m.kern
    o = k.eng
    s, l, v = [r.get() for r in refs]
    n = I.bv(o.f["qubitCount"].get(), 8)
    s, l = I.bv(s, 8), I.bv(l, 8)
    bad = z3.Or(z3.UGT(s, n), z3.UGT(l, n - s))
    if m.branch(bad):
        raise I.CppThrow("std::invalid_argument")
    k.setregs = getattr(k, "setregs", []) + [(s, l, v)]
    if has_state(m, o):
        vv = z3.Extract(63, 0, I.bv(v, 128))
        k.mbase = measured(m, o, lambda j: field(j, s, l) == (vv & lowmask(l)), "s")


# ---------------------------------------------------------------- products and residues as uninterpreted functions
_B64, _B128 = z3.BitVecSort(64), z3.BitVecSort(128)
UMUL = z3.Function("mul64", _B64, _B64, _B64)
UREM = z3.Function("rem64", _B64, _B64, _B64)
UREM128 = z3.Function("rem128", _B128, _B128, _B128)


def mul(m, x, y):
    x, y = z3.simplify(x), z3.simplify(y)
    if str(x) > str(y):
        x, y = y, x
    r = UMUL(x, y)
    m.path.assume(z3.And(r == UMUL(y, x), z3.Implies(y == 1, r == x), z3.Implies(x == 1, r == y), z3.Implies(z3.Or(x == 0, y == 0), r == 0)))
    return r


def arith(m):
    """products of two unknowns and residues by an unknown modulus become uninterpreted functions (with the facts used)"""
    def hook(op, x, y, w, sg):
        if w not in (64, 128) or sg or z3.is_bv_value(x) or z3.is_bv_value(y):
            return None
        if op == "*" and w == 64:
            return mul(m, x, y)
        if op == "%":
            r = (UREM if w == 64 else UREM128)(x, y)
            m.path.assume(z3.And(z3.ULT(r, y), z3.Implies(z3.ULT(x, y), r == x)))
            return r
        return None
    m.std.arith_hook = hook


# ---------------------------------------------------------------- normalisation, probabilities, random numbers
def c_normalize(m, o, refs, node):
    """NormalizeState() by its contract (C07): the state is divided by the root of the recorded norm.  Callers see the state
    afterwards as the arbitrary (normalised) state they are specified against."""
    k = m.kern
    if o.f["stateVec"].get() is None:
        return
    k.normalised = getattr(k, "normalised", [])
    k.normalised.append((o, o.f["runningNorm"].get(), [r.get() for r in refs], k.writes))
    k.pend[id(o)] = k.pend.get(id(o), True)
    if not k.writes:
        k.normfirst = True
        return
    nr = o.f["runningNorm"].get()
    sv, pr = prev(o)
    inv = R.const(1) / m.std.sqrt(m, nr)
    become(m, o, lambda m_, j: Cx(inv) * toCx(pr(m_, j)))
    o.f["runningNorm"].set(R.const(1))


def prob_atom(m, name):
    p = R.atom(name)
    m.path.assume(z3.And(p.z3() >= 0, p.z3() <= 1))
    return p


def c_rand(m, o, refs, node):
    k = m.kern
    k.rands = getattr(k, "rands", 0) + 1
    r = R.atom("rnd%d" % k.rands)
    m.path.assume(z3.And(r.z3() >= 0, r.z3() < 1))
    return r
