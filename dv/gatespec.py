"""Contracts of the gate methods of the simulator interface: for every (method, parameter kinds), the operator it must apply.
Written from the documentation of the gates (matrices in dv/qgates.py), independent of the code under verification.
Parameter kinds: b = 8-bit qubit / small integer, v = vector of those, m = pointer to matrix entries, c = complex, r = real,
i = wide integer, o = bool."""
from fractions import Fraction
import z3
from . import interp as I
from . import qgates as G
from .real import R, Cx, toR, toCx, PI, R2
from .circ import Circ, NotAnArgument

IU = Cx(0, 1)
HALF = R.const(Fraction(1, 2))


def kind(t):
    s = I.strip_cv(t).rstrip("&").strip()
    s = I.strip_cv(s)
    if "vector" in s:
        if "unsigned char" in s or "uint8_t" in s or "bitLenInt" in s:
            return "v"
        if "bool" in s:
            return "B"
        return "V"
    if s.endswith("*"):
        return "m" if "complex" in s else "f"
    if "complex" in s:
        return "c"
    k = I.ctype(s)
    if k[0] == "real":
        return "r"
    if k[0] == "bool":
        return "o"
    if k[0] == "int":
        return {8: "b", 128: "i", 64: "u", 32: "n"}.get(k[1], "?")
    return "?"


def sig_of(node):
    from .astload import params_of, qtype
    return "".join(kind(qtype(p)) for p in params_of(node))


def mat4(m, p):
    if isinstance(p, I.Ref):
        p = p.get()
    e = [toCx(m.index(p, k).get()) for k in range(4)]
    return [[e[0], e[1]], [e[2], e[3]]]


def diag(a, b):
    return [[toCx(a), G.ZERO], [G.ZERO, toCx(b)]]


def anti(a, b):
    return [[G.ZERO, toCx(a)], [toCx(b), G.ZERO]]


def cis(m, th):
    c, s = m.std.trig(th)
    return Cx(c, s)


def mU(m, t, p, l):
    t, p, l = toR(t), toR(p), toR(l)
    c, s = m.std.trig(t * HALF)
    return [[Cx(c), -cis(m, l) * Cx(s)], [cis(m, p) * Cx(s), cis(m, p + l) * Cx(c)]]


def mAI(m, az, inc):
    c, s = m.std.trig(toR(inc) * HALF)
    e = cis(m, az)
    return [[Cx(c), -e.conj() * Cx(s)], [e * Cx(s), Cx(c)]]


def rot(m, P, th):
    c, s = m.std.trig(toR(th) * HALF)
    return [[(G.ONE if i == j else G.ZERO) * Cx(c) - IU * Cx(s) * P[i][j] for j in (0, 1)] for i in (0, 1)]


def root(m, n, inv):
    """phase rotation by -2 pi / 2^n (n = 0: identity); n concrete"""
    if not isinstance(n, int):
        raise I.Unsupported("symbolic root degree")
    if n == 0:
        return diag(1, 1)
    th = PI * R.const(Fraction(-1, 1 << (n - 1)))
    return diag(1, cis(m, -th if inv else th))


SQRTH = [[Cx(HALF + HALF * R2, HALF - HALF * R2), Cx(HALF * R2, -HALF * R2)], [Cx(HALF * R2, -HALF * R2), Cx(HALF - HALF * R2, HALF + HALF * R2)]]
SQRTW = [[Cx(R2), Cx(-HALF, -HALF)], [Cx(HALF, -HALF), Cx(R2)]]
SH = G.mul(G.S, G.H)
HIS = G.mul(G.H, G.IS)

SPEC = {}


def spec(name, sig):
    def d(f):
        SPEC[(name, sig)] = f
        return f
    return d


def one(name, u):
    SPEC[(name, "b")] = lambda m, c, a: c.ctl([], c.pos(m, a[0]), u)


def ctl(name, nc, val, u):
    SPEC[(name, "b" * (nc + 1))] = lambda m, c, a: c.ctl([(c.pos(m, x), val) for x in a[:nc]], c.pos(m, a[nc]), u)


for _n, _u in (("H", G.H), ("X", G.X), ("Y", G.Y), ("Z", G.Z), ("S", G.S), ("IS", G.IS), ("T", G.T), ("IT", G.IT), ("SqrtX", G.SX),
               ("ISqrtX", G.ISX), ("SqrtY", G.SY), ("ISqrtY", G.ISY), ("SH", SH), ("HIS", HIS), ("SqrtH", SQRTH), ("SqrtW", SQRTW),
               ("ISqrtW", G.dag(SQRTW))):
    one(_n, _u)
for _n, _nc, _v, _u in (("CNOT", 1, 1, G.X), ("CY", 1, 1, G.Y), ("CZ", 1, 1, G.Z), ("AntiCNOT", 1, 0, G.X), ("AntiCY", 1, 0, G.Y), ("AntiCZ", 1, 0, G.Z),
                        ("CH", 1, 1, G.H), ("AntiCH", 1, 0, G.H), ("CS", 1, 1, G.S), ("AntiCS", 1, 0, G.S), ("CIS", 1, 1, G.IS), ("AntiCIS", 1, 0, G.IS),
                        ("CT", 1, 1, G.T), ("CIT", 1, 1, G.IT), ("CCNOT", 2, 1, G.X), ("AntiCCNOT", 2, 0, G.X), ("CCY", 2, 1, G.Y), ("AntiCCY", 2, 0, G.Y),
                        ("CCZ", 2, 1, G.Z), ("AntiCCZ", 2, 0, G.Z)):
    ctl(_n, _nc, _v, _u)


def vec(a):
    if isinstance(a, I.Ref):
        a = a.get()
    return list(a.a)


def two(name, u):
    def f(m, c, a):
        x, y = a
        if m.truth(m.icmp("==", x, y, ("int", 8, False))):
            return
        c.mat([c.pos(m, x), c.pos(m, y)], u)
    SPEC[(name, "bb")] = f


def ctwo(name, u, val):
    def f(m, c, a):
        if m.truth(m.icmp("==", a[1], a[2], ("int", 8, False))):
            return
        c.mat([c.pos(m, a[1]), c.pos(m, a[2])], u, [(c.pos(m, x), val) for x in vec(a[0])])
    SPEC[(name, "vbb")] = f


for _n, _u in (("Swap", G.SWAP), ("ISwap", G.ISWAP), ("IISwap", G.IISWAP), ("SqrtSwap", G.SQRTSWAP), ("ISqrtSwap", G.ISQRTSWAP)):
    two(_n, _u)
for _n, _u, _v in (("CSwap", G.SWAP, 1), ("AntiCSwap", G.SWAP, 0), ("CSqrtSwap", G.SQRTSWAP, 1), ("AntiCSqrtSwap", G.SQRTSWAP, 0),
                   ("CISqrtSwap", G.ISQRTSWAP, 1), ("AntiCISqrtSwap", G.ISQRTSWAP, 0)):
    ctwo(_n, _u, _v)


@spec("FSim", "rrbb")
def _fsim(m, c, a):
    co, s = m.std.trig(a[0])
    e = cis(m, -toR(a[1]))
    o, z = G.ONE, G.ZERO
    u = [[o, z, z, z], [z, Cx(co), Cx(0, -s), z], [z, Cx(0, -s), Cx(co), z], [z, z, z, e]]
    c.mat([c.pos(m, a[2]), c.pos(m, a[3])], u)


SPEC[("U", "brrr")] = lambda m, c, a: c.ctl([], c.pos(m, a[0]), mU(m, *a[1:]))
SPEC[("U2", "brr")] = lambda m, c, a: c.ctl([], c.pos(m, a[0]), mU(m, PI * HALF, *a[1:]))
SPEC[("IU2", "brr")] = lambda m, c, a: c.ctl([], c.pos(m, a[0]), G.dag(mU(m, PI * HALF, *a[1:])))
SPEC[("AI", "brr")] = lambda m, c, a: c.ctl([], c.pos(m, a[0]), mAI(m, *a[1:]))
SPEC[("IAI", "brr")] = lambda m, c, a: c.ctl([], c.pos(m, a[0]), G.dag(mAI(m, *a[1:])))
SPEC[("CAI", "bbrr")] = lambda m, c, a: c.ctl([(c.pos(m, a[0]), 1)], c.pos(m, a[1]), mAI(m, *a[2:]))
SPEC[("AntiCAI", "bbrr")] = lambda m, c, a: c.ctl([(c.pos(m, a[0]), 0)], c.pos(m, a[1]), mAI(m, *a[2:]))
SPEC[("CIAI", "bbrr")] = lambda m, c, a: c.ctl([(c.pos(m, a[0]), 1)], c.pos(m, a[1]), G.dag(mAI(m, *a[2:])))
SPEC[("AntiCIAI", "bbrr")] = lambda m, c, a: c.ctl([(c.pos(m, a[0]), 0)], c.pos(m, a[1]), G.dag(mAI(m, *a[2:])))
SPEC[("CU", "vbrrr")] = lambda m, c, a: c.ctl([(c.pos(m, x), 1) for x in vec(a[0])], c.pos(m, a[1]), mU(m, *a[2:]))
SPEC[("AntiCU", "vbrrr")] = lambda m, c, a: c.ctl([(c.pos(m, x), 0) for x in vec(a[0])], c.pos(m, a[1]), mU(m, *a[2:]))
SPEC[("RT", "rb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), diag(1, cis(m, toR(a[0]) * HALF)))
SPEC[("RX", "rb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), rot(m, G.X, a[0]))
SPEC[("RY", "rb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), rot(m, G.Y, a[0]))
SPEC[("RZ", "rb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), rot(m, G.Z, a[0]))
SPEC[("CRY", "rbb")] = lambda m, c, a: c.ctl([(c.pos(m, a[1]), 1)], c.pos(m, a[2]), rot(m, G.Y, a[0]))
SPEC[("CRZ", "rbb")] = lambda m, c, a: c.ctl([(c.pos(m, a[1]), 1)], c.pos(m, a[2]), rot(m, G.Z, a[0]))
SPEC[("PhaseRootN", "bb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), root(m, a[0], False))
SPEC[("IPhaseRootN", "bb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), root(m, a[0], True))
for _n, _inv, _v in (("CPhaseRootN", False, 1), ("AntiCPhaseRootN", False, 0), ("CIPhaseRootN", True, 1), ("AntiCIPhaseRootN", True, 0)):
    SPEC[(_n, "bbb")] = lambda m, c, a, _inv=_inv, _v=_v: c.ctl([(c.pos(m, a[1]), _v)], c.pos(m, a[2]), root(m, a[0], _inv))
SPEC[("Mtrx", "mb")] = lambda m, c, a: c.ctl([], c.pos(m, a[1]), mat4(m, a[0]))
SPEC[("Phase", "ccb")] = lambda m, c, a: c.ctl([], c.pos(m, a[2]), diag(a[0], a[1]))
SPEC[("Invert", "ccb")] = lambda m, c, a: c.ctl([], c.pos(m, a[2]), anti(a[0], a[1]))


def permbit(m, v, k):
    if isinstance(v, int):
        return (v >> k) & 1
    return 1 if m.branch(z3.Extract(k, k, v) == 1) else 0


for _p, _val in (("MC", 1), ("MAC", 0)):
    SPEC[(_p + "Mtrx", "vmb")] = lambda m, c, a, _val=_val: c.ctl([(c.pos(m, x), _val) for x in vec(a[0])], c.pos(m, a[2]), mat4(m, a[1]))
    SPEC[(_p + "Phase", "vccb")] = lambda m, c, a, _val=_val: c.ctl([(c.pos(m, x), _val) for x in vec(a[0])], c.pos(m, a[3]), diag(a[1], a[2]))
    SPEC[(_p + "Invert", "vccb")] = lambda m, c, a, _val=_val: c.ctl([(c.pos(m, x), _val) for x in vec(a[0])], c.pos(m, a[3]), anti(a[1], a[2]))
SPEC[("UCMtrx", "vmbi")] = lambda m, c, a: c.ctl([(c.pos(m, x), permbit(m, a[3], k)) for k, x in enumerate(vec(a[0]))], c.pos(m, a[2]), mat4(m, a[1]))
SPEC[("UCPhase", "vccbi")] = lambda m, c, a: c.ctl([(c.pos(m, x), permbit(m, a[4], k)) for k, x in enumerate(vec(a[0]))], c.pos(m, a[3]), diag(a[1], a[2]))
SPEC[("UCInvert", "vccbi")] = lambda m, c, a: c.ctl([(c.pos(m, x), permbit(m, a[4], k)) for k, x in enumerate(vec(a[0]))], c.pos(m, a[3]), anti(a[1], a[2]))


def maskbits(m, v):
    if not isinstance(v, int):
        return symmask(m, v)
    return [k for k in range(128) if (v >> k) & 1]


def symmask(m, v):
    """the qubits of a symbolic mask, which are among the qubits of the circuit (decided branch by branch)"""
    v = I.bv(v, 128)
    out, rest = [], v
    for q in m.circ.q:
        b = I.bv(z3.ZeroExt(120, q) if z3.is_expr(q) else q, 128)
        bit = z3.BitVecVal(1, 128) << b
        if m.branch((v & bit) != 0):
            out.append(q)
        rest = rest & ~bit
    if m.path.sat(rest != 0):
        raise NotAnArgument("a mask has a bit that is not one of the arguments %s" % (m.circ.q,))
    return out


for _n, _u in (("XMask", G.X), ("YMask", G.Y), ("ZMask", G.Z)):
    SPEC[(_n, "i")] = lambda m, c, a, _u=_u: [c.ctl([], c.pos(m, k), _u) for k in maskbits(m, a[0])]
SPEC[("PhaseRootNMask", "bi")] = lambda m, c, a: [c.ctl([], c.pos(m, k), root(m, a[0], False)) for k in maskbits(m, a[1])]


@spec("PhaseParity", "ri")
def _pp(m, c, a):
    ps = [c.pos(m, k) for k in maskbits(m, a[1])]
    if not ps:
        return
    e = cis(m, toR(a[0]) * HALF)
    msk = sum(1 << p for p in ps)
    c.perm(lambda r: (r, e if bin(r & msk).count("1") & 1 else e.conj()))


def arrow(m, p):
    if isinstance(p, I.Ref):
        p = p.get()
    return p


def _ucsb(m, c, a, skips, val):
    ctr = [c.pos(m, x) for x in vec(a[0])]
    t = c.pos(m, a[1])
    p = arrow(m, a[2])
    for k in range(1 << len(ctr)):
        j = k
        for s in sorted(skips):
            low = j & (s - 1)
            j = ((j ^ low) << 1) | low
        j |= val
        e = [toCx(m.index(p, 4 * j + x).get()) for x in range(4)]
        c.ctl([(q, (k >> i) & 1) for i, q in enumerate(ctr)], t, [[e[0], e[1]], [e[2], e[3]]])


SPEC[("UniformlyControlledSingleBit", "vbm")] = lambda m, c, a: _ucsb(m, c, a, [], 0)
SPEC[("UniformlyControlledSingleBit", "vbmVi")] = lambda m, c, a: _ucsb(m, c, a, vec(a[3]), a[4])
for _n, _u in (("UniformlyControlledRY", G.Y), ("UniformlyControlledRZ", G.Z)):
    def _ucr(m, c, a, _u=_u):
        ctr = [c.pos(m, x) for x in vec(a[0])]
        p = arrow(m, a[2])
        for k in range(1 << len(ctr)):
            c.ctl([(q, (k >> i) & 1) for i, q in enumerate(ctr)], c.pos(m, a[1]), rot(m, _u, m.index(p, k).get()))
    SPEC[(_n, "vbf")] = _ucr


def reg(m, c, start, length):
    return [c.pos(m, start + k) for k in range(length)]


def permute(c, f):
    c.perm(lambda r: (f(r), G.ONE))


def bits_get(r, ps):
    return sum(((r >> p) & 1) << k for k, p in enumerate(ps))


def bits_set(r, ps, v):
    for k, p in enumerate(ps):
        r = (r & ~(1 << p)) | (((v >> k) & 1) << p)
    return r


def logic(name, f):
    """out ^= f(a, b)"""
    def g(m, c, a):
        x, y, o = (c.pos(m, t) for t in a)
        if name in ("XOR", "XNOR") and (x == o) != (y == o):
            # in place
            return permute(c, lambda r: (r & ~(1 << o)) | ((f((r >> x) & 1, (r >> y) & 1) & 1) << o))
        if x == o or y == o:
            if m.calls_spec_throw and x != y:
                raise I.CppThrow("std::invalid_argument", None)
            raise I.Unsupported("equal logic arguments")
        permute(c, lambda r: r ^ ((f((r >> x) & 1, (r >> y) & 1) & 1) << o))
    SPEC[(name, "bbb")] = g

    def h(m, c, a):
        x, o = c.pos(m, a[0]), c.pos(m, a[2])
        v = 1 if m.truth(a[1]) else 0
        permute(c, lambda r: r ^ ((f((r >> x) & 1, v) & 1) << o))
    SPEC[("CL" + name, "bob")] = h


for _n, _f in (("AND", lambda x, y: x & y), ("OR", lambda x, y: x | y), ("XOR", lambda x, y: x ^ y), ("NAND", lambda x, y: 1 - (x & y)),
               ("NOR", lambda x, y: 1 - (x | y)), ("XNOR", lambda x, y: 1 - (x ^ y))):
    logic(_n, _f)


def _fa(m, c, a, ctr, inv):
    x, y, s, o = (c.pos(m, t) for t in a)
    cp = [c.pos(m, t) for t in ctr]

    def f(r):
        if not all((r >> p) & 1 for p in cp):
            return r
        p, q, ci = (r >> x) & 1, (r >> y) & 1, (r >> s) & 1
        if not inv:
            t = p + q + ci
        else:
            ci = p ^ q ^ ci          # undo the sum first
            t = p + q + ci
        ns = (p ^ q ^ ci) if not inv else ci
        r = (r & ~(1 << s)) | (ns << s)
        return r ^ ((t >> 1) << o)
    permute(c, f)


SPEC[("FullAdd", "bbbb")] = lambda m, c, a: _fa(m, c, a, [], False)
SPEC[("IFullAdd", "bbbb")] = lambda m, c, a: _fa(m, c, a, [], True)
SPEC[("CFullAdd", "vbbbb")] = lambda m, c, a: _fa(m, c, a[1:], vec(a[0]), False)
SPEC[("CIFullAdd", "vbbbb")] = lambda m, c, a: _fa(m, c, a[1:], vec(a[0]), True)


def _adc(m, c, a, ctr, inv):
    i1, i2, o, ln, cy = a
    A, B, O, C = reg(m, c, i1, ln), reg(m, c, i2, ln), reg(m, c, o, ln), c.pos(m, cy)
    if not ln:
        return
    cp = [c.pos(m, t) for t in ctr]

    def f(r):
        # defined for a zero output register: output := A + B + carry, carry := carry out
        if not all((r >> p) & 1 for p in cp):
            return r
        t = bits_get(r, A) + bits_get(r, B) + ((r >> C) & 1)
        r = bits_set(r, O, t & ((1 << ln) - 1))
        return (r & ~(1 << C)) | ((t >> ln) << C)
    if not inv:
        permute(c, f)
    else:
        # inverse on the image of f
        tab = {}
        for r in range(1 << c.n):
            if bits_get(r, O) == 0 or not all((r >> p) & 1 for p in cp):
                tab[f(r)] = r
        permute(c, lambda r: tab.get(r, r))


SPEC[("ADC", "bbbbb")] = lambda m, c, a: _adc(m, c, a, [], False)
SPEC[("IADC", "bbbbb")] = lambda m, c, a: _adc(m, c, a, [], True)
SPEC[("CADC", "vbbbbb")] = lambda m, c, a: _adc(m, c, a[1:], vec(a[0]), False)
SPEC[("CIADC", "vbbbbb")] = lambda m, c, a: _adc(m, c, a[1:], vec(a[0]), True)


def conc(*v):
    for x in v:
        if not isinstance(x, int):
            raise I.Unsupported("symbolic register argument")


def _inc(m, c, v, s, ln, ctr=()):
    conc(v, s, ln)
    ps = reg(m, c, s, ln)
    cp = [c.pos(m, t) for t in ctr]
    if not ln:
        return
    permute(c, lambda r: bits_set(r, ps, (bits_get(r, ps) + v) % (1 << ln)) if all((r >> p) & 1 for p in cp) else r)


SPEC[("INC", "ibb")] = lambda m, c, a: _inc(m, c, *a)
SPEC[("DEC", "ibb")] = lambda m, c, a: _inc(m, c, -a[0], a[1], a[2])
SPEC[("CINC", "ibbv")] = lambda m, c, a: _inc(m, c, a[0], a[1], a[2], vec(a[3]))
SPEC[("CDEC", "ibbv")] = lambda m, c, a: _inc(m, c, -a[0], a[1], a[2], vec(a[3]))


@spec("INCDECC", "ibbb")
def _incdecc(m, c, a):
    """adds to the register, the carry qubit is the next more significant bit"""
    v, s, ln, cy = a
    conc(v, s, ln, cy)
    if not ln:
        return
    ps = reg(m, c, s, ln) + [c.pos(m, cy)]
    v %= 1 << ln
    permute(c, lambda r: bits_set(r, ps, (bits_get(r, ps) + v) % (1 << (ln + 1))))


def _rot(m, c, a, left):
    sh, s, ln = a
    conc(sh, s, ln)
    if ln <= 1:
        return
    ps = reg(m, c, s, ln)
    sh %= ln
    if not left:
        sh = (ln - sh) % ln

    def f(r):
        v = bits_get(r, ps)
        return bits_set(r, ps, ((v << sh) | (v >> (ln - sh))) & ((1 << ln) - 1))
    permute(c, f)


SPEC[("ROL", "bbb")] = lambda m, c, a: _rot(m, c, a, True)
SPEC[("ROR", "bbb")] = lambda m, c, a: _rot(m, c, a, False)


@spec("ZeroPhaseFlip", "bb")
def _zpf(m, c, a):
    ps = reg(m, c, a[0], a[1])
    if a[1]:
        c.perm(lambda r: (r, -G.ONE if bits_get(r, ps) == 0 else G.ONE))


SPEC[("PhaseFlip", "")] = lambda m, c, a: c.perm(lambda r: (r, -G.ONE))


@spec("Reverse", "bb")
def _rev(m, c, a):
    f, l = a
    conc(f, l)
    ps = [c.pos(m, k) for k in range(f, l)]
    permute(c, lambda r: bits_set(r, ps[::-1], bits_get(r, ps)))


def _qft(m, c, qs, inv):
    """QFT in the bit order of this library (the result is bit-reversed): amplitude exp(-2 pi i j k' / 2^n) on j -> reversed k"""
    n = len(qs)
    N = 1 << n
    norm = R.const(1)
    for _ in range(n):
        norm = norm * R2

    def br(k):
        return int(format(k, "0%db" % n)[::-1], 2) if n else 0
    u = [[Cx(norm) * cis(m, PI * R.const(Fraction((-2 * j * br(k)) % (2 * N), N))) for j in range(N)] for k in range(N)]
    if inv:
        u = G.dag(u)
    c.mat([c.pos(m, q) for q in qs], u)


def contract(name, cls="Qrack::QInterface", skip=()):
    """Contract callable for the symbolic interpreter: applies the specified operator to m.circ."""
    def f(m, o, refs, n):
        node = None
        if n is not None and n.get("inner"):
            cal = n["inner"][0]
            tu = None
        vals = [r.get() if isinstance(r, I.Ref) else r for r in refs]
        sg = "".join(vkind(v) for v in vals)
        # the overload is recovered from the values (wide integers and 8-bit integers are both python ints when concrete)
        cands = [s for (nm, s) in SPEC if nm == name and len(s) == len(vals) and all(compat(a, b) for a, b in zip(s, sg))]
        if len(cands) != 1:
            return NotImplemented
        SPEC[(name, cands[0])](m, m.circ, vals)
        m.circ.trace.append(name)
        m.used = getattr(m, "used", set())
        m.used.add(name)
        return None
    return f


def vkind(v):
    if isinstance(v, Cx):
        return "c"
    if isinstance(v, R):
        return "r"
    if isinstance(v, I.Vec):
        return "v"
    if isinstance(v, I.Ptr):
        return "m"
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return "o"
    if isinstance(v, int):
        return "b"
    if isinstance(v, z3.BitVecRef):
        return "b" if v.size() == 8 else "i"
    return "?"


def compat(s, k):
    if s == k:
        return True
    return (s, k) in (("i", "b"), ("V", "v"), ("B", "v"), ("f", "m"), ("c", "r"), ("o", "b"), ("u", "b"), ("n", "b"))


def contracts(classes=("Qrack::QInterface",), names=None):
    out = dict(PROVED_HELPERS)
    for cls in classes:
        for nm in {n for n, _ in SPEC}:
            if names is None or nm in names:
                out[cls + "::" + nm] = contract(nm, cls)
    return out


def _log2(m, o, refs, n):
    """floor(log2 n) of a concrete integer (proved for every value by C10); symbolic arguments are interpreted"""
    v = refs[0].get() if isinstance(refs[0], I.Ref) else refs[0]
    return v.bit_length() - 1 if isinstance(v, int) and v > 0 else NotImplemented


PROVED_HELPERS = {"Qrack::log2": _log2, "Qrack::log2Ocl": _log2, "bi_log2": _log2}
