"""State-vector kernels under contract.

The amplitude memory of an engine is a total function from 64-bit indices to complex polynomials, given by a base (arbitrary,
zero, undefined, or a specification) and an ordered overlay of writes.  A parallel loop is used by its contract (C03: the body
is called exactly once for every index of the loop's set, in no particular order): the body is executed once for an arbitrary
index of the set, and must (1) touch only locations the iteration owns, (2) leave each location it owns with the value the
specification prescribes, and (3) the owners of all locations must be in the loop's set.  After the loop the memory is the
specified one.  All obligations are over all register widths, positions and index values; no bound is involved.
"""
import z3
from . import interp as I, check, tol, simd
from .real import R, Cx, toR, toCx
from .astload import params_of, has_body
from .stdmodel import SORTED

NMAX = 60


def B64(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else I.bv(v, 64)


def zx(v, w=64):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v if v.size() == w else (z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v))


def p2(q):
    return z3.BitVecVal(1, 64) << zx(q)


def lowmask(q):
    return p2(q) - 1


def bit(j, q):
    return z3.LShR(j, zx(q)) & 1


def isset(j, q):
    return (j & p2(q)) != 0


def field(j, start, ln):
    return z3.LShR(j & (lowmask(ln) << zx(start)), zx(start))


def setfield(j, start, ln, v):
    m = lowmask(ln) << zx(start)
    return (j & ~m) | ((v & lowmask(ln)) << zx(start))


def orall(l):
    l = list(l)
    h = SORTED.get(tuple(x.get_id() for x in l)) if l and all(z3.is_expr(x) for x in l) else None
    if h is not None:
        l = h[1]
    o = z3.BitVecVal(0, 64)
    for x in l:
        o = o | x
    return o


def parity(x):
    for s in (32, 16, 8, 4, 2, 1):
        x = x ^ z3.LShR(x, s)
    return x & 1


PAR = z3.Function("parity", z3.BitVecSort(64), z3.BitVecSort(8))
CNT = z3.Function("bitcount", z3.BitVecSort(64), z3.BitVecSort(8))


def par(x):
    return PAR(x) == 1


def c_popcount(m, obj, refs, node):
    """popCountOcl by its contract (C10): the number of set bits, whose low bit is the parity"""
    x = refs[0].get()
    if isinstance(x, int):
        return bin(x & (2 ** 64 - 1)).count("1")
    x = z3.simplify(x)
    c = CNT(x)
    m.path.assume(z3.And(z3.ULE(c, 64), PAR(x) == (c & 1), (c == 0) == (x == 0), (c == 1) == z3.And(x != 0, (x & (x - 1)) == 0)))
    return c


def c_log2(m, obj, refs, node):
    """log2() / log2Ocl() by their contract (C10): the position of the highest set bit"""
    x = refs[0].get()
    if isinstance(x, int):
        return max(x.bit_length() - 1, 0)
    x = z3.simplify(x)
    l = z3.BitVec(m.path.fresh("log2"), 8)
    w = x.size()
    m.path.assume(z3.If(x == 0, l == 0, z3.And(z3.ULT(l, w), z3.LShR(x, z3.ZeroExt(w - 8, l)) == 1)))
    return l


def fail(pv, m, name, detail):
    """the path was reached: a violation unless the path condition turns out to be inconsistent"""
    pv.prove(m, name, False, detail)


def same(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))


class Base:
    """Arbitrary initial amplitudes: one pair of atoms per index read (indices that may be equal are told apart first)."""
    def __init__(self, name):
        self.name, self.known = name, []

    def at(self, m, i):
        i = z3.simplify(i)
        for t, v in self.known:
            if same(t, i):
                return v
        for t, v in self.known:
            if m.branch(t == i):
                return v
        k = len(self.known)
        v = Cx(R.atom("%s%dr" % (self.name, k)), R.atom("%s%di" % (self.name, k)))
        self.known.append((i, v))
        return v


class Zero:
    def at(self, m, i):
        return Cx(0, 0)


class Undef:
    def at(self, m, i):
        raise UndefRead("an element that was never written is read")


class UndefRead(Exception):
    pass


class FnBase:
    def __init__(self, fn):
        self.fn = fn

    def at(self, m, i):
        return self.fn(m, i)


class SV:
    """Contract of StateVector (the bodies of StateVectorArray are verified separately)."""
    def __init__(self, K, size, base, name="stateVec"):
        self.K, self.size, self.base, self.name = K, size, base, name
        self.w = []
        self.owner = None

    def get(self, m, i):
        i = z3.simplify(B64(i))
        for t, v in reversed(self.w):
            if same(t, i) or m.branch(t == i):
                return v
        return self.base.at(m, i)

    def chk(self, m, i):
        self.K.pv.prove(m, "%s%s: index within the state vector" % (self.K.label, self.name), z3.ULT(i, self.size))

    def read(self, m, i, log=True):
        i = z3.simplify(B64(i))
        self.chk(m, i)
        if log:
            self.K.log.append(("r", self, i))
        return self.get(m, i)

    def put(self, m, i, v):
        i = z3.simplify(B64(i))
        self.chk(m, i)
        self.K.log.append(("w", self, i))
        self.K.writes += 1
        self.w.append((i, toCx(v)))

    def method(self, m, bm, args, fr, n):
        nm = bm.name
        a = [m.rv(x, fr) for x in args]
        self.K.access(self)
        if nm == "read":
            return self.read(m, a[0])
        if nm == "read2":
            x, y = self.read(m, a[0]), self.read(m, a[1])
            return I.Obj("Qrack::complex2", {"c2": I.Cell(simd.V4([x.re, x.im, y.re, y.im]))})
        if nm == "write":
            self.put(m, a[0], a[1])
            return None
        if nm == "write2":
            self.put(m, a[0], a[1])
            self.put(m, a[2], a[3])
            return None
        if nm == "clear":
            self.K.bulk(self)
            self.base, self.w = Zero(), []
            return None
        if nm == "copy":
            o = a[0].to if isinstance(a[0], I.Ptr) else a[0]
            if not isinstance(o, SV):
                raise I.NullDeref("copy() of a null state vector")
            self.K.bulk(self)
            self.K.pv.prove(m, "%s%s: copy() between state vectors of equal size" % (self.K.label, self.name), z3.ULE(self.size, o.size))
            self.base, self.w = o.base, list(o.w)
            return None
        if nm == "copy_in" and len(a) == 1:
            self.K.bulk(self)
            if a[0] is None:
                self.base = Zero()
            else:
                src = arr(a[0])
                self.base = FnBase(lambda m_, i: src.at(m_, i))
            self.w = []
            return None
        if nm == "copy_in" and len(a) in (3, 4):
            self.K.bulk(self)
            if len(a) == 3:
                src, so, do, ln = a[0], z3.BitVecVal(0, 64), B64(a[1]), B64(a[2])
            else:
                src, so, do, ln = a[0], B64(a[1]), B64(a[2]), B64(a[3])
            if isinstance(src, I.Ptr) and isinstance(src.to, SV):
                s0 = src.to
                self.K.pv.prove(m, "%s: source range of copy_in()" % self.K.label, z3.And(z3.ULE(so, s0.size), z3.ULE(ln, s0.size - so)))
                ob, ow = s0.base, list(s0.w)
                rd = lambda m_, i: over(m_, ob, ow, i)
            elif src is None:
                rd = lambda m_, i: Cx(0, 0)
            else:
                ar = arr(src)
                rd = lambda m_, i: ar.at(m_, i)
            self.K.pv.prove(m, "%s: destination range of copy_in()" % self.K.label, z3.And(z3.ULE(do, self.size), z3.ULE(ln, self.size - do)))
            mb, mw = self.base, list(self.w)

            def f(m_, i):
                if m_.branch(z3.And(z3.UGE(i, do), z3.ULT(i - do, ln))):
                    return rd(m_, i - do + so)
                return over(m_, mb, mw, i)
            self.base, self.w = FnBase(f), []
            return None
        if nm == "copy_out":
            dst = arr(a[0])
            so, ln = (z3.BitVecVal(0, 64), self.size) if len(a) == 1 else (B64(a[1]), B64(a[2]))
            self.K.pv.prove(m, "%s: source range of copy_out()" % self.K.label, z3.And(z3.ULE(so, self.size), z3.ULE(ln, self.size - so)))
            mb, mw = self.base, list(self.w)
            dst.fill(m, ln, lambda m_, i: over(m_, mb, mw, i + so))
            return None
        if nm == "get_probs":
            dst = arr(a[0])
            mb, mw = self.base, list(self.w)
            dst.fill(m, self.size, lambda m_, i: over(m_, mb, mw, i).norm())
            return None
        if nm == "shuffle":
            o = a[0].to
            mb, mw, ob, ow = self.base, list(self.w), o.base, list(o.w)
            h = z3.LShR(self.size, 1)
            self.K.bulk(self)
            self.K.bulk(o)
            self.base = FnBase(lambda m_, i: over(m_, mb, mw, i) if m_.branch(z3.ULT(i, h)) else over(m_, ob, ow, i - h))
            o.base = FnBase(lambda m_, i: over(m_, mb, mw, i + h) if m_.branch(z3.ULT(i, h)) else over(m_, ob, ow, i))
            self.w, o.w = [], []
            return None
        raise I.Unsupported("method %s of a state vector" % nm)


def over(m, base, w, i):
    i = z3.simplify(i)
    for t, v in reversed(w):
        if same(t, i) or m.branch(t == i):
            return v
    return base.at(m, i)


class Arr:
    """A caller's array of unbounded length"""
    def __init__(self, K, base, name, size=None):
        self.K, self.base, self.name, self.size = K, base, name, size
        self.w = []

    def clone(self):
        return self

    def at(self, m, i):
        return over(m, self.base, self.w, B64(i))

    def fill(self, m, ln, fn):
        mb, mw = self.base, list(self.w)

        def f(m_, i):
            if m_.branch(z3.ULT(i, ln)):
                return fn(m_, i)
            return over(m_, mb, mw, i)
        self.base, self.w = FnBase(f), []

    def fill_range(self, m, a, b, v):
        if not (isinstance(a, int) and a == 0) and not (z3.is_expr(a) and z3.is_bv_value(z3.simplify(a)) and z3.simplify(a).as_long() == 0):
            raise I.Unsupported("fill from the middle of an array")
        self.K.writes += 1
        self.fill(m, B64(b), lambda m_, i: v)

    def elem(self, m, i):
        i = z3.simplify(B64(i))

        def g():
            self.K.log.append(("a", self, i))
            return over(m, self.base, self.w, i)

        def s(v):
            self.K.log.append(("w", self, i))
            self.w.append((i, v))
        return I.FnRef(g, s)


def arr(p):
    if p is None:
        raise I.NullDeref("null array")
    a = p.to if isinstance(p, I.Ptr) else p
    if isinstance(a, Arr):
        return a
    raise I.Unsupported("array argument %s" % type(a).__name__)


class Gather:
    """final(j) = value(m, j) for every j < size; value reads the state before the loop.  acc: (pred, term): the loop also
    accumulates the sum of term(m, j) over the j that satisfy pred.  value None: the loop writes nothing."""
    def __init__(self, value=None, owners=(), acc=None, dom=None):
        self.value, self.owners, self.acc, self.dom, self.nonneg = value, list(owners), acc, dom, True


def Reduce(pred, term, owners=(), cap=None):
    g = Gather(None, owners, (pred, term))
    g.cap = cap
    return g


def accs_of(fn):
    """accumulator arrays (one entry per worker) the loop body can reach"""
    out = []
    for v in fn.env.values():
        if isinstance(v, I.Ref):
            try:
                v = v.get()
            except Exception:
                continue
        if isinstance(v, I.Ptr):
            v = v.to
        if isinstance(v, I.Vec) and len(v.a) == 2 and all(isinstance(x, (R, Cx)) for x in v.a) and not any(v is o for o in out):
            out.append(v)
    return out


class Perm:
    """for every source index s with guard(s): final(dest(s)) = value(m, s); every other location keeps rest(j)
    (rest "zero"; rest "bijection": there is none, since dest is injective and every basis state is a source).  inj: prove that
    dest is injective (otherwise that is part of the domain, or a lemma proved elsewhere)."""
    def __init__(self, guard, dest, value, owners=(), rest="zero", inj=True):
        self.guard, self.dest, self.value, self.owners, self.rest, self.inj = guard, dest, value, list(owners), rest, inj


class Content:
    """memory described by a Perm specification"""
    def __init__(self, spec):
        self.spec = spec

    def at(self, m, i):
        raise I.Unsupported("read of a state given by a source-indexed specification")


class K:
    """One proof run."""
    def __init__(self, pv, m, label, specs, subs):
        self.pv, self.m, self.label, self.specs, self.subs = pv, m, label, specs, subs
        self.log = []
        self.writes = 0
        self.nloop = 0
        self.inbody = False
        self.pend = {}            # ghost state per engine: may queued work still be running?  (at the start of a call: yes)
        self.inqueue = []
        self.totals = {}

    def access(self, sv):
        m = self.m
        """ghost state: amplitudes may be touched only by queued work itself, or after the queue has been drained"""
        o = sv.owner
        if o is None or any(o is x for x in self.inqueue) or not self.pend.get(id(o), True):
            return
        self.pend[id(o)] = False
        fail(self.pv, m, self.label + "amplitudes are only touched after queued work has finished", "no Finish() or Dump() since the call began or work was queued; path %s" % [str(c) for c in self.m.path.pc][-5:])

    def lsize(self, li):
        d = getattr(self.specs[li], "dom", None)
        return d if d is not None else self.size

    def is_zero(self, x):
        return (not x.t) if isinstance(x, R) else (not x.re.t and not x.im.t)

    def bulk(self, sv):
        if self.inbody:
            raise I.Unsupported("bulk operation inside a parallel loop body")
        self.writes += 1


def inset_of(kind, a):
    """index set of a parallel loop: (predicate, clear mask, preconditions)"""
    if kind == "par_for":
        b, e = B64(a[0]), B64(a[1])
        return (lambda t: z3.And(z3.UGE(t, b), z3.ULT(t, e))), z3.BitVecVal(0, 64), []
    if kind == "par_for_skip":
        b, e, sk, w = B64(a[0]), B64(a[1]), B64(a[2]), a[3]
        msk = (lowmask(w)) * sk
        pre = [("skip mask is a power of two", z3.And(sk != 0, (sk & (sk - 1)) == 0)), ("loop starts at 0", b == 0),
               ("skipped bits are within the range", z3.ULE(z3.LShR(msk, 1), z3.LShR(e - 1, 1)) if False else z3.ULE(msk, e - 1)),
               ("range is a power of two", (e & (e - 1)) == 0)]
        return (lambda t: z3.And(z3.ULT(t, e), (t & msk) == 0)), msk, pre
    if kind == "par_for_mask":
        b, e, v = B64(a[0]), B64(a[1]), a[2]
        ms = [B64(x) for x in v.a]
        msk = orall(ms)
        pre = [("loop starts at 0", b == 0), ("range is a power of two", (e & (e - 1)) == 0)]
        for i, x in enumerate(ms):
            pre.append(("mask %d is a power of two within the range" % i, z3.And(x != 0, (x & (x - 1)) == 0, z3.ULT(x, e))))
            if i:
                pre.append(("masks are strictly ascending", z3.ULT(ms[i - 1], x)))
        return (lambda t: z3.And(z3.ULT(t, e), (t & msk) == 0)), msk, pre
    raise I.Unsupported("loop helper %s" % kind)


def par_contract(kind):
    def f(m, obj, refs, node):
        k = m.kern
        a = [r.get() for r in refs]
        fn = a[-1]
        inset, clear, pre = inset_of(kind, a)
        for nm, c in pre:
            k.pv.prove(m, "%s%s: %s" % (k.label, kind, nm), c)
            m.path.assume(c)
        li = k.nloop
        k.nloop += 1
        if li >= len(k.specs):
            raise I.Unsupported("more parallel loops than the specification has")
        spec = k.specs[li]
        if callable(spec) and not isinstance(spec, (Gather, Perm)):
            return spec(m, k, inset, clear, fn)
        if k.inbody:
            raise I.Unsupported("nested parallel loop")
        cands = list(spec.owners) if spec.owners and not k.allcands else [lambda j: j & ~clear] + spec.owners
        if spec.owners:
            k.flags.add("owners")
        w = m.path.choose(len(cands) + 1)
        if w == len(cands):
            # after the loop
            tgt, av = target_of(m, k, fn, inset, spec)
            if tgt is not None:
                if isinstance(spec, Perm) and spec.rest == "zero" and not (isinstance(tgt.base, Zero) and not tgt.w):
                    fail(k.pv, m, "%sloop %d: amplitudes that no source is moved to are zero" % (k.label, li), "the memory written by the loop was not cleared before")
                install(m, k, spec, tgt)
            if av is not None and spec.acc:
                for x in av.a:
                    if not k.is_zero(x):
                        fail(k.pv, m, k.label + "accumulators start at 0", str(x))
                cx = isinstance(av.a[0], Cx)
                nmx = ["sum%d_%d" % (li, i) for i in range(2)]
                av.a = [Cx(R.atom(x + "r"), R.atom(x + "i")) if cx else R.atom(x) for x in nmx]
                if not cx and spec.nonneg:
                    for x in av.a:
                        m.path.assume(x.z3() >= 0)
                k.totals[li] = av.a[0] + av.a[1]
                if getattr(spec, "cap", None) is not None:
                    # (a probability, or an overlap of unit vectors)
                    m.path.assume((k.totals[li].norm() if cx else k.totals[li]).z3() <= spec.cap)
            return None
        own = cands[w]
        sub = k.subs.setdefault((li, w), check.Prover(k.pv.timeout))
        lcv = z3.BitVec("lcv%d" % li, 64)
        if isinstance(spec, Gather):
            gather(m, k, spec, own, inset, lcv, fn, sub, li)
        else:
            perm(m, k, spec, own, inset, lcv, fn, sub, li)
        raise I.PathEnd()
    return f


def run_body(m, k, fn, lcv):
    start = len(k.log)
    k.inbody = True
    main = k.pv
    av = accs_of(fn)
    before = [list(v.a) for v in av]
    try:
        m.call_value(fn, [I.Cell(lcv), I.Cell(k.cpu)])
    finally:
        k.inbody = False
    k.accs = []
    for v, b in zip(av, before):
        if any(x is not y for x, y in zip(v.a, b)):
            k.accs.append((v, b))
    acc = k.log[start:]
    tg = []
    for x in acc:
        if x[0] == "w" and not any(x[1] is t for t in tg):
            tg.append(x[1])
    return acc, tg


def target_of(m, k, fn, inset, spec):
    """Which memory the loop writes: found by executing the body once (its effects are discarded)."""
    svs = []
    seen = set()

    def scan(v):
        if isinstance(v, I.Ref):
            try:
                v = v.get()
            except Exception:
                return
        if isinstance(v, I.Ptr):
            v = v.to
        if isinstance(v, SV) and id(v) not in seen:
            seen.add(id(v))
            svs.append(v)
        if isinstance(v, I.Obj) and id(v) not in seen:
            seen.add(id(v))
            for c in v.f.values():
                scan(c)
    for v in fn.env.values():
        scan(v)
    scan(fn.this)
    save = [(s, s.base, list(s.w)) for s in svs]
    known = [(s.base, list(s.base.known)) for s in svs if isinstance(s.base, Base)]
    pc = len(m.path.pc)
    lcv = z3.BitVec("lcvT%d" % k.nloop, 64)
    m.path.assume(inset(lcv))
    acc, tg = run_body(m, k, fn, lcv)
    for s, b, w in save:
        s.base, s.w = b, w
    for b, kn in known:
        b.known = kn
    av = []
    for v, b in k.accs:
        v.a = list(b)
        av.append(v)
    if len(tg) > 1:
        raise I.Unsupported("a parallel loop writes several arrays")
    acc = getattr(spec, "acc", None)
    if (not tg and getattr(spec, "value", True) is not None) or (acc and not av):
        # this path of the body writes nothing: the written vector is the one other paths write
        raise I.PathEnd()
    return (tg[0] if tg else None), (av[0] if av else None)


def install(m, k, spec, tgt):
    old, oldw = tgt.base, list(tgt.w)
    if isinstance(spec, Gather):
        pre = k.pre(m, old, oldw)
        tgt.base, tgt.w = FnBase(lambda m_, j: spec.value(m_, j)), []
    else:
        tgt.base, tgt.w = Content(spec), []


def gather(m, k, spec, own, inset, lcv, fn, sub, li):
    nm = "%sloop %d" % (k.label, li)
    c = m.path.choose(4 if spec.acc else 3)
    j = z3.BitVec("j", 64)
    size = k.lsize(li)
    if c == 0:
        m.path.assume(z3.ULT(j, size))
        if spec.value is None:
            m.path.assume(spec.acc[0](j))
        sub.prove(m, nm + ": own: the iteration that owns each location is in the loop's index set", inset(own(j)))
        return
    if c == 2:
        # the iteration that owns an arbitrary location leaves the specified value there
        if spec.value is None:
            return
        lcv = z3.simplify(own(j))
        m.path.assume(z3.ULT(j, size))
        m.path.assume(inset(lcv))
        acc, tg = run_body(m, k, fn, lcv)
        if not tg:
            if k.gtarget is None:
                return
            t = k.gtarget
            sub.noop = True
        else:
            t = tg[0]
            if t is not k.gtarget:
                sub.outofplace = True
        try:
            got = t.get(m, j)
        except UndefRead:
            fail(sub, m, nm + ": val: location left unwritten", str(m.path.pc[-6:]))
            return
        sub.prove_eq_cx(m, nm + ": val: value left at an arbitrary location", toCx(got), toCx(spec.value(m, j)))
        sub.cover("loop %d body" % li)
        return
    if c == 3:
        m.path.assume(z3.And(z3.ULT(j, size), spec.acc[0](j)))
        lcv = z3.simplify(own(j))
        m.path.assume(inset(lcv))
        acc, tg = run_body(m, k, fn, lcv)
        reads = [a for kind, t, a in acc if kind == "r"]
        sub.prove(m, nm + ": sum: every location to be counted is read by the iteration that owns it", z3.Or([j == r for r in reads]) if reads else False)
        return
    m.path.assume(inset(lcv))
    acc, tg = run_body(m, k, fn, lcv)
    for t in tg:
        if t is not tg[0]:
            raise I.Unsupported("a parallel loop writes several arrays")
    if spec.value is None and tg:
        raise I.Unsupported("a loop specified as a reduction writes amplitudes")
    for kind, t, a in acc:
        if tg and t is tg[0]:
            sub.prove(m, nm + ": own: iteration touches only locations it owns (%s)" % kind, own(a) == lcv)
    if spec.acc is None:
        if k.accs:
            raise I.Unsupported("the loop accumulates, which its specification does not")
    else:
        accumulate(m, k, spec, own, acc, lcv, sub, nm)
    sub.cover("loop %d body" % li)


def accumulate(m, k, spec, own, acc, lcv, sub, nm):
    """the body adds exactly the specified terms of the locations it owns, to its worker's entry"""
    pred, term = spec.acc
    if len(k.accs) > 1:
        raise I.Unsupported("several accumulators")
    reads = []
    for kind, t, a in acc:
        if kind == "r" and not any(same(a, x) for x in reads):
            if not any(m.branch(a == x) for x in reads):
                reads.append(a)
    tot = R.const(0)
    for r in reads:
        if m.branch(pred(r)):
            sub.prove(m, nm + ": own: iteration counts only locations it owns", own(r) == lcv)
            tot = toCx(tot) + toCx(term(m, r))
    if not k.accs:
        delta = Cx(0)
    else:
        v, b = k.accs[0]
        for i, (x, y) in enumerate(zip(v.a, b)):
            if i != k.cpu and x is not y:
                fail(sub, m, nm + ": sum: only the worker's own accumulator is changed", "entry %d of worker %d" % (i, k.cpu))
        delta = v.a[k.cpu] - b[k.cpu]
    sub.prove_eq_cx(m, nm + ": sum: amount added by one iteration", toCx(delta), toCx(tot))


def perm(m, k, spec, own, inset, lcv, fn, sub, li):
    nm = "%sloop %d" % (k.label, li)
    size = k.lsize(li)
    s = z3.BitVec("s", 64)
    c = m.path.choose(2)
    if c == 0:
        m.path.assume(z3.And(z3.ULT(s, size), spec.guard(s)))
        sub.prove(m, nm + ": own: the iteration that moves each source is in the loop's index set", inset(own(s)))
        sub.prove(m, nm + ": own: destination is a basis state", z3.ULT(spec.dest(s), size))
        if spec.inj:
            s2 = z3.BitVec("s'", 64)
            m.path.assume(z3.And(z3.ULT(s2, size), spec.guard(s2), s2 != s))
            sub.prove(m, nm + ": own: the specified map is injective", spec.dest(s) != spec.dest(s2))
        return
    if m.path.choose(2) == 0:
        m.path.assume(inset(lcv))
        acc, tg = run_body(m, k, fn, lcv)
        if len(tg) > 1:
            raise I.Unsupported("a parallel loop writes several arrays")
        reads = [a for kind, t, a in acc if kind == "r" and not (tg and t is tg[0])]
        for kind, t, a in acc:
            if kind == "w":
                alts = [z3.And(spec.guard(r), spec.dest(r) == a, own(r) == lcv) for r in reads]
                sub.prove(m, nm + ": wr: each write is the destination of a source of this iteration", z3.Or(alts) if alts else False)
        sub.cover("loop %d body" % li)
        return
    lcv = z3.simplify(own(s))
    m.path.assume(z3.And(z3.ULT(s, size), spec.guard(s)))
    m.path.assume(inset(lcv))
    acc, tg = run_body(m, k, fn, lcv)
    if len(tg) > 1:
        raise I.Unsupported("a parallel loop writes several arrays")
    d = z3.simplify(spec.dest(s))
    if not tg:
        fail(sub, m, nm + ": val: source not moved", str(m.path.pc[-6:]))
        return
    try:
        got = tg[0].get(m, d)
    except UndefRead:
        fail(sub, m, nm + ": val: destination left unwritten", str(m.path.pc[-6:]))
        return
    sub.prove_eq_cx(m, nm + ": val: amplitude at the destination of an arbitrary source", toCx(got), toCx(spec.value(m, s)))
    sub.cover("loop %d moves" % li)


# ---------------------------------------------------------------- contracts of the engine's helpers
def no_ref_capture(m, k, fn):
    if not isinstance(fn, I.Closure):
        return


def c_dispatch(m, obj, refs, node):
    k = m.kern
    if k.inbody:
        raise I.Unsupported("Dispatch() inside a loop body")
    fn = refs[1].get()
    k.inqueue.append(obj)
    m.call_value(fn, [])
    k.inqueue.pop()
    k.pend[id(obj)] = True
    return None


def c_finish(m, obj, refs, node):
    m.kern.pend[id(obj)] = False
    return None


def c_nop(m, obj, refs, node):
    return None


def c_alloc(m, obj, refs, node):
    k = m.kern
    if k.inbody:
        raise I.Unsupported("allocation inside a loop body")
    sv = SV(k, B64(refs[0].get()), Undef(), "new state vector")
    return I.Ptr(sv)


def c_throwif(m, obj, refs, node):
    """ThrowIfQbIdArrayIsBad by its contract (C10): an exception exactly if an index is out of range or repeated"""
    v, n = refs[0].get(), refs[1].get()
    bad = []
    for i, x in enumerate(v.a):
        bad.append(z3.UGE(I.bv(x, 8), I.bv(n, 8)))
        for y in v.a[:i]:
            bad.append(I.bv(x, 8) == I.bv(y, 8))
    if bad and m.branch(z3.Or(bad)):
        raise I.CppThrow("std::invalid_argument")
    return None


def contracts(extra=None):
    P = "Qrack::ParallelFor::"
    c = {P + k: par_contract(k) for k in ("par_for", "par_for_skip", "par_for_mask")}
    c[P + "GetConcurrencyLevel"] = lambda m, o, r, n: 2
    E = "Qrack::QEngineCPU::"
    c[E + "Dispatch"] = c_dispatch
    c[E + "Finish"] = c[E + "Dump"] = c_finish
    c[E + "AllocStateVec"] = c_alloc
    c["Qrack::popCountOcl"] = c_popcount
    c["Qrack::log2"] = c["Qrack::log2Ocl"] = c_log2
    c["Qrack::ThrowIfQbIdArrayIsBad"] = c_throwif
    c["Qrack::QInterface::GetNonunitaryPhase"] = lambda m, o, r, n: phase(m)
    if extra:
        c.update(extra)
    return c


def phase(m):
    m.kern.phases = getattr(m.kern, "phases", 0) + 1
    return Cx(R.atom("gphr"), R.atom("gphi"))


def engine(k, m, n, base=None, norm="one", donorm=False, cls="Qrack::QEngineCPU", floor=0, rgp=False, null=False, name="stateVec"):
    """an engine of n qubits (8-bit term) with arbitrary amplitudes"""
    size = p2(n)
    sv = None if null else I.Ptr(SV(k, size, base or Base("a"), name))
    f = {"qubitCount": n, "maxQPowerOcl": size, "maxQPower": z3.BitVecVal(1, 128) << zx(n, 128), "runningNorm": norm if isinstance(norm, R) else R.const(1),
         "doNormalize": donorm, "randGlobalPhase": rgp, "amplitudeFloor": R.const(floor), "stateVec": sv, "useHostRam": False}
    e = I.Obj(cls, {a: I.Cell(b) for a, b in f.items()})
    if sv is not None:
        sv.to.owner = e
    return e


class Want:
    """What one call of a kernel must do."""
    def __init__(self, final=None, n=None, throws=None, ret=None, specs=None, post=None):
        self.final, self.n, self.throws, self.ret, self.specs, self.post = final, n, throws, ret, specs, post


def verify(prog, pv, df, label, build, con, setup=None, lin=True):
    """build(m, k) -> (engine, argument values, Want).  Want.final: a Gather or Perm specification of the state after the call
    (None: unchanged); Want.throws: condition under which an argument error is thrown before any write."""
    for every in (False, True):
        one = check.Prover(pv.timeout)
        last = True
        try:
            n, ok, given = verify1(prog, one, df, label, build, con, setup, lin, every)
            last = ok or every or not given
        finally:
            pv.functions.update(one.functions)
            if last:
                pv.paths += one.paths
                pv.obls += one.obls
                for a, b in one.covers.items():
                    pv.covers[a] = pv.covers.get(a, 0) + b
        if last:
            return n


def verify1(prog, pv, df, label, build, con, setup, lin, every):
    """every: try all candidate ownership maps, not only those given with the specification"""
    subs = {}
    flags = set()

    def run(m):
        tol.install(m)
        k = K(pv, m, label, [], subs)
        k.allcands = every
        k.flags = flags
        m.kern = k
        m.std.lin = lin
        m.std.sort_contract = True
        k.ints = []

        def i2f(v, st):
            v = z3.simplify(v)
            for t, a in k.ints:
                if t.size() == v.size() and (t.eq(v) or not m.path.sat(t != v)):
                    return a
            for c in (0, 1):
                if not m.path.sat(v != c):
                    return R.const(c)
            a = R.atom("i2f<%s>" % v.sexpr())
            k.ints.append((v, a))
            return a
        m.std.int_to_float = i2f
        k.cpu = 1
        k.pre = lambda m_, b, w: None
        if setup:
            setup(m)
        eng, args, want = build(m, k)
        k.eng = eng
        k.want = want
        k.size = eng.f["maxQPowerOcl"].get() if want.n is None else p2(want.n)
        k.gtarget = None
        sv0 = eng.f["stateVec"].get()
        if sv0 is not None:
            k.gtarget = sv0.to
        k.specs = want.specs if want.specs is not None else ([want.final] if want.final is not None else [])
        n0 = eng.f["qubitCount"].get()
        base0 = sv0.to.base if sv0 is not None else None
        try:
            r = m.call_def(df, [a if isinstance(a, I.Ref) else I.Cell(a) for a in args], eng)
        except I.CppThrow as e:
            nm = label + "argument error only where documented, before any write"
            pv.prove(m, nm, want.throws if want.throws is not None else False, "throws %s" % e.tname)
            if k.writes:
                fail(pv, m, nm, "amplitudes were written before the exception")
            return
        except UndefRead as e:
            fail(pv, m, label + "no read of undefined amplitudes", str(e))
            return
        if want.throws is not None:
            pv.prove(m, label + "out-of-range arguments are rejected", z3.Not(want.throws) if z3.is_expr(want.throws) else (not want.throws))
            m.path.assume(z3.Not(want.throws) if z3.is_expr(want.throws) else (not want.throws))
        if want.ret is not None:
            want.ret(m, k, r)
        nn = n0 if want.n is None else want.n
        pv.prove(m, label + "qubit count afterwards", I.bv(eng.f["qubitCount"].get(), 8) == I.bv(nn, 8))
        pv.prove(m, label + "dimension afterwards", z3.And(B64(eng.f["maxQPowerOcl"].get()) == p2(nn), I.bv(eng.f["maxQPower"].get(), 128) == z3.BitVecVal(1, 128) << zx(nn, 128)))
        final(m, k, eng, want, pv, label, base0)
        if want.post:
            want.post(m, k, eng)
        pv.cover("calls completed")
    n = check.explore(prog, pv, run, con)
    ok = merge(pv, subs)
    return n, ok, bool(flags)


def final(m, k, eng, want, pv, label, base0):
    sp = want.final
    p = eng.f["stateVec"].get()
    if sp == "skip":
        return
    if p is None:
        if sp != "null" and base0 is not None and not getattr(want, "maynull", False):
            fail(pv, m, label + "the state vector is kept", "null state vector afterwards")
        return
    sv = p.to
    j = z3.BitVec("jf", 64)
    m.path.assume(z3.ULT(j, k.size))
    if isinstance(sp, Perm):
        if isinstance(sv.base, Content) and sv.base.spec is sp and not sv.w:
            pv.obls.append(check.Obl(label + "state afterwards is the specified one", "discharged", "execution", 0))
            return
        # no loop ran: the specified map must be the identity on this path
        base0 = getattr(k, "refbase", base0)
        pv.prove(m, label + "state may be left alone only if the map is the identity",
                 z3.Implies(sp.guard(j), sp.dest(j) == j) if base0 is not None and sv.base is base0 and not sv.w else False)
        return
    want_v = toCx(sp.value(m, j)) if sp is not None else base0.at(m, j)
    try:
        got = sv.get(m, j)
    except UndefRead:
        fail(pv, m, label + "every amplitude is defined afterwards", str(m.path.pc[-6:]))
        return
    pv.prove(m, label + "size of the state vector", sv.size == k.size)
    pv.prove_eq_cx(m, label + "state afterwards at an arbitrary basis state", got, want_v)


def merge(pv, subs):
    """Each loop is judged under the first ownership map for which all ownership obligations are discharged."""
    loops = sorted({li for li, _ in subs})
    ok = True
    for li in loops:
        best = None
        for (l, w), s in sorted(subs.items()):
            if l != li:
                continue
            own = [o for o in s.obls if ": own:" in o.name]
            if getattr(s, "noop", False) and getattr(s, "outofplace", False):
                continue
            if own and all(o.status == "discharged" for o in own):
                rest = [o for o in s.obls if ": own:" not in o.name]
                bad = [o for o in rest if o.status != "discharged"]
                if best is None or len(bad) < best[0]:
                    best = (len(bad), s)
        if best is None:
            ok = False
            pv.unsupported("loop %d" % li, "no candidate assignment of locations to iterations could be established: %s" % (
                [(w, o.name, str(o.detail)[:160]) for (l, w), s in sorted(subs.items()) if l == li for o in s.obls if o.status != "discharged"][:3],))
            continue
        pv.obls += best[1].obls
        for a, b in best[1].covers.items():
            pv.covers[a] = pv.covers.get(a, 0) + b
    return ok
