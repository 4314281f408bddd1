"""C10: bit utilities are exact.  Contracts on the helpers of qrack_functions.hpp and functions.cpp over bit vectors."""
import sys, os, shutil, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import astload, interp as I, check, loops, real
from dv.sym import SymVec, SymSet
from dv.interp import Obj, Vec, Cell, Ptr, R, Cx
from dv.astload import params_of, qtype

C = check.Check("C10")
C.harness = "bits.cpp"
CONFIGS = [(7, False), (7, True), (8, False), (8, True)]


def build(scratch):
    """the real sources compiled at every configuration, one executable each, run in turn"""
    import subprocess
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        pw, no128 = k
        d = os.path.join(scratch.dir, "hcfg_%d_%d" % (pw, no128))
        shutil.copytree(scratch.cfg, d)
        setpow(d, pw)
        exe = os.path.join(scratch.dir, "h_%d_%d" % (pw, no128))
        cmd = ["g++", "-O1", "-g0", "-std=gnu++14", "-mrdrnd", "-w", "-DNDEBUG", "-DPARTS=%d" % len(CONFIGS)] + (["-U__SIZEOF_INT128__"] if no128 else [])
        cmd += ["-I" + d, "-I" + d + "/common", "-I" + check.REPO + "/include", "-I" + check.REPO + "/include/common", "-I" + os.path.join(check.VERIF, "replay"),
                os.path.join(check.VERIF, "replay", C.harness), check.REPO + "/src/common/functions.cpp", check.REPO + "/src/common/big_integer.cpp", "-o", exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("harness build failed: " + r.stdout.decode("utf-8", "replace")[-2000:])
        return exe
    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(one, CONFIGS))
    sh = os.path.join(scratch.dir, "h_all")
    open(sh, "w").write("#!/bin/sh\nrc=0\nfor e in %s; do \"$e\" \"$@\" || rc=$?; done\nexit $rc\n" % " ".join(exes))
    os.chmod(sh, 0o755)
    return sh


C.builder = build
C.harness_time = {"quick": 16, "thorough": 160}


def setpow(d, pw):
    p = os.path.join(d, "common", "config.h")
    s = open(p).read()
    open(p, "w").write(re.sub(r"#define QBCAPPOW \d+", "#define QBCAPPOW %d" % pw, s))


class Native:
    """bitCapInt is the compiler's unsigned __int128 (the default configuration)"""
    name, w, lb = "128 native", 128, 8

    def __init__(self, cfg):
        self.prog = astload.Program(["src/common/functions.cpp"], cfg)

    def mk(self, v):
        return v

    def val(self, o):
        while isinstance(o, I.Ref):
            o = o.get()
        return I.bv(o, self.w)

    def contracts(self, pv):
        return {}


class Big(Native):
    """bitCapInt is the BigInteger class; its operations are represented by their contracts (proved under C06)"""
    def __init__(self, name, pw, no128, cfg):
        self.name, self.w, self.wb = name, 1 << pw, 64 if no128 else 128
        self.lb = 8 if pw < 8 else 16
        self.n = self.w // self.wb
        d = os.path.join(C.scratch.dir, "cfg_%s" % re.sub(r"\W", "_", name))
        shutil.copytree(cfg, d)
        setpow(d, pw)
        self.prog = astload.Program(["src/common/functions.cpp"], d, filt=None, ns="", extra=("-U__SIZEOF_INT128__",) if no128 else ())

    def mk(self, v):
        v = z3.simplify(v)
        return Obj("BigInteger", {"bits": Cell(Vec([z3.Extract(self.wb * (i + 1) - 1, self.wb * i, v) if not z3.is_bv_value(v)
                                                         else z3.simplify(z3.Extract(self.wb * (i + 1) - 1, self.wb * i, v)) for i in range(self.n)]))})

    def val(self, o):
        while isinstance(o, (I.Ref, Ptr)):
            o = o.get() if isinstance(o, I.Ref) else o.deref()
        if isinstance(o, (int, z3.BitVecRef)):          # an argument of word type, converted implicitly
            return z3.BitVecVal(o, self.w) if isinstance(o, int) else zx(o, self.w)
        ws = [I.bv(x, self.wb) for x in o.f["bits"].get().a]
        if all(z3.is_app_of(x, z3.Z3_OP_EXTRACT) and x.params() == [self.wb * (i + 1) - 1, self.wb * i] for i, x in enumerate(ws)):
            t = ws[0].arg(0)
            if t.size() == self.w and all(x.arg(0).eq(t) for x in ws):
                return t
        return z3.simplify(z3.Concat(*reversed(ws)))

    def contracts(self, pv):
        def isbig(r):
            o = r
            while isinstance(o, (I.Ref, Ptr)):
                o = o.get() if isinstance(o, I.Ref) else o.deref()
            return isinstance(o, Obj) and o.cls.endswith("BigInteger")

        def binop(f):
            def g(m, obj, refs, n):
                refs = ([obj] if obj is not None else []) + list(refs)
                if not any(isbig(r) for r in refs):
                    return NotImplemented
                return self.mk(f(*[self.val(r) for r in refs]))
            return g

        def shift(f, ip):
            def g(m, obj, refs, n):
                if not isbig(refs[0]):
                    return NotImplemented
                s = refs[1].get() if isinstance(refs[1], I.Ref) else refs[1]
                s = I.bv(s, s.size() if not isinstance(s, int) else 64)
                if s.size() >= 16:
                    pv.prove(m, "shift count is below the width", z3.ULT(s, z3.BitVecVal(self.w, s.size())))
                r = f(self.val(refs[0]), zx(s, self.w))
                if ip:
                    self.put(refs[0], r)
                else:
                    return self.mk(r)
            return g

        def ipop(f):
            def g(m, obj, refs, n):
                self.put(refs[0], f(self.val(refs[0]), *[self.val(r) for r in refs[1:]]))
            return g

        def three(a, b):
            return z3.simplify(z3.If(z3.UGT(a, b), z3.BitVecVal(1, 32), z3.If(z3.ULT(a, b), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32))))

        def log2(m, obj, refs, n):
            v = self.val(refs[0])
            x = z3.BitVec(m.path.fresh("log2"), 32)
            m.path.assume(z3.And(x >= 0, x < self.w, z3.If(v == 0, x == 0, z3.LShR(v, zx(x, self.w)) == 1)))
            return x

        def rel(f):
            def g(m, obj, refs, n):
                refs = ([obj] if obj is not None else []) + list(refs)
                return f(self.val(refs[0]), self.val(refs[1])) if any(isbig(r) for r in refs) else NotImplemented
            return g

        def div(m, obj, refs, n):
            a, b = self.val(refs[0]), self.val(refs[1])
            pv.prove(m, "divisor is not 0", b != 0)
            for r, v in ((refs[2], z3.UDiv(a, b)), (refs[3], z3.URem(a, b))):
                p = r.get() if isinstance(r, I.Ref) else r
                if p is not None:
                    t = p.deref()
                    if isbig(t):
                        self.put(p, v)
                    else:
                        t.set(z3.simplify(z3.Extract(self.wb // 2 - 1, 0, v)))
        return {
            "operator+": binop(lambda a, b: a + b), "operator-": binop(lambda a, b: a - b), "operator*": binop(lambda a, b: a * b),
            "operator&": binop(lambda a, b: a & b), "operator|": binop(lambda a, b: a | b), "operator^": binop(lambda a, b: a ^ b),
            "operator~": binop(lambda a: ~a), "operator<<": shift(lambda a, s: a << s, False), "operator>>": shift(z3.LShR, False),
            "bi_lshift_ip": shift(lambda a, s: a << s, True), "bi_rshift_ip": shift(z3.LShR, True),
            "bi_add_ip": ipop(lambda a, b: a + b), "bi_sub_ip": ipop(lambda a, b: a - b), "bi_and_ip": ipop(lambda a, b: a & b),
            "bi_or_ip": ipop(lambda a, b: a | b), "bi_xor_ip": ipop(lambda a, b: a ^ b), "bi_not_ip": ipop(lambda a: ~a),
            "bi_increment": ipop(lambda a, b: a + b), "bi_decrement": ipop(lambda a, b: a - b),
            "bi_compare": lambda m, o, r, n: three(self.val(r[0]), self.val(r[1])),
            "bi_compare_0": lambda m, o, r, n: z3.simplify(z3.If(self.val(r[0]) == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))),
            "bi_compare_1": lambda m, o, r, n: three(self.val(r[0]), z3.BitVecVal(1, self.w)),
            "bi_and_1": lambda m, o, r, n: z3.simplify(z3.ZeroExt(31, z3.Extract(0, 0, self.val(r[0])))),
            "bi_log2": log2, "bi_div_mod": div, "bi_div_mod_small": div,
            "operator==": rel(lambda a, b: a == b), "operator<": rel(z3.ULT), "operator<=": rel(z3.ULE), "operator>": rel(z3.UGT), "operator>=": rel(z3.UGE),
        }

    def put(self, p, v):
        o = p
        while isinstance(o, I.Ref):
            o = o.get()
        t = o.deref().get() if isinstance(o, Ptr) else o
        t.f["bits"].set(Vec(self.mk(v).f["bits"].get().a))


def zx(v, w):
    return v if v.size() == w else (z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v))


def deref(r):
    while isinstance(r, I.Ref):
        r = r.get()
    return r


def tobool(x):
    x = I.to_bool(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def register(c):
    W, LB = c.w, c.lb

    def fdef(name):
        df = c.prog.func1("Qrack::" + name) if hasattr(c.prog, "func1") else None
        if df is None:
            ds = c.prog.func("Qrack::" + name) or c.prog.func(name)
            df = ds[0] if len(ds) == 1 else None
        if df is None:
            df = c.prog.aux_func(name, None)
        if df is None:
            raise I.Unsupported("no single definition of %s" % name)
        return df

    def task(name, mk, post, domain=None, maxsym=None, specs=None, extra=None, label="", throws=False):
        nm = "%s%s %s" % (name, label, c.name)

        def t(pv):
            df = fdef(name)

            def run(m):
                m.check_shift = True
                m.ubs = []
                m.MAXSYM = maxsym or W + 2
                args, g = mk(m, pv)
                if domain is not None:
                    m.path.assume(domain(*g))
                if specs:
                    loops.install(m, pv, specs(m, g), "")
                thrown = None
                try:
                    r = m.call_def(df, args)
                    r = deref(r) if not (isinstance(c, Big)) else r
                except I.CppThrow as e:
                    if not throws:
                        raise
                    r, thrown = None, e
                if throws:
                    post(m, pv, nm, r, g, thrown)
                else:
                    post(m, pv, nm, r, *g)
                if m.ubs:
                    pv.fail(nm + ": no undefined arithmetic", "; ".join(m.ubs[:3]))
            con = c.contracts(pv)
            if extra:
                con.update(extra(pv))
            check.explore(c.prog, pv, run, contracts=con, max_paths=3000)
        C.task(nm, t, [name])

    def simple(name, shape, f, domain=None, **k):
        """shape: B wide integer, O 64-bit index integer, L qubit index; f gives the result (wide, 64-bit, index or boolean)"""
        def mk(m, pv):
            a, g = [], []
            for i, s in enumerate(shape):
                v = z3.BitVec("%s%d" % (s.lower(), i), {"B": W, "O": 64, "L": LB}[s])
                g.append(v)
                a.append(c.mk(v) if s == "B" else v)
            return a, g

        def post(m, pv, nm, r, *g):
            want = f(*g)
            r0 = deref(r)
            if isinstance(want, z3.BoolRef):
                pv.prove(m, nm + ": result", tobool(r0) == want)
            elif want.size() == W and W > 64:
                pv.prove(m, nm + ": result", c.val(r) == want)
            else:
                pv.prove(m, nm + ": result", I.bv(r0, want.size()) == want)
        task(name, mk, post, domain, **k)

    one, oneO = z3.BitVecVal(1, W), z3.BitVecVal(1, 64)
    ltw = lambda p: z3.ULT(zx(p, 32), W)
    lt64 = lambda p: z3.ULT(zx(p, 32), 64)

    # logarithms: the position of the highest set bit (0 for 0 is what callers rely on for the wide version)
    def logtask(name, w, dom0):
        def mk(m, pv):
            v = z3.BitVec("n", w)
            m.path.assume(v != 0)
            return [c.mk(v) if w == W else v], [v]

        def post(m, pv, nm, r, v):
            x = deref(r)
            x = I.bv(x, 32 if isinstance(x, int) else x.size())
            pv.prove(m, nm + ": 2^r <= n < 2^(r+1)", z3.And(z3.ULT(zx(x, 32), w), z3.LShR(v, zx(x, w)) == 1))
        task(name, mk, post, maxsym=w + 2)
    logtask("log2Ocl", 64, True)
    logtask("log2", W, True)
    if not isinstance(c, Big):
        logtask("bi_log2", W, True)

    def pc(v):
        r = z3.BitVecVal(0, LB)
        for i in range(64):
            r = r + z3.ZeroExt(LB - 1, z3.Extract(i, i, v))
        return r
    simple("popCountOcl", "O", pc, maxsym=66)
    simple("pow2", "L", lambda p: one << zx(p, W), ltw)
    simple("pow2Ocl", "L", lambda p: oneO << zx(p, 64), lt64)
    simple("pow2Mask", "L", lambda p: (one << zx(p, W)) - 1, ltw)
    simple("pow2MaskOcl", "L", lambda p: (oneO << zx(p, 64)) - 1, lt64)
    simple("bitSlice", "LB", lambda p, s: (one << zx(p, W)) & s, lambda p, s: ltw(p))
    simple("bitSliceOcl", "LO", lambda p, s: (oneO << zx(p, 64)) & s, lambda p, s: lt64(p))
    simple("bitRegMask", "LL", lambda s, n: ((one << zx(n, W)) - 1) << zx(s, W), lambda s, n: z3.And(ltw(s), ltw(n)))
    simple("bitRegMaskOcl", "LL", lambda s, n: ((oneO << zx(n, 64)) - 1) << zx(s, 64), lambda s, n: z3.And(lt64(s), lt64(n)))
    p2 = lambda x: z3.And(x != 0, (x & (x - 1)) == 0)
    simple("isPowerOfTwo", "B", p2)
    simple("isPowerOfTwoOcl", "O", p2)
    simple("isRegisterWrap", "BL", lambda v, n: (v & ((one << zx(n, W)) - 1)) == 0, lambda v, n: ltw(n))
    simple("isBadBitRange", "LLL", lambda s, n, q: z3.UGT(zx(s, LB + 1) + zx(n, LB + 1), zx(q, LB + 1)))
    simple("isBadPermRange", "OOO", lambda s, n, q: z3.UGT(zx(s, 65) + zx(n, 65), zx(q, 65)))

    # "x & (x - 1) == 0" is the power-of-two test used as specification above: equal to "x has one set bit"
    def lem(pv):
        m = I.Machine(c.prog)
        x, k = z3.BitVecs("x k", 64)
        pv.prove(m, "lemma: a power of two passes the test", z3.Implies(z3.ULT(k, 64), z3.And((oneO << k) != 0, ((oneO << k) & ((oneO << k) - 1)) == 0)))
        pv.prove(m, "lemma: only powers of two pass the test", z3.Implies(z3.And(x != 0, (x & (x - 1)) == 0, z3.ULT(k, 64), z3.LShR(x, k) == 1), x == oneO << k))
    C.task("power of two lemma " + c.name, lem, [])

    # signed overflow of addition and subtraction in a register of 1 to 63 bits
    def ovf(name, sub):
        def mk(m, pv):
            a, b, n = z3.BitVecs("a b n", 64)
            sm, lp = oneO << (n - 1), oneO << n
            m.path.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 63), z3.ULT(a, lp), z3.ULT(b, lp)))
            return [a, b, sm, lp], [a, b, sm, lp]

        def post(m, pv, nm, r, a, b, sm, lp):
            s = lambda x: z3.If((x & sm) != 0, zx(x, 66) - zx(lp, 66), zx(x, 66))
            t = s(a) - s(b) if sub else s(a) + s(b)
            pv.prove(m, nm + ": flag is that the exact signed result does not fit", tobool(deref(r)) == z3.Or(t < -zx(sm, 66), t >= zx(sm, 66)))
        task(name, mk, post)
    ovf("isOverflowAdd", False)
    ovf("isOverflowSub", True)

    # pushApartBits: a vector of any length, ascending powers of two; zero bits are inserted at those positions
    SP = z3.Function("SP", z3.BitVecSort(64), z3.BitVecSort(W))
    T = z3.Function("T", z3.BitVecSort(64), z3.BitVecSort(W))

    def ins(v, p):
        """insert a zero bit at the position of the power p"""
        lo = v & (p - 1)
        return lo | ((v ^ lo) << 1)

    def papush():
        def mk(m, pv):
            v, n = z3.BitVec("perm", W), z3.BitVec("n", 64)
            m.path.assume(T(z3.BitVecVal(0, 64)) == v)
            m.path.assume(z3.ULE(n, W))
            vec = SymVec(pv, n, lambda i: c.mk(SP(i)), "skipPowers")
            return [c.mk(v), vec], [v, n]

        def specs(m, g):
            v, n = g
            k = z3.BitVec("k", 64)
            # definition instances for the iteration under proof: T(k+1) = ins(T(k), SP(k)); powers of two, ascending
            def pow2at(i):
                return z3.And(SP(i) != 0, (SP(i) & (SP(i) - 1)) == 0)

            def havoc(env, g0, _):
                ih, i = z3.BitVec("ihigh", W), z3.BitVec("i", W)
                env.set("iHigh", c.mk(ih))
                env.set("i", c.mk(i))
                setk(env, k)
                m.path.assume(z3.And(pow2at(k), z3.Implies(k != 0, z3.And(pow2at(k - 1), z3.ULT(SP(k - 1), SP(k))))))
                m.path.assume(T(k + 1) == ins(T(k), SP(k)))
                return None

            def setk(env, kk):
                try:
                    env.range_index().set(kk)
                except I.Unsupported:
                    env.set("p", kk)

            def getk(env):
                try:
                    return env.range_index().get()
                except I.Unsupported:
                    return I.bv(env.get("p"), 64)

            def inv(env, g_, kk):
                ih, i, p = c.val(env.get("iHigh")), c.val(env.get("i")), getk(env)
                last = SP(p - 1)
                return [("the counter is within the vector", z3.ULE(p, n)),
                        ("i | iHigh is the index with the first zero bits inserted", (i | ih) == T(p)),
                        ("iHigh and i have no bit in common", (i & ih) == 0),
                        ("i is below, and iHigh above, the last inserted bit", z3.If(p == 0, i == 0, z3.And((ih & ((last << 1) - 1)) == 0, z3.Or((last << 1) == 0, z3.ULT(i, last)), z3.ULT(i, last))))]
            return [loops.LoopSpec("Qrack::pushApartBits", lambda nd, fr: True, havoc, inv)]

        def post(m, pv, nm, r, v, n):
            pv.prove(m, nm + ": the index with zero bits inserted at every skip power", c.val(r) == T(n))
        task("pushApartBits", mk, post, specs=specs)
    papush()

    # ThrowIfQbIdArrayIsBad: a vector of any length
    CT = z3.Function("CT", z3.BitVecSort(64), z3.BitVecSort(LB))
    SEEN = z3.Function("SEEN", z3.BitVecSort(64), z3.ArraySort(z3.BitVecSort(LB), z3.BoolSort()))
    GOOD = z3.Function("GOOD", z3.BitVecSort(64), z3.BoolSort())

    def idarr():
        Z = z3.BitVecVal(0, 64)

        def mk(m, pv):
            n, q = z3.BitVec("n", 64), z3.BitVec("qubitCount", LB)
            m.path.assume(z3.And(SEEN(Z) == z3.K(z3.BitVecSort(LB), z3.BoolVal(False)), GOOD(Z)))
            return [SymVec(pv, n, lambda i: CT(i), "controls"), q, "message"], [n, q]

        def specs(m, g):
            n, q = g
            k = z3.BitVec("k", 64)

            def setkey(env, v):
                try:
                    env.range_index().set(v)
                except I.Unsupported:
                    env.set("i", v)

            def getkey(env):
                try:
                    return env.range_index().get()
                except I.Unsupported:
                    return I.bv(env.get("i"), 64)

            def before(env):
                s = SymSet(LB)
                if env.get("dupes").__class__.__name__ == "PyMap" and not env.get("dupes").d:
                    env.set("dupes", s)
                return None

            def havoc(env, g0, _):
                s = SymSet(LB)
                s.a = SEEN(k)
                env.set("dupes", s)
                setkey(env, k)
                m.path.assume(SEEN(k + 1) == z3.Store(SEEN(k), CT(k), z3.BoolVal(True)))
                m.path.assume(GOOD(k + 1) == z3.And(GOOD(k), z3.ULT(CT(k), q), z3.Not(z3.Select(SEEN(k), CT(k)))))
                return None

            def inv(env, g_, kk):
                i = getkey(env)
                return [("the counter is within the vector", z3.ULE(i, n)), ("the set holds the elements visited", env.get("dupes").a == SEEN(i)), ("the elements visited are in range and distinct", GOOD(i))]
            return [loops.LoopSpec("Qrack::ThrowIfQbIdArrayIsBad", lambda nd, fr: True, havoc, inv, before=before)]

        def post(m, pv, nm, r, g, thrown):
            n, q = g
            k = z3.BitVec("k", 64)
            if thrown is not None:
                pv.prove(m, nm + ": it throws only where an element is out of range or repeated", z3.And(z3.ULT(k, n), z3.Not(GOOD(k + 1))))
                pv.cover(nm + ": throws")
            else:
                pv.prove(m, nm + ": it returns only if all elements are in range and distinct", GOOD(n))
        task("ThrowIfQbIdArrayIsBad", mk, post, specs=specs, throws=True)
    idarr()

    # integer powers, by recursion on the contract of the function itself
    def power(name, w):
        P = z3.Function("POW_%d" % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))

        def mk(m, pv):
            b, p = z3.BitVecs("base power", w)
            h = z3.LShR(p, 1)
            # definition of the power: b^0 = 1, b^1 = b, b^(2h) = (b^h)^2, b^(2h+1) = (b^h)^2 * b
            m.path.assume(z3.And(P(b, z3.BitVecVal(0, w)) == 1, P(b, z3.BitVecVal(1, w)) == b))
            m.path.assume(P(b, p) == z3.If((p & 1) == 1, P(b, h) * P(b, h) * b, P(b, h) * P(b, h)))
            m.depth0 = (b, p)
            return [c.mk(b) if w == W else b, c.mk(p) if w == W else p], [b, p]

        def post(m, pv, nm, r, b, p):
            pv.prove(m, nm + ": base to the power", (c.val(r) if w == W else I.bv(deref(r), w)) == P(b, p))

        def extra(pv):
            def self_(m, obj, refs, n):
                b = c.val(refs[0]) if w == W else I.bv(deref(refs[0]), w)
                p = c.val(refs[1]) if w == W else I.bv(deref(refs[1]), w)
                pv.prove(m, name + ": the recursion is on a smaller power", z3.ULT(p, m.depth0[1]))
                r = P(b, p)
                return c.mk(r) if w == W else r
            return {"Qrack::" + name: self_}
        task(name, mk, post, extra=extra)
    power("intPowOcl", 64)
    if W == 128 or check.TIER == "thorough":
        power("intPow", W)


def matrices(cfg):
    prog = astload.Program(["src/common/functions.cpp"], cfg)

    def cxs(n):
        return [Cx(real.R.atom("re<%s%d>" % (n, i)), real.R.atom("im<%s%d>" % (n, i))) for i in range(4)]

    def mul(pv):
        def run(m):
            a, b = cxs("a"), cxs("b")
            out = Vec([Cx() for _ in range(4)])
            m.call_def(prog.func("Qrack::mul2x2")[0], [Ptr(Vec(list(a)), 0), Ptr(Vec(list(b)), 0), Ptr(out, 0)])
            for i in range(2):
                for j in range(2):
                    pv.prove_eq_cx(m, "mul2x2: entry %d%d is the matrix product" % (i, j), out.a[2 * i + j], a[2 * i] * b[j] + a[2 * i + 1] * b[2 + j])
        check.explore(prog, pv, run)
    C.task("mul2x2", mul, ["mul2x2"])

    def inv(pv):
        def run(m):
            a = cxs("a")
            out = Vec([Cx() for _ in range(4)])
            m.call_def(prog.func("Qrack::inv2x2")[0], [Ptr(Vec(list(a)), 0), Ptr(out, 0)])
            o = out.a
            one, zero = Cx(real.R.const(1), real.R.const(0)), Cx()
            for i in range(2):
                for j in range(2):
                    pv.prove_eq_cx(m, "inv2x2: the product with the matrix, entry %d%d, is the identity's (nonzero determinant)" % (i, j), o[2 * i] * a[j] + o[2 * i + 1] * a[2 + j], one if i == j else zero)
        check.explore(prog, pv, run)
    C.task("inv2x2", inv, ["inv2x2"])


def prepare(cfg):
    register(Native(cfg))
    register(Big("256/128", 8, False, cfg))
    if check.TIER == "thorough":
        register(Big("128/64", 7, True, cfg))
        register(Big("512/128", 9, False, cfg))
    matrices(cfg)


C.assumptions = [
    "the range-for and index loops of pushApartBits and ThrowIfQbIdArrayIsBad are proved for vectors of every length by loop contracts; skip powers are powers of two in ascending order (what every caller passes)",
    "where bitCapInt is the BigInteger class, its operations are represented by their contracts, which the check of C06 discharges",
    "matrix helpers: floating-point rounding is not modelled (exact real arithmetic); SSE intrinsics by the contracts of dv/simd.py",
    "log2 of 0 is outside the domain",
]
C.standins = [
    "decimal printing and parsing (std::ostream, std::istream), exp2x2 and log2x2: bounded differential runs of the real functions against an independent reference at the configurations %s (QBCAPPOW, without __int128)" % CONFIGS,
]

if __name__ == "__main__":
    C.run(prepare)
