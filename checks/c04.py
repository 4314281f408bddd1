"""C04: arithmetic kernels of the CPU engine against integer arithmetic, at an arbitrary basis state."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from dv import astload, interp as I, check, tol
from dv.kern import *
from dv.engops import *
from dv.real import R, Cx, toCx
from dv.astload import params_of, has_body

C = check.Check("C04")
C.harness = "diff.cpp"
FILES = ["src/qengine/arithmetic.cpp", "src/qengine/qengine.cpp", "src/qalu.cpp", "src/common/functions.cpp"]
CPU = "Qrack::QEngineCPU::"
ALU = "Qrack::QAlu::"
THOROUGH = check.TIER == "thorough"


def big(name):
    return z3.BitVec(name, 128)


def lo64(x):
    return z3.Extract(63, 0, x)


def sgn(v, L):
    """the L-bit field v as a signed integer in 64 bits"""
    return z3.If((v & p2(L - 1)) != 0, v - p2(L), v)


def overflow(a, c, L):
    """does the signed sum of two L-bit integers leave the L-bit range?"""
    t = sgn(a, L) + sgn(c, L)
    h = p2(L - 1)
    return z3.Or(t >= h, t < -h)


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    con = contracts()

    def defn(q, nparams=None, pick=None):
        l = [d for d in prog.func(q) if has_body(d) and (nparams is None or len(params_of(d)) == nparams) and (pick is None or pick(d))]
        if not l:
            raise RuntimeError("no definition of %s" % q)
        return l[0]

    def task(name, df, builds, con_=None):
        for label, b in builds:
            C.task("%s(%s)" % (name, label), lambda pv, label=label, b=b: verify(prog, pv, df, "%s(%s): " % (name, label), b, con_ or con), [df["_q"]])

    # ---- rotation and addition
    def b_rol(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        s, l = rng(m, n, "r")
        sh = z3.BitVec("sh", 8)
        m.path.assume(z3.UGT(l, 0))
        # the remainder sh % l, taken by the code in 32-bit arithmetic of two 8-bit values
        rem = z3.Function("rem8", z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(8))
        r = rem(sh, l)
        m.path.assume(z3.And(z3.ULT(r, l), z3.Implies(z3.ULT(sh, l), r == sh)))

        def hook(op, x, y, w, sg):
            if op == "%" and w == 32 and z3.simplify(x).eq(z3.simplify(zx(sh, 32))) and z3.simplify(y).eq(z3.simplify(zx(l, 32))):
                return zx(r, 32)
            return None
        m.std.arith_hook = hook

        # (a rotation of the register is one-to-one)
        def dest(j):
            v = z3.LShR(j & rmask(s, l), zx(s))
            o = (p2(n) - 1) ^ rmask(s, l)
            for what, g in (("field", v == field(j, s, l)), ("other bits", z3.Implies(z3.ULT(j, p2(n)), j & o == j & ~rmask(s, l)))):
                if str(j) == "s":
                    k.pv.prove(m, k.label + "lemma: " + what, g)
            return (j & o) | ((z3.LShR(v, zx(l - r)) | ((v << zx(r)) & lowmask(l))) << zx(s))
        return e, [sh, s, l], Want(Perm(ALL, dest, lambda m_, j: b.at(m_, j), rest="bijection", inj=False))

    def b_rol0(m, k):
        n = nq(m)
        e = engine(k, m, n, Base("a"))
        s = z3.BitVec("s", 8)
        m.path.assume(z3.ULE(s, n))
        return e, [z3.BitVec("sh", 8), s, 0], Want(None)
    task("ROL", defn(CPU + "ROL"), [("all shifts and registers", b_rol), ("empty register", b_rol0)])

    ALL = lambda j: z3.BoolVal(True)

    def add_src(c, s, l):
        return lambda j: setfield(j, s, l, field(j, s, l) - c)

    def b_inc(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        s, l = rng(m, n, "r")
        c = big("c")
        return e, [c, s, l], Want(Perm(ALL, add_src(-lo64(c), s, l), lambda m_, j: b.at(m_, j), rest="bijection"))
    task("INC", defn(CPU + "INC"), [("all addends and registers", b_inc)])

    def ctrls(m, n, nc):
        cq = [z3.BitVec("c%d" % i, 8) for i in range(nc)]
        for c in cq:
            m.path.assume(z3.ULT(c, n))
        distinct(m, cq)
        return cq, orall([p2(c) for c in cq])

    V = lambda cq: I.Vec(list(cq), "bitLenInt")

    def b_cinc(nc):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            s, l = rng(m, n, "r")
            c = big("c")
            cq, cm = ctrls(m, n, nc)
            apart(m, (s, l), *[(x, 1) for x in cq])
            src = add_src(lo64(c), s, l)
            full = lambda j: z3.If((j & cm) == cm, src(j), j)
            return e, [c, s, l, V(cq)], Want(Gather(lambda m_, j: b.at(m_, full(j)), [lambda j: full(j) & ~cm]))
        return f
    cc = dict(con)

    def c_inc(m, o, refs, node):
        c, s, l = [r.get() for r in refs]
        sv, pr = prev(o)
        src = add_src(lo64(c), I.bv(s, 8), I.bv(l, 8))
        become(m, o, lambda m_, j: pr(m_, src(j)))
    cc[CPU + "INC"] = c_inc
    task("CINC", defn(CPU + "CINC"), [("%d controls" % i, b_cinc(i)) for i in ((0, 1, 2, 3) if THOROUGH else (0, 1, 2))], cc)

    # ---- addition with carry out (carry in is clear), signed variants
    def carry_dest(j, x, s, l, cq):
        """basis state after register := v + x, the carry qubit taking the carry out"""
        J = field(j, s, l) + x
        return setfield(j, s, l, J) | z3.If(z3.UGE(J, p2(l)), p2(cq), z3.BitVecVal(0, 64))

    def b_carry(kind):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            s, l = rng(m, n, "r", 1)
            cq = z3.BitVec("cq", 8)
            m.path.assume(z3.ULT(cq, n))
            e = engine(k, m, n, Masked(b, lambda j: z3.Not(isset(j, cq))))
            c = big("c")
            cl = lo64(c) & lowmask(l)
            rs = [(s, l), (cq, 1)]
            args = [c, s, l]
            if kind == "sco":
                oq = z3.BitVec("oq", 8)
                m.path.assume(z3.ULT(oq, n))
                rs.append((oq, 1))
                args.append(oq)
            args.append(cq)
            apart(m, *rs)

            clear = lambda j: z3.Not(isset(j, cq))
            dest = lambda j: carry_dest(j, cl, s, l, cq)

            def val(m_, j):
                a = b.at(m_, j)
                if kind != "c" and m_.branch(overflow(field(j, s, l), cl, l)) and (kind == "sc" or m_.branch(isset(j, oq))):
                    return -a
                return a
            return e, args, Want(Perm(clear, dest, val))
        return f

    def ov_arg(d):
        return len(params_of(d)) == 5
    task("INCDECC", defn(CPU + "INCDECC"), [("all addends, carry clear", b_carry("c"))])
    task("INCDECSC", defn(CPU + "INCDECSC", 4), [("all addends, carry clear", b_carry("sc"))])
    task("INCDECSC/overflow", defn(CPU + "INCDECSC", 5), [("all addends, carry clear", b_carry("sco"))])

    def b_incs(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        s, l = rng(m, n, "r", 1)
        oq = z3.BitVec("oq", 8)
        m.path.assume(z3.ULT(oq, n))
        apart(m, (s, l), (oq, 1))
        c = big("c")
        cl = lo64(c) & lowmask(l)

        def val(m_, j):
            a = b.at(m_, j)
            return -a if m_.branch(isset(j, oq)) and m_.branch(overflow(field(j, s, l), cl, l)) else a
        return e, [c, s, l, oq], Want(Perm(ALL, add_src(-cl, s, l), val))
    task("INCS", defn(CPU + "INCS"), [("all addends and registers", b_incs)])


    mc = dict(con)
    mc["Qrack::QInterface::SetReg"] = mc[CPU + "SetReg"] = mc["Qrack::QEngine::SetReg"] = c_setreg
    ic = dict(mc)
    for c_, nm, fn in ((CPU, "M", c_m), (CPU, "X", c_x), ("Qrack::QEngine::", "M", c_m), ("Qrack::QEngine::", "X", c_x), ("Qrack::QInterface::", "M", c_m), ("Qrack::QInterface::", "X", c_x), (ALU, "M", c_m), (ALU, "X", c_x)):
        ic[c_ + nm] = fn

    # ---- wrappers of QAlu: subtraction, carry in (the callees by the contracts proved above)
    def add_fn(pr, x, s, l):
        return lambda m_, j: pr(m_, setfield(j, s, l, field(j, s, l) - x))

    def c_cinc(m, o, refs, node):
        c, s, l, cv = [r.get() for r in refs]
        o = m.kern.eng
        sv, pr = prev(o)
        s, l = I.bv(s, 8), I.bv(l, 8)
        cm = orall([p2(x) for x in m.kern.controls])
        src = add_src(lo64(c), s, l)
        become(m, o, lambda m_, j: pr(m_, z3.If((j & cm) == cm, src(j), j)))

    def c_incs(m, o, refs, node):
        c, s, l, oq = [r.get() for r in refs]
        o = m.kern.eng
        sv, pr = prev(o)
        s, l, oq = I.bv(s, 8), I.bv(l, 8), I.bv(oq, 8)
        become(m, o, incs_fn(pr, lo64(I.bv(c, 128)) & lowmask(l), s, l, oq))

    def incs_fn(pr, cl, s, l, oq):
        def f(m_, j):
            i = setfield(j, s, l, field(j, s, l) - cl)
            a = pr(m_, i)
            return -a if m_.branch(isset(i, oq)) and m_.branch(overflow(field(i, s, l), cl, l)) else a
        return f

    def carry_fn(pr, x, s, l, cq, signed=False, oq=None):
        """amplitude at j after register := v + x (x < 2^length), carry qubit := carry out, from a state whose carry qubit is known to
        be clear, or ignored"""
        def f(m_, j):
            v = (field(j, s, l) - x) & lowmask(l)
            if not m_.branch(z3.UGE(v + x, p2(l)) == isset(j, cq)):
                return Cx(0)
            i = setfield(j & ~p2(cq), s, l, v)
            a = pr(m_, i)
            if signed and m_.branch(overflow(v, x, l)) and (oq is None or m_.branch(isset(j, oq))):
                return -a
            return a
        return f

    def c_carry(signed):
        def f(m, o, refs, node):
            c, s, l = [r.get() for r in refs[:3]]
            qq = [I.bv(r.get(), 8) for r in refs[3:]]
            o = m.kern.eng
            sv, pr = prev(o)
            s, l = I.bv(s, 8), I.bv(l, 8)
            j = z3.BitVec(m.path.fresh("jc"), 64)
            m.path.assume(z3.And(z3.ULT(j, m.kern.size), isset(j, qq[-1])))
            m.kern.pv.prove_eq_cx(m, m.kern.label + "precondition: the carry qubit is clear", toCx(pr(m, j)), Cx(0))
            m.kern.incs = getattr(m.kern, "incs", 0) + 1
            become(m, o, carry_fn(pr, lo64(I.bv(c, 128)) & lowmask(l), s, l, qq[-1], signed, qq[0] if len(qq) > 1 else None))
        return f
    wc = dict(ic)
    for nm, fn in (("INC", None), ("CINC", c_cinc), ("INCS", c_incs), ("INCDECC", c_carry(False)), ("INCDECSC", c_carry(True))):
        for c_ in (CPU, ALU, "Qrack::QInterface::", "Qrack::QEngine::"):
            wc[c_ + nm] = fn or (lambda m, o, refs, node: c_inc(m, m.kern.eng, refs, node))

    def b_wrap(kind, sub, nc=0):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            s, l = rng(m, n, "r", 0 if kind in ("inc", "cinc") else 1)
            c = big("c")
            cl = lo64(c)
            args, rs = [c, s, l], [(s, l)]
            if kind == "inc":
                return e, args, Want(Gather(lambda m_, j: b.at(m_, add_src(-cl, s, l)(j))))
            if kind == "cinc":
                cq, cm = ctrls(m, n, nc)
                k.controls = cq
                apart(m, (s, l), *[(x, 1) for x in cq])
                src = add_src(-cl, s, l)
                return e, args + [V(cq)], Want(Gather(lambda m_, j: b.at(m_, z3.If((j & cm) == cm, src(j), j))))
            oq = z3.BitVec("oq", 8)
            cq = z3.BitVec("cq", 8)
            if kind in ("s", "sco"):
                m.path.assume(z3.ULT(oq, n))
                rs.append((oq, 1))
                args.append(oq)
            if kind == "s":
                apart(m, *rs)
                return e, args, Want(Gather(incs_fn(b.at, -cl & lowmask(l), s, l, oq)))
            m.path.assume(z3.ULT(cq, n))
            rs.append((cq, 1))
            args.append(cq)
            apart(m, *rs)

            def val(m_, j):
                one = bool(k.outcomes[-1])
                pr = lambda m2, i: k.mbase.at(m2, i | p2(cq) if one else i)
                # addend with the carry in: c + carry, or 2^length - c - 1 + carry; a sum of 2^length leaves the register and carries out
                x = (-cl - 1 if sub else cl) + (1 if one else 0)
                x = x & lowmask(l)
                if one and m_.branch(x == 0):
                    return pr(m_, j) if m_.branch(isset(j, cq)) else Cx(0)
                return carry_fn(pr, x, s, l, cq, kind != "c", oq if kind == "sco" else None)(m_, j)
            return e, args, Want(Gather(val))
        return f
    task("DEC", defn(ALU + "DEC"), [("all subtrahends and registers", b_wrap("inc", True))], wc)
    task("CDEC", defn(ALU + "CDEC"), [("%d controls" % i, b_wrap("cinc", True, i)) for i in (0, 1, 2)], wc)
    task("DECS", defn(ALU + "DECS"), [("all subtrahends and registers", b_wrap("s", True))], wc)
    task("INCC", defn(ALU + "INCC"), [("all addends, any carry in", b_wrap("c", False))], wc)
    task("DECC", defn(ALU + "DECC"), [("all subtrahends, any carry in", b_wrap("c", True))], wc)
    task("INCSC", defn(ALU + "INCSC", 4), [("all addends, any carry in", b_wrap("sc", False))], wc)
    task("DECSC", defn(ALU + "DECSC", 4), [("all subtrahends, any carry in", b_wrap("sc", True))], wc)
    task("INCSC/overflow", defn(ALU + "INCSC", 5), [("all addends, any carry in", b_wrap("sco", False))], wc)
    task("DECSC/overflow", defn(ALU + "DECSC", 5), [("all subtrahends, any carry in", b_wrap("sco", True))], wc)


    # ---- multiplication and division (the product is kept in a second register)
    def mul_regs(m, n, c, cq=()):
        s, l = rng(m, n, "r", 1)
        t = z3.BitVec("carS", 8)
        m.path.assume(z3.And(z3.ULE(t, n), z3.ULE(l, n - t)))
        apart(m, (s, l), (t, l), *[(x, 1) for x in cq])
        return s, l, t

    def mul_dest(m, c, s, l, t):
        def f(j):
            P = mul(m, field(j, s, l), lo64(c))
            return setfield(setfield(j, s, l, P), t, l, z3.LShR(P, zx(l)))
        return f

    def fixlen(m, l, L):
        """controlled variants: the register length is a parameter of the proof"""
        m.path.assume(l == L)
        return L

    def b_mul(nc, L=None, zero=False):
        def f(m, k):
            arith(m)
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            c = z3.BitVecVal(0, 128) if zero else big("c")
            cq, cm = ctrls(m, n, nc)
            s, l, t = mul_regs(m, n, c, cq)
            la = L or l
            if L:
                m.path.assume(l == L)
                l = z3.BitVecVal(L, 8)
            args = [c, s, t, la] + ([V(cq)] if nc is not None and nc >= 0 and withc else [])
            if zero:
                w = Want("skip", specs=[])
                w.post = lambda m_, k_, e_: setregs_are(m_, k_, [(t, l, 0), (s, l, 0)])
                return e, args, w
            m.path.assume(z3.And(c != 0, z3.ULT(c, z3.BitVecVal(1, 128) << zx(l, 128))))
            d = mul_dest(m, c, s, l, t)
            g = lambda j: field(j, t, l) == 0
            D = (lambda j: z3.If((j & cm) == cm, d(j), j)) if nc else d
            # (injective: v * c for 0 < c and v, c < 2^length determines v)
            w = Want(Perm(g, D, lambda m_, j: k.mbase.at(m_, j), [lambda j: j & ~cm], inj=False))
            w.post = lambda m_, k_, e_: setregs_are(m_, k_, [(t, l, 0)])
            return e, args, w
        withc = nc > 0
        return f

    def setregs_are(m, k, want):
        got = getattr(k, "setregs", [])
        k.pv.prove(m, k.label + "number of registers reset", len(got) == len(want))
        for (s, l, v), (s2, l2, v2) in zip(got, want):
            k.pv.prove(m, k.label + "register reset before the operation", z3.And(s == I.bv(s2, 8), l == I.bv(l2, 8), I.bv(v, 128) == I.bv(v2, 128)))

    def b_div(nc, L=None):
        withc = nc > 0

        def f(m, k):
            arith(m)
            n = nq(m)
            b = Base("a")
            c = big("c")
            cq, cm = ctrls(m, n, nc)
            s, l, t = mul_regs(m, n, c, cq)
            la = L or l
            if L:
                m.path.assume(l == L)
                l = z3.BitVecVal(L, 8)
            m.path.assume(z3.And(c != 0, z3.ULT(c, z3.BitVecVal(1, 128) << zx(l, 128))))
            # the state lies in the image of the multiplication; only this is used: without multiplication the second register is 0
            e = engine(k, m, n, Masked(b, lambda j: z3.Or(field(j, t, l) == 0, z3.And((j & cm) == cm, c != 1))))
            d = mul_dest(m, c, s, l, t)

            def val(m_, j):
                if not m_.branch(field(j, t, l) == 0):
                    return Cx(0)
                return kb.at(m_, z3.simplify(z3.If((j & cm) == cm, d(j), j) if nc else d(j)))
            kb = e.f["stateVec"].get().to.base
            return e, [c, s, t, la] + ([V(cq)] if withc else []), Want(Gather(val, [lambda j: j & ~(cm | rmask(t, l))]))
        return f
    LENS = (1, 2, 3, 4, 5) if THOROUGH else (1, 2)
    task("MUL", defn(CPU + "MUL"), [("1 <= operand < 2^length", b_mul(0)), ("operand 0", b_mul(0, zero=True))], mc)
    task("DIV", defn(CPU + "DIV"), [("1 <= operand < 2^length", b_div(0))], mc)
    task("CMUL", defn(CPU + "CMUL"), [("%d controls, length %d" % (i, L), b_mul(i, L)) for i in (1, 2) for L in LENS], mc)
    task("CDIV", defn(CPU + "CDIV"), [("%d controls, length %d" % (i, L), b_div(i, L)) for i in (1, 2) for L in LENS], mc)

    # ---- modular multiplication and power into a second register
    PM = z3.Function("powmod", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

    def b_mod(nc, kind, inverse=False, L=None, special=None):
        withc = nc > 0

        def f(m, k):
            arith(m)
            n = nq(m)
            b = Base("a")
            c, N = big("c"), big("N")
            cq, cm = ctrls(m, n, nc)
            s, l, t = mul_regs(m, n, c, cq)
            la = L or l
            if L:
                m.path.assume(l == L)
                l = z3.BitVecVal(L, 8)
            m.path.assume(z3.And(z3.UGE(N, 2), z3.ULE(N, z3.BitVecVal(1, 128) << zx(l, 128))))
            args = [c, N, s, t, la] + ([V(cq)] if withc else [])
            if special is not None:
                m.path.assume(c == special)
                e = engine(k, m, n, b)
                w = Want("skip", specs=[])
                w.post = lambda m_, k_, e_: setregs_are(m_, k_, [(t, l, special)])
                return e, args, w
            cN = lo64(UREM128(c, N))
            m.path.assume(z3.And(z3.ULT(cN, lo64(N)), z3.Implies(z3.ULT(c, N), cN == lo64(c))))
            NN = lo64(N)

            def res(v):
                if kind == "mul":
                    return UREM(mul(m, v, cN), NN)
                return PM(cN, v, NN)
            g = lambda j: field(j, t, l) == 0
            full = lambda j: (j & cm) == cm

            def facts(m_, v):
                # residues are below the modulus; a product with a zero factor is zero
                r = res(v)
                m_.path.assume(z3.And(z3.ULT(r, NN), z3.Implies(z3.And(cN == 0, z3.BoolVal(kind == "mul")), r == 0)))
                return r

            def dest(j):
                r = facts(m, field(j, s, l))
                x = setfield(j, t, l, r)
                return z3.If(full(j), x, j) if nc else x
            if kind == "pow":
                m.path.assume(z3.Or(c != 1, z3.BoolVal(nc > 0)))
            if inverse:
                e = engine(k, m, n, Masked(b, lambda j: z3.Or(g(j), z3.And(full(j), c != 0))))
                kb = e.f["stateVec"].get().to.base

                def val(m_, j):
                    if not m_.branch(g(j)):
                        return Cx(0)
                    return kb.at(m_, z3.simplify(dest(j)))
                return e, args, Want(Gather(val, [lambda j: j & ~(cm | rmask(t, l))]))
            if kind == "pow":
                e = engine(k, m, n, Masked(b, g))
                w = Want(Perm(g, dest, lambda m_, j: b.at(m_, j), [lambda j: j & ~cm]))
            else:
                e = engine(k, m, n, b)
                w = Want(Perm(g, dest, lambda m_, j: k.mbase.at(m_, j), [lambda j: j & ~cm]))
                w.post = lambda m_, k_, e_: setregs_are(m_, k_, [(t, l, 0)])
            return e, args, w
        return f

    def c_powmod(m, o, refs, node):
        """powModOcl by its contract (verified below)"""
        b, x, N = [B64(r.get()) for r in refs]
        m.kern.pv.prove(m, m.kern.label + "powModOcl precondition: reduced base, 2 <= modulus <= 2^31", z3.And(z3.ULT(b, N), z3.ULE(N, 2 ** 31), z3.UGE(N, 2)))
        r = PM(b, x, N)
        m.path.assume(z3.ULT(r, N))
        return r
    qc = dict(mc)
    qc["Qrack::powModOcl"] = c_powmod
    for nm, kind, inv in (("MULModNOut", "mul", False), ("IMULModNOut", "mul", True), ("POWModNOut", "pow", False)):
        task(nm, defn(CPU + nm), [("all operands and moduli", b_mod(0, kind, inv))], qc)
        task("C" + nm, defn(CPU + "C" + nm), [("%d controls, length %d" % (i, L), b_mod(i, kind, inv, L)) for i in (1, 2) for L in LENS], qc)
    task("POWModNOut", defn(CPU + "POWModNOut"), [("base 1", b_mod(0, "pow", special=1))], qc)

    # ---- the modular power by its loop invariant
    def powmod(pv):
        df = defn("Qrack::powModOcl")
        MM = z3.Function("mulmod", *[z3.BitVecSort(64)] * 3)
        P2 = z3.Function("powmodN", *[z3.BitVecSort(64)] * 3)
        b0, x0, N = [z3.BitVec(x, 64) for x in ("base0", "power0", "N")]
        nm = "powModOcl"

        def mm(m, x, y):
            r = MM(x, y)
            m.path.assume(z3.And(z3.ULT(r, N), z3.Implies(x == 1, z3.Implies(z3.ULT(y, N), r == y)), z3.Implies(y == 1, z3.Implies(z3.ULT(x, N), r == x))))
            return r

        def unfold(m, b, x):
            """b^x = b^(x mod 2) * (b^2)^(x div 2), b^0 = 1 (modulo N)"""
            q = P2(mm(m, b, b), z3.LShR(x, 1))
            m.path.assume(z3.And(z3.ULT(q, N), z3.ULT(P2(b, x), N), z3.Implies(x == 0, P2(b, x) == 1),
                                 z3.Implies(x != 0, P2(b, x) == z3.If(x & 1 == 1, mm(m, b, q), q))))
            return q

        def run(m):
            m.path.assume(z3.And(z3.ULT(b0, N), z3.ULE(N, 2 ** 31), z3.UGE(N, 2)))
            last = []

            def hook(op, x, y, w, sg):
                if w != 64 or sg or op not in "*%":
                    return None
                if op == "*":
                    pv.prove(m, nm + ": the product of two residues does not overflow", z3.And(z3.ULT(x, 2 ** 32), z3.ULT(y, 2 ** 32)))
                    last[:] = [x, y, UMUL(x, y)]
                    return last[2]
                if last and z3.simplify(x).eq(z3.simplify(last[2])):
                    pv.prove(m, nm + ": reduced by the modulus", y == N)
                    return mm(m, last[0], last[1])
                return None
            m.std.arith_hook = hook

            def havoc(env, g, kk):
                r, b, p_ = [z3.BitVec(m.path.fresh(t), 64) for t in ("result", "b", "p")]
                env.set("result", r)
                env.set("base", b)
                env.set("power", p_)
                q = unfold(m, b, p_)
                # associativity of the product modulo N
                m.path.assume(mm(m, mm(m, r, b), q) == mm(m, r, mm(m, b, q)))
                return None

            def inv(env, g, kk):
                r, b, p_ = [I.bv(env.get(t), 64) for t in ("result", "base", "power")]
                unfold(m, b, p_)
                return [("both factors are residues", z3.And(z3.ULT(r, N), z3.ULT(b, N))),
                        ("result * base^power is the power asked for", mm(m, r, P2(b, p_)) == P2(b0, x0))]
            from dv import loops
            loops.install(m, pv, [loops.LoopSpec("Qrack::powModOcl", lambda nd, fr: True, havoc, inv)])
            r = m.call_def(df, [b0, x0, N], None)
            r = r.get() if hasattr(r, "get") else r
            pv.prove(m, nm + ": base^power modulo N, for every base below N, every power and every N up to 2^31", I.bv(r, 64) == P2(b0, x0))
            pv.cover(nm + ": returns")
        check.explore(prog, pv, run)
    C.task("powModOcl", powmod, ["Qrack::powModOcl"])

    # ---- tables
    SIZES = (1, 2, 3, 4, 5, 6, 7, 8) if THOROUGH else (1, 2, 3, 4)
    ASIZES = SIZES if THOROUGH else (1, 3)
    TB = z3.Function("table", z3.BitVecSort(64), z3.BitVecSort(8))

    class Table:
        """a caller's table of unbounded length, read byte by byte or as 16- or 32-bit integers; every entry (of nb bytes) fits its
        register of l qubits"""
        def __init__(self, nb, l, w=1):
            self.nb, self.l, self.w = nb, l, w

        def clone(self):
            return self

        def recast(self, w):
            return Table(self.nb, self.l, w)

        def elem(self, m, i):
            i = z3.simplify(B64(i))
            if self.w == self.nb:
                m.path.assume(z3.ULT(ent(self.nb, i), p2(self.l)))
                return I.Cell(z3.simplify(z3.Concat(*[TB(i * self.w + t) for t in reversed(range(self.w))]) if self.w > 1 else TB(i)))
            if self.w != 1:
                raise I.Unsupported("table read at a width other than that of its entries")
            x, c = i, 0
            if z3.is_app_of(x, z3.Z3_OP_BADD) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
                c, x = x.arg(0).as_long(), x.arg(1)
            if not (z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == self.nb and c < self.nb):
                raise I.Unsupported("byte of the table read at an index not of the form entry * bytes + byte: %s" % i)
            m.path.assume(z3.ULT(ent(self.nb, x.arg(1)), p2(self.l)))
            return I.Cell(TB(i))

    def bytes_are(m, nb, l):
        def hook(op, x, y, w, sg):
            # entry size: known on every path
            if op == "*" and w == 64:
                for a, b in ((x, y), (y, x)):
                    if not z3.is_bv_value(b) and not m.path.sat(b != nb):
                        return z3.simplify(a * nb)
            return None
        m.std.arith_hook = hook
        m.path.assume(z3.And(z3.UGT(l, 8 * nb - 8), z3.ULE(l, 8 * nb)))

    def ent(nb, i):
        return orall([zx(TB(z3.simplify(i * nb + t))) << (8 * t) for t in range(nb)])

    def idx_regs(m, n, k_=1):
        s, l = rng(m, n, "i")
        t, v = rng(m, n, "v", 1)
        return s, l, t, v

    def b_lda(reset, nb):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            s, l, t, v = idx_regs(m, n)
            apart(m, (s, l), (t, v))
            bytes_are(m, nb, v)
            g = lambda j: field(j, t, v) == 0
            e = engine(k, m, n, b if reset else Masked(b, g))

            def dest(j):
                x = ent(nb, field(j, s, l))
                m.path.assume(z3.ULT(x, p2(v)))
                return setfield(j, t, v, x)
            w = Want(Perm(g, dest, lambda m_, j: (k.mbase if reset else b).at(m_, j)))
            w.post = lambda m_, k_, e_: setregs_are(m_, k_, [(t, v, 0)] if reset else [])
            w.ret = lambda m_, k_, r: k_.pv.prove(m_, k_.label + "value returned", I.bv(r, 128) == 0)
            return e, [s, l, t, v, I.Ptr(Table(nb, v), 0), reset], w
        return f
    task("IndexedLDA", defn(CPU + "IndexedLDA"), [("value register %s, %d-byte entries" % (x, nb), b_lda(y, nb)) for x, y in (("reset", True), ("already clear", False)) for nb in SIZES if y or nb < 3], mc)

    def b_adc(sub, nb):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            s, l, t, v = idx_regs(m, n)
            cq = z3.BitVec("cq", 8)
            m.path.assume(z3.ULT(cq, n))
            apart(m, (s, l), (t, v), (cq, 1))
            bytes_are(m, nb, v)
            e = engine(k, m, n, b)

            def dest(j):
                one = bool(k.outcomes and k.outcomes[-1])
                x = ent(nb, field(j, s, l))
                m.path.assume(z3.ULT(x, p2(v)))
                # sum: v + x + carry; difference: v + 2^length - x - 1 + carry, whose top bit is set exactly if no borrow occurs
                return carry_dest(j, p2(v) - x - (0 if one else 1) if sub else x + (1 if one else 0), t, v, cq)

            def val(m_, j):
                return k.mbase.at(m_, j | p2(cq) if k.outcomes[-1] else j)
            w = Want(Perm(lambda j: z3.Not(isset(j, cq)), dest, val))
            w.ret = lambda m_, k_, r: k_.pv.prove(m_, k_.label + "value returned", I.bv(r, 128) == 0)
            return e, [s, l, t, v, cq, I.Ptr(Table(nb, v), 0)], w
        return f
    task("IndexedADC", defn(CPU + "IndexedADC"), [("all tables of %d-byte entries" % nb, b_adc(False, nb)) for nb in ASIZES], ic)
    task("IndexedSBC", defn(CPU + "IndexedSBC"), [("all tables of %d-byte entries" % nb, b_adc(True, nb)) for nb in ASIZES], ic)

    def b_hash(nb):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            s, l = rng(m, n, "r", 1)
            bytes_are(m, nb, l)

            def dest(j):
                x = ent(nb, field(j, s, l))
                m.path.assume(z3.ULT(x, p2(l)))
                return setfield(j, s, l, x)
            return e, [s, l, I.Ptr(Table(nb, l), 0)], Want(Perm(lambda j: z3.BoolVal(True), dest, lambda m_, j: b.at(m_, j), inj=False))
        return f
    task("Hash", defn(CPU + "Hash"), [("all one-to-one tables of %d-byte entries" % nb, b_hash(nb)) for nb in SIZES], mc)

    # ---- full adder
    def b_fa(inverse):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            q1, q2, s, c = qs(m, n, 4)
            for x, y in ((q1, s), (q1, c), (q2, s), (q2, c), (s, c)):
                m.path.assume(x != y)
            z = z3.BitVecVal(0, 64)

            def fwd(j):
                A, B, S_ = isset(j, q1), isset(j, q2), isset(j, s)
                maj = z3.Or(z3.And(A, B), z3.And(S_, z3.Xor(A, B)))
                return j ^ z3.If(maj, p2(c), z) ^ z3.If(z3.Xor(A, B), p2(s), z)

            def bwd(j):
                A, B = isset(j, q1), isset(j, q2)
                i = j ^ z3.If(z3.Xor(A, B), p2(s), z)
                maj = z3.Or(z3.And(A, B), z3.And(isset(i, s), z3.Xor(A, B)))
                return i ^ z3.If(maj, p2(c), z)
            src = fwd if inverse else bwd
            M = p2(s) | p2(c)
            return e, [q1, q2, s, c], Want(Gather(lambda m_, j: b.at(m_, z3.simplify(src(j))), [lambda j: j & ~M]))
        return f
    task("FullAdd", defn(CPU + "FullAdd"), [("all qubits", b_fa(False))])
    task("IFullAdd", defn(CPU + "IFullAdd"), [("all qubits", b_fa(True))])

    # ---- phase flips
    def b_pfl(flag):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            s, l = rng(m, n, "r")
            g = z3.BitVec("g", 64)
            args = [z3.ZeroExt(64, g), s, l]
            if flag:
                fq = z3.BitVec("fq", 8)
                m.path.assume(z3.ULT(fq, n))
                args.append(fq)
            cond = lambda j: z3.And(z3.ULT(field(j, s, l), g), isset(j, fq) if flag else True)
            return e, args, Want(Gather(lambda m_, j: -b.at(m_, j) if m_.branch(cond(j)) else b.at(m_, j)))
        return f
    task("PhaseFlipIfLess", defn(CPU + "PhaseFlipIfLess"), [("all thresholds", b_pfl(False))])
    task("CPhaseFlipIfLess", defn(CPU + "CPhaseFlipIfLess"), [("all thresholds", b_pfl(True))])


if __name__ == "__main__":
    C.assumptions = [
        "amplitudes are exact (real arithmetic); integer arithmetic is the machine's (64- and 128-bit), registers of up to 60 qubits",
        "par_for, Dispatch and the state-vector containers by contract (their contracts are the subject of C02, C03)",
        "domain: distinct registers do not overlap; operands of MUL/DIV are below 2^length; moduli lie in 2 .. 2^length; multiplication by 0 with controls is outside it; the output register of POWModNOut is clear; DIV and the inverses act on states in the image of the forward operation; table entries fit their register, tables of Hash are one-to-one",
        "products and residues of two unknowns are uninterpreted functions with the facts used (x*1, x*0, x mod N < N, x mod N = x below N); that multiplication by a fixed odd/nonzero operand into double width, Hash tables and rotation are one-to-one is integer arithmetic assumed, not proved; associativity of the product modulo N is assumed in powModOcl",
        "tables: read byte by byte, or at a width equal to that of their entries (little-endian, aligned)",
        "M, X and SetReg by contract (C07); INCSC and DECSC flag the signed overflow of the addend with the carry in added to it",
        "register lengths of the controlled multiplications are instantiated (quick: 1, 2; thorough: 1 to 5), the number of controls is at most 2 (CINC: 3); operands, register positions and the number of qubits are arbitrary",
    ]
    C.standins = ["the same operations on the real engines: random differential runs against a dense reference (bounded)"]
    C.harness_args = ["stacks=cpu,cpun", "groups=add,addmod,alu"]
    C.run(prepare)
