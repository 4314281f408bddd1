"""C02: state-vector gate kernels of the CPU engine against their unitaries, at an arbitrary basis state."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from dv import astload, interp as I, check, tol
from dv.kern import *
from dv.real import R, Cx, toCx, PI
from dv.astload import params_of, has_body

C = check.Check("C02")
C.harness = "diff.cpp"
FILES = ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/common/functions.cpp"]
CPU = "Qrack::QEngineCPU::"
QE = "Qrack::QEngine::"


def nq(m):
    n = z3.BitVec("n", 8)
    m.path.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, NMAX)))
    return n


def qs(m, n, k, base=0):
    out = [z3.BitVec("q%d" % (base + i), 8) for i in range(k)]
    for q in out:
        m.path.assume(z3.ULT(q, n))
    return out


def distinct(m, l):
    for a, b in itertools.combinations(l, 2):
        m.path.assume(a != b)


def m2(name, kind="general"):
    """2x2 payload with symbolic entries"""
    e = [Cx(R.atom("%s%dr" % (name, i)), R.atom("%s%di" % (name, i))) for i in range(4)]
    if kind == "diagonal":
        e[1] = e[2] = Cx(0, 0)
    if kind == "antidiagonal":
        e[0] = e[3] = Cx(0, 0)
    return e


def sig(df):
    return [p["type"]["qualType"] for p in params_of(df)]


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    con = contracts()

    def defn(q, nparams=None, pick=None):
        l = [d for d in prog.func(q) if has_body(d) and (nparams is None or len(params_of(d)) == nparams) and (pick is None or pick(d))]
        if not l:
            raise RuntimeError("no definition of %s" % q)
        return l[0]

    def task(name, df, builds, con_=None, q=None):
        for label, b in builds:
            C.task("%s(%s)" % (name, label), lambda pv, label=label, b=b: verify(prog, pv, df, "%s(%s): " % (name, label), b, con_ or con), [q or df["_q"]])

    # ---- masks
    def mask_arg(m, k, n):
        mk = z3.BitVec("mask", 128)
        bad = z3.UGE(mk, z3.BitVecVal(1, 128) << z3.ZeroExt(120, n))
        return mk, z3.Extract(63, 0, mk), bad

    def b_xmask(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        mk, mm, bad = mask_arg(m, k, n)
        hi = lambda j: z3.If(z3.ULT(j & mm, (j & mm) ^ mm), (j | mm) & ~(j & mm), j)
        return e, [mk], Want(Gather(lambda m_, j: b.at(m_, j ^ mm), [hi]), throws=bad)
    xc = dict(con)

    def c_x(m, o, refs, node):
        gate1(m, o, refs[0].get(), [Cx(0), Cx(1), Cx(1), Cx(0)])

    def c_phase(m, o, refs, node):
        gate1(m, o, refs[2].get(), [refs[0].get(), Cx(0), Cx(0), refs[1].get()])

    def gate1(m, o, q, u):
        k = m.kern
        k.pv.prove(m, k.label + "callee gate on a qubit of the register", z3.ULT(I.bv(q, 8), o.f["qubitCount"].get()))
        sv = o.f["stateVec"].get().to
        ob, ow = sv.base, list(sv.w)
        k.writes += 1

        def f(m_, j):
            if m_.branch(isset(j, q)):
                return toCx(u[2]) * over(m_, ob, ow, j ^ p2(q)) + toCx(u[3]) * over(m_, ob, ow, j)
            return toCx(u[0]) * over(m_, ob, ow, j) + toCx(u[1]) * over(m_, ob, ow, j ^ p2(q))
        sv.base, sv.w = FnBase(f), []

    def c_mtrx(m, o, refs, node):
        u = refs[0].get()
        i0 = u.i if isinstance(u, I.Ptr) else 0
        get = lambda t: I.Ptr(u.to, None) and m.index(u, t).get()
        gate1(m, o, refs[1].get(), [get(t) for t in range(4)])

    xc["Qrack::QInterface::X"] = c_x
    xc["Qrack::QInterface::Phase"] = xc["Qrack::QEngine::Phase"] = c_phase
    xc["Qrack::QEngine::Mtrx"] = c_mtrx
    xc[QE + "Mtrx"] = c_mtrx
    task("XMask", defn(CPU + "XMask"), [("all masks", b_xmask)], xc)

    def ang():
        return R.atom("th")

    def pdiag(m, k, e, b, mm, f, bad, args, owner=None):
        return e, args, Want(Gather(lambda m_, j: toCx(f(m_, j)) * b.at(m_, j)), throws=bad)

    def cs(m, th):
        c, s = m.std.trig(th)
        return Cx(c, s)

    def b_pparity(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        mk, mm, bad = mask_arg(m, k, n)
        f = lambda m_, j: cs(m, ang() / 2) if m_.branch(parity(j & mm) == 1) else cs(m, -ang() / 2)
        m.path.assume(mk != 0)
        return pdiag(m, k, e, b, mm, f, bad, [ang(), mk])

    def b_pparity0(m, k):
        n = nq(m)
        b = Base("a")
        return engine(k, m, n, b), [ang(), z3.BitVecVal(0, 128)], Want(None)
    task("PhaseParity", defn(CPU + "PhaseParity"), [("all nonempty masks", b_pparity), ("empty mask (global phase)", b_pparity0)], xc)

    def b_rootn(N):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            mk, mm, bad = mask_arg(m, k, n)

            def ph(m_, j):
                st = z3.URem(zx(c_popcount(m_, None, [I.Cell(j & mm)], None)), p2(nn))
                if not m_.branch(st != 0):
                    return Cx(1)
                return cs(m_, -(PI / m_.std.int_to_float(p2(nn - 1), None)) * m_.std.int_to_float(st, None))
            m.path.assume(mk != 0)
            nn = z3.BitVecVal(1, 8) if N == 1 else z3.BitVec("rootn", 8)
            if N != 1:
                m.path.assume(z3.And(z3.UGE(nn, 2), z3.ULE(nn, 63)))
            return e, [nn, mk], Want(Gather(lambda m_, j: ph(m_, j) * b.at(m_, j)), throws=bad)
        return f

    def b_rootn0(N, zero=False):
        def f(m, k):
            n = nq(m)
            e = engine(k, m, n, Base("a"))
            mk, mm, bad = mask_arg(m, k, n)
            return e, [N, z3.BitVecVal(0, 128) if zero else mk], Want(None, throws=z3.BoolVal(False) if zero else bad)
        return f
    rc = dict(xc)

    def c_zmask(m, o, refs, node):
        """QEngine::ZMask(mask): sign flip where the parity is odd, up to a global phase (C11)"""
        k = m.kern
        mk = z3.Extract(63, 0, refs[0].get())
        k.pv.prove(m, k.label + "callee mask within the register", z3.ULT(mk, B64(o.f["maxQPowerOcl"].get())))
        sv = o.f["stateVec"].get().to
        ob, ow = sv.base, list(sv.w)
        k.writes += 1

        def f(m_, j):
            c = c_popcount(m_, None, [I.Cell(j & mk)], None)
            return (Cx(-1) if m_.branch((c & 1) == 1) else Cx(1)) * over(m_, ob, ow, j)
        sv.base, sv.w = FnBase(f), []
    rc["Qrack::QInterface::ZMask"] = rc[QE + "ZMask"] = rc[CPU + "ZMask"] = c_zmask
    task("PhaseRootNMask", defn(CPU + "PhaseRootNMask"), [("n = 1", b_rootn(1)), ("2 <= n <= 63", b_rootn(2))] +
         [("n = 0", b_rootn0(0)), ("empty mask", b_rootn0(3, True))], rc)

    def b_uprz(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        mk, mm, bad = mask_arg(m, k, n)
        f = lambda m_, j: cs(m, ang()) if m_.branch(par(j & mm)) else cs(m, -ang())
        return pdiag(m, k, e, b, mm, f, bad, [mk, ang()])
    task("UniformParityRZ", defn(CPU + "UniformParityRZ"), [("all masks", b_uprz)], xc)

    def b_cuprz(nc):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            cq = [z3.BitVec("q%d" % i, 8) for i in range(nc)]
            mk, mm, bad = mask_arg(m, k, n)
            bads = [bad] + [z3.UGE(c, n) for c in cq] + [x == y for x, y in itertools.combinations(cq, 2)]
            cm = orall([p2(c) for c in cq])
            for c in cq:
                m.path.assume(z3.Or(z3.UGE(c, n), (mm & p2(c)) == 0))
            f_ = lambda m_, j: Cx(1) if not m_.branch((j & cm) == cm) else cs(m, ang()) if m_.branch(par((j & ~cm) & mm)) else cs(m, -ang())
            return e, [I.Vec(list(cq), "bitLenInt"), mk, ang()], Want(Gather(lambda m_, j: toCx(f_(m_, j)) * b.at(m_, j), [lambda j: j & ~cm]), throws=z3.Or(bads))
        return f
    task("CUniformParityRZ", defn(CPU + "CUniformParityRZ"), [("%d controls" % i, b_cuprz(i)) for i in ((1, 2, 3) if check.TIER == "thorough" else (1, 2))], xc)

    # ---- uniformly controlled single-qubit gates
    def b_ucsb(nc, skips, donorm=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            N = R.atom("N")
            e = engine(k, m, n, b, donorm=donorm, norm=N if donorm else "one")
            if donorm:
                m.path.assume(N.z3() > 0)
            cq = [z3.BitVec("q%d" % i, 8) for i in range(nc)]
            t = z3.BitVec("t", 8)
            bads = [z3.UGE(t, n)] + [z3.UGE(c, n) for c in cq] + [x == y for x, y in itertools.combinations(cq, 2)]
            for c in cq:
                m.path.assume(c != t)
            mt = Arr(k, Base("u"), "payloads")
            sk = [z3.BitVec("sk%d" % i, 64) for i in range(skips)]
            for i, x in enumerate(sk):
                m.path.assume(z3.And(x != 0, (x & (x - 1)) == 0, z3.ULT(x, 1 << 20)))
                if i:
                    m.path.assume(z3.UGT(x, sk[i - 1]))
            sv = z3.BitVec("skv", 64)
            m.path.assume((sv & ~orall(sk)) == 0)
            tp = p2(t)
            scale = m.std.f_sqrt(m, None, [N], None).inv() if donorm else R.const(1)

            def val(m_, j):
                off = orall([z3.If((j & p2(c)) != 0, z3.BitVecVal(1 << i, 64), z3.BitVecVal(0, 64)) for i, c in enumerate(cq)])
                for x in sk:
                    lo = off & (x - 1)
                    off = lo | ((off ^ lo) << 1)
                off = (off | sv) * 4
                r = 2 if m_.branch((j & tp) != 0) else 0
                lo, hi = j & ~tp, j | tp
                return toCx(scale) * (mt.at(m_, off + r) * b.at(m_, lo) + mt.at(m_, off + (r + 1)) * b.at(m_, hi))
            ad = [I.Vec(list(cq), "bitLenInt"), t, I.Ptr(mt, 0), I.Vec([z3.ZeroExt(64, x) for x in sk], "bitCapInt"), z3.ZeroExt(64, sv)]
            w = Want(Gather(val, [lambda j: j & ~tp]), throws=z3.Or(bads))
            if donorm:
                w.post = lambda m_, k_, e_: pv_norm(m_, k_, e_)
            return e, ad, w
        return f

    def pv_norm(m, k, e):
        k.pv.prove_eq_real(m, k.label + "recorded norm afterwards", e.f["runningNorm"].get(), R.const(1))
    task("UniformlyControlledSingleBit", defn(CPU + "UniformlyControlledSingleBit", 5),
         [("%d controls, %d skipped powers" % (i, j), b_ucsb(i, j)) for i, j in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 2)) if check.TIER == "thorough" or i < 3], xc)
    task("UniformlyControlledSingleBit, normalizing", defn(CPU + "UniformlyControlledSingleBit", 5), [("1 or 2 controls", b_ucsb(2 if check.TIER == "thorough" else 1, 0, True))], xc)

    # ---- Apply2x2: every kernel
    def b_apply(k_, mode, donorm=False, calc=False, kind="general", floor=None, thresh=None, unknown=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            size = p2(n)
            N = R.const(-1) if unknown else R.atom("N") if donorm else R.const(1)
            fl = R.atom("floor") if floor else R.const(0)
            e = engine(k, m, n, b, donorm=donorm, norm=N)
            e.f["amplitudeFloor"].set(fl)
            if donorm and not unknown:
                m.path.assume(N.z3() > 0)
            if floor:
                m.path.assume(fl.z3() > 0)
            pw = [z3.BitVec("p%d" % i, 64) for i in range(k_)]
            o1, o2 = z3.BitVec("o1", 64), z3.BitVec("o2", 64)
            M = orall(pw)
            # precondition (established by every caller): ascending powers of two, offsets within their union, distinct
            m.path.assume(z3.And([z3.And(x != 0, (x & (x - 1)) == 0) for x in pw] + [z3.ULE(x, y) for x, y in zip(pw, pw[1:])]))
            m.path.assume(z3.And((o1 & ~M) == 0, (o2 & ~M) == 0, o1 != o2))
            bad = z3.Or([z3.UGE(x, size) for x in pw] + [x == y for x, y in zip(pw, pw[1:])] + [z3.UGE(o1, size), z3.UGE(o2, size)])
            u = m2("u", kind)
            if kind == "dense":
                m.path.assume(z3.And(z3.Or([x.z3() != 0 for y in u[1:3] for x in (y.re, y.im)]), z3.Or([x.z3() != 0 for y in (u[0], u[3]) for x in (y.re, y.im)])))
            th = R.const(-1) if thresh is None else R.atom("thresh")
            if thresh is not None:
                m.path.assume(th.z3() >= 0)
            docalc = calc and (unknown or (donorm and k_ == 1))
            scale = m.std.f_sqrt(m, None, [N], None).inv() if (donorm and k_ == 1 and not unknown and calc) else R.const(1)
            lim = fl if thresh is None else th

            def raw(m_, j):
                if m_.branch((j & M) == o1):
                    return True, toCx(scale) * (u[0] * b.at(m_, j) + u[1] * b.at(m_, (j & ~M) | o2))
                if m_.branch((j & M) == o2):
                    return True, toCx(scale) * (u[2] * b.at(m_, (j & ~M) | o1) + u[3] * b.at(m_, j))
                return False, b.at(m_, j)

            def val(m_, j):
                t, v = raw(m_, j)
                if t and docalc and m_.truth(m_.std.real_cmp(">", lim, R.const(0))) and m_.truth(m_.std.real_cmp("<", v.norm(), lim)):
                    return Cx(0)
                return v
            acc = (lambda j: z3.Or((j & M) == o1, (j & M) == o2), lambda m_, j: val(m_, j).norm()) if docalc else None
            mv = I.Vec(list(u), "complex")
            spec = Gather(val, [lambda j: j & ~M], acc=acc)
            w = Want(spec, throws=bad)
            if docalc:
                def post(m_, k_0, e_):
                    tot = k_0.totals.get(0)
                    if tot is None:
                        return
                    nn = e_.f["runningNorm"].get()
                    if e_.f["stateVec"].get() is None:
                        # dropped: the whole norm is (within tolerance) zero
                        k_0.pv.prove(m_, k_0.label + "amplitudes are dropped only if their norm is 0", m_.std.real_cmp("<=", tot, R.const(0)))
                        return
                    k_0.pv.prove_eq_real(m_, k_0.label + "recorded norm afterwards is the sum of the squared magnitudes", nn, tot)
                w.post = post
                w.maynull = True
            elif donorm:
                def post(m_, k_0, e_):
                    k_0.pv.prove_eq_real(m_, k_0.label + "recorded norm is kept when amplitudes are not rescaled", e_.f["runningNorm"].get(), N)
                w.post = post
            return e, [o1, o2, I.Ptr(mv, 0), k_, I.Ptr(I.Vec(list(pw), "bitCapIntOcl"), 0), calc, th], w
        return f
    ap = defn(CPU + "Apply2x2")
    task("Apply2x2", ap, [("%d powers, any payload" % i, b_apply(i, None)) for i in (1, 2, 3, 4)] +
         [("normalising engine, %d power(s), no norm calculation" % i, b_apply(i, None, donorm=True)) for i in (1, 2)] +
         [("normalising engine, norm calculation", b_apply(1, None, donorm=True, calc=True)),
          ("unknown norm, norm calculation", b_apply(1, None, donorm=True, calc=True, unknown=True)),
          ("unknown norm, norm calculation, amplitude floor", b_apply(1, None, donorm=True, calc=True, unknown=True, floor=True)),
          *[("normalising engine, norm calculation, amplitude floor, %s payload" % kd, b_apply(1, None, donorm=True, calc=True, floor=True, kind=kd)) for kd in ("diagonal", "antidiagonal", "dense")],
          *[("normalising engine, norm calculation, explicit threshold, %s payload" % kd, b_apply(1, None, donorm=True, calc=True, thresh=True, kind=kd)) for kd in ("diagonal", "antidiagonal") + (("dense",) if check.TIER == "thorough" else ())],
          ("norm calculation is ignored when the norm is known", b_apply(1, None, calc=True))])

    # ---- callers of Apply2x2, against its contract
    def c_apply2x2(m, o, refs, node):
        k = m.kern
        o1, o2, u, nb, pw, calc, _ = [r.get() for r in refs] if len(refs) == 7 else [r.get() for r in refs] + [R.const(-1)]
        o1, o2 = B64(o1), B64(o2)
        nb = I.simp(nb)
        if not isinstance(nb, int):
            if z3.is_bv_value(nb):
                nb = nb.as_long()
            else:
                raise I.Unsupported("symbolic number of powers")
        pl = [B64(m.index(pw, t).get()) for t in range(nb)]
        uu = [toCx(m.index(u, t).get()) for t in range(4)]
        size = B64(o.f["maxQPowerOcl"].get())
        M = orall(pl)
        if m.branch(z3.Or([z3.UGE(x, size) for x in pl + [o1, o2]] + [x == y for x, y in zip(pl, pl[1:])])):
            raise I.CppThrow("std::invalid_argument")
        k.pv.prove(m, k.label + "Apply2x2 precondition: ascending powers of two", z3.And([z3.And(x != 0, (x & (x - 1)) == 0) for x in pl] + [z3.ULT(x, y) for x, y in zip(pl, pl[1:])]))
        k.pv.prove(m, k.label + "Apply2x2 precondition: distinct offsets within the powers", z3.And((o1 & ~M) == 0, (o2 & ~M) == 0, o1 != o2))
        sv = o.f["stateVec"].get().to
        ob, ow = sv.base, list(sv.w)
        k.writes += 1

        def f(m_, j):
            if m_.branch((j & M) == o1):
                return uu[0] * over(m_, ob, ow, j) + uu[1] * over(m_, ob, ow, (j & ~M) | o2)
            if m_.branch((j & M) == o2):
                return uu[2] * over(m_, ob, ow, (j & ~M) | o1) + uu[3] * over(m_, ob, ow, j)
            return over(m_, ob, ow, j)
        sv.base, sv.w = FnBase(f), []
    ac = dict(con)
    ac[CPU + "Apply2x2"] = ac[QE + "Apply2x2"] = c_apply2x2

    def c_urn(m, o, refs, node):
        """UpdateRunningNorm: amplitudes unchanged (verified below)"""
        return None
    ac[CPU + "UpdateRunningNorm"] = ac[QE + "UpdateRunningNorm"] = c_urn

    def gate(nc, nt, args, blocks, ctrl="all", domain=None, donorm=False, eqok=True):
        """blocks(u): 2^nt x 2^nt matrix over the targets; applied where the controls match"""
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, donorm=donorm)
            cq = [z3.BitVec("c%d" % i, 8) for i in range(nc)]
            tq = [z3.BitVec("t%d" % i, 8) for i in range(nt)]
            allq = cq + tq
            for q in allq:
                m.path.assume(z3.ULT(q, n))
            bads = []
            for x, y in itertools.combinations(allq, 2):
                m.path.assume(x != y)
            u = m2("u")
            ex = {}
            if domain:
                domain(m, k, ex)
            if ctrl == "all":
                act = lambda j: (j & orall([p2(c) for c in cq])) == orall([p2(c) for c in cq])
            elif ctrl == "none":
                act = lambda j: (j & orall([p2(c) for c in cq])) == 0
            else:
                pm = z3.BitVec("perm", 128)
                ex["perm"] = pm
                want = orall([z3.If(z3.Extract(i, i, pm) == 1, p2(c), z3.BitVecVal(0, 64)) for i, c in enumerate(cq)])
                act = lambda j: (j & orall([p2(c) for c in cq])) == want
            mat = blocks(u, ex)
            tm = orall([p2(t) for t in tq])

            def val(m_, j):
                if nc and not m_.branch(act(j)):
                    return b.at(m_, j)
                row = 0
                for i, t in enumerate(tq):
                    if m_.branch(isset(j, t)):
                        row |= 1 << i
                tot = Cx(0)
                for col in range(1 << nt):
                    x = toCx(mat[row][col])
                    if x.re.t or x.im.t:
                        tot = tot + x * b.at(m_, (j & ~tm) | orall([p2(t) for i, t in enumerate(tq) if col >> i & 1]))
                return tot
            return e, args(m, k, cq, tq, I.Ptr(I.Vec(list(u), "complex"), 0), ex), Want(Gather(val), specs=[])
        return f
    m1 = lambda u, ex: [[u[0], u[1]], [u[2], u[3]]]
    V = lambda cq: I.Vec(list(cq), "bitLenInt")
    one, zero, im = Cx(1), Cx(0), Cx(0, 1)
    h = R.const(1) / 2

    def two(a, bb, c, d, e00=one, e11=one):
        return lambda u, ex: [[e00, zero, zero, zero], [zero, a, bb, zero], [zero, c, d, zero], [zero, zero, zero, e11]]
    SWAP = two(zero, one, one, zero)
    p, q_ = Cx(h, h), Cx(h, -h)
    SQ, ISQ = two(p, q_, q_, p), two(q_, p, p, q_)
    ISW, IISW = two(zero, im, im, zero), two(zero, -im, -im, zero)
    task("Mtrx", defn(QE + "Mtrx"), [("any payload%s" % ("; normalising engine" if d else ""), gate(0, 1, lambda m, k, c, t, u, ex: [u, t[0]], m1, donorm=d)) for d in (False, True)], ac)
    for nm, anti in (("controlled", False), ("anti-controlled", True)):
        task("EitherMtrx", defn(QE + "EitherMtrx"), [("%d controls, %s" % (i, nm), gate(i, 1, lambda m, k, c, t, u, ex, anti=anti: [V(c), u, t[0], anti], m1, "none" if anti else "all", donorm=(i == 1))) for i in (0, 1, 2)], ac)
    task("UCMtrx", defn(QE + "UCMtrx"), [("%d controls" % i, gate(i, 1, lambda m, k, c, t, u, ex: [V(c), u, t[0], ex.get("perm", 0)], m1, "perm")) for i in (0, 1, 2)], ac)
    for nm, mat in (("Swap", SWAP), ("ISwap", ISW), ("IISwap", IISW), ("SqrtSwap", SQ), ("ISqrtSwap", ISQ)):
        task(nm, defn(QE + nm), [("distinct qubits", gate(0, 2, lambda m, k, c, t, u, ex: [t[0], t[1]], mat))], ac)
    for nm, mat in (("CSwap", SWAP), ("CSqrtSwap", SQ), ("CISqrtSwap", ISQ)):
        for pre, ct in (("", "all"), ("Anti", "none")):
            task(pre + nm, defn(QE + pre + nm), [("%d controls" % i, gate(i, 2, lambda m, k, c, t, u, ex: [V(c), t[0], t[1]], mat, ct)) for i in (0, 1)], ac)

    def fsim(u, ex):
        cth, sth = ex["th"]
        cph, sph = ex["ph"]
        return two(Cx(cth), Cx(0, -sth), Cx(0, -sth), Cx(cth), one, Cx(cph, -sph))(u, ex)

    def dom_fsim(m, k, ex):
        ex["th"], ex["ph"] = m.std.trig(R.atom("th")), m.std.trig(R.atom("ph"))
    task("FSim", defn(QE + "FSim"), [("distinct qubits", gate(0, 2, lambda m, k, c, t, u, ex: [R.atom("th"), R.atom("ph"), t[0], t[1]], fsim, domain=dom_fsim))], ac)

    # ---- the amplitude storage
    SA = "Qrack::StateVectorArray::"

    def storage(nm, nparams, args, want, pick=None):
        """want(env) -> list of (array, index term, value function) the call (or each loop iteration) must store"""
        df = defn(SA + nm, nparams, pick)

        def fn(pv):
            def run(m):
                k = K(pv, m, nm, [], {})
                m.kern = k
                k.cpu = 1
                ev = {"lcv": z3.BitVec("lcv", 64), "cap": z3.BitVec("cap", 64)}
                ev["A"], ev["B"], ev["C"] = Arr(k, Base("a"), "amplitudes"), Arr(k, Base("b"), "other"), Arr(k, Base("c"), "array")
                o = I.Obj("Qrack::StateVectorArray", {"capacity": I.Cell(ev["cap"]), "amplitudes": I.Cell(I.Ptr(ev["A"], 0))})
                ev["other"] = I.Ptr(I.Obj("Qrack::StateVectorArray", {"capacity": I.Cell(ev["cap"]), "amplitudes": I.Cell(I.Ptr(ev["B"], 0))}))
                ev["range"] = (z3.BitVecVal(0, 64), ev["cap"])
                ev["k"] = k
                ev["m"] = m
                al = args(ev)
                exp = want(ev)
                k.loops = 0

                def loop(m_, obj, refs, node):
                    a = [r.get() for r in refs]
                    k.loops += 1
                    pv.prove(m, nm + ": index range of the loop", z3.And(B64(a[0]) == ev["range"][0], B64(a[1]) == ev["range"][1]))
                    m.call_value(a[2], [I.Cell(ev["lcv"]), I.Cell(1)])
                m.contracts = dict(m.contracts)
                m.contracts["Qrack::ParallelFor::par_for"] = loop
                r = m.call_def(df, [x if isinstance(x, I.Ref) else I.Cell(x) for x in al], o)
                stores = [(t, i) for kd, t, i in k.log if kd == "w"]
                pv.prove(m, nm + ": number of stores", len(stores) == len(exp))
                for t, i, v in exp:
                    hit = [x for x in stores if x[0] is t]
                    pv.prove(m, nm + ": store to the right array", bool(hit))
                    if hit:
                        pv.prove(m, nm + ": index stored to", z3.Or([x[1] == i for x in hit]))
                        w = over(m, Undef0(), t.w, i)
                        if w is not None:
                            pv.prove_eq_cx(m, nm + ": value stored", toCx(w), toCx(v))
                if not exp:
                    ev["ret"](r)
                pv.cover(nm)
            check.explore(prog, pv, run, con)
        C.task("StateVectorArray::%s/%d%s" % (nm, nparams, "" if pick is None else " " + pick.__name__), fn, [SA + nm])

    class Undef0:
        def at(self, m, i):
            return None

    def at(e, a, i):
        return a.base.at(e["m"], i)
    ii, jj = z3.BitVec("i1", 64), z3.BitVec("i2", 64)
    off, so = z3.BitVec("off", 64), z3.BitVec("soff", 64)
    ln = z3.BitVec("len", 64)

    def ranged(e, *a):
        e["range"] = (z3.BitVecVal(0, 64), ln)
        return list(a)

    def rd1(e):
        e["ret"] = lambda r: e["k"].pv.prove_eq_cx(e["m"], "read: value returned", toCx(r), at(e, e["A"], ii))
        return [ii]

    def rd2(e):
        e["m"].path.assume(ii != jj)

        def ret(r):
            v = r.f["c2"].get()
            a, b_ = at(e, e["A"], ii), at(e, e["A"], jj)
            for x, y in zip(v.e if hasattr(v, "e") else v.v, (a.re, a.im, b_.re, b_.im)):
                e["k"].pv.prove_eq_real(e["m"], "read2: value returned", x, y)
        e["ret"] = ret
        return [ii, jj]
    storage("read", 1, rd1, lambda e: [])
    storage("read2", 2, rd2, lambda e: [])
    cv, dv_ = Cx(R.atom("vr"), R.atom("vi")), Cx(R.atom("wr"), R.atom("wi"))
    storage("write", 2, lambda e: [ii, cv], lambda e: [(e["A"], ii, cv)])

    def w2(e):
        e["m"].path.assume(ii != jj)
        return [ii, cv, jj, dv_]
    storage("write2", 4, w2, lambda e: [(e["A"], ii, cv), (e["A"], jj, dv_)])
    storage("clear", 0, lambda e: [], lambda e: [(e["A"], e["lcv"], Cx(0))])
    P0 = lambda e, a: I.Ptr(e[a], 0)
    storage("copy_in", 1, lambda e: [P0(e, "C")], lambda e: [(e["A"], e["lcv"], at(e, e["C"], e["lcv"]))])
    storage("copy_in", 3, lambda e: ranged(e, P0(e, "C"), off, ln), lambda e: [(e["A"], e["lcv"] + off, at(e, e["C"], e["lcv"]))])
    storage("copy_in", 4, lambda e: ranged(e, e["other"], so, off, ln), lambda e: [(e["A"], e["lcv"] + off, at(e, e["B"], e["lcv"] + so))])
    storage("copy_out", 1, lambda e: [P0(e, "C")], lambda e: [(e["C"], e["lcv"], at(e, e["A"], e["lcv"]))])
    storage("copy_out", 3, lambda e: ranged(e, P0(e, "C"), off, ln), lambda e: [(e["C"], e["lcv"], at(e, e["A"], e["lcv"] + off))])

    def array_arg(d):
        return "StateVectorArrayPtr" in sig(d)[0] or "StateVectorArray>" in sig(d)[0]

    def base_arg(d):
        return not array_arg(d)
    for pk in (array_arg, base_arg):
        storage("copy", 1, lambda e: [e["other"]], lambda e: [(e["A"], e["lcv"], at(e, e["B"], e["lcv"]))], pk)

        def sh(e):
            e["range"] = (z3.BitVecVal(0, 64), z3.LShR(e["cap"], 1))
            return [e["other"]]
        storage("shuffle", 1, sh, lambda e: [(e["A"], e["lcv"] + z3.LShR(e["cap"], 1), at(e, e["B"], e["lcv"])), (e["B"], e["lcv"], at(e, e["A"], e["lcv"] + z3.LShR(e["cap"], 1)))], pk)
    storage("get_probs", 1, lambda e: [P0(e, "C")], lambda e: [(e["C"], e["lcv"], Cx(at(e, e["A"], e["lcv"]).norm()))])


if __name__ == "__main__":
    C.assumptions = [
        "parallel loops are used by their contract (C03: the body runs exactly once for each index of the loop's set); the queue runs dispatched work once, in order, before Finish() or Dump() returns",
        "rounding-size tolerances (FP_NORM_EPSILON, REAL1_EPSILON) are read as zero, floating point as exact real arithmetic",
        "register widths 1 to %d, bit indices in range and distinct (out-of-range and repeated arguments: the documented exception before any write, where the kernel itself checks; callers' argument checks: C09)" % NMAX,
        "popCountOcl, log2 and ThrowIfQbIdArrayIsBad by their contracts (C10); ZMask by its contract (C11)",
        "control counts as enumerated in the obligation names; the matrix arrays of UniformlyControlledSingleBit are arbitrary",
        "CUniformParityRZ: mask disjoint from the controls",
        "the sparse and OpenCL/CUDA storage back ends are not covered (this build does not use them)"]
    C.harness_args = ["stacks=cpu,cpun", "groups=cliff,dec"]
    C.run(prepare)
