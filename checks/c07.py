"""C07: measurement and normalisation on the CPU engine: outcome choice, projection kernels, rescaling."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from dv import astload, interp as I, check, tol, loops
from dv.kern import *
from dv.engops import *
from dv.real import R, Cx, toR, toCx
from dv.astload import params_of, has_body, qtype

C = check.Check("C07")
C.harness = "diff.cpp"
FILES = ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/common/functions.cpp", "src/qinterface/qinterface.cpp"]
CPU, QE, QI = "Qrack::QEngineCPU::", "Qrack::QEngine::", "Qrack::QInterface::"
THOROUGH = check.TIER == "thorough"
ALL = lambda j: z3.BoolVal(True)
ZR = R.const(0)
PH = Cx(R.atom("gphr"), R.atom("gphi"))


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    con = contracts()
    for c_ in (CPU, QE, QI):
        con[c_ + "NormalizeState"] = c_normalize
        con[c_ + "Rand"] = c_rand
        con[c_ + "GetNonunitaryPhase"] = lambda m, o, r, n: phase(m)

    def defn(q, nparams=None, pick=None):
        l = [d for d in prog.func(q) if has_body(d) and (nparams is None or len(params_of(d)) == nparams) and (pick is None or pick(d))]
        if not l:
            raise RuntimeError("no definition of %s" % q)
        return l[0]

    def task(name, df, builds, con_=None):
        for label, b in builds:
            C.task("%s(%s)" % (name, label), lambda pv, label=label, b=b: verify(prog, pv, df, "%s(%s): " % (name, label), b, con_ or con), [df["_q"]])

    square = lambda v: toCx(v).norm()

    # ---- the projection kernel
    def b_applym(null):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, null=null, norm=R.atom("N"))
            mk, rs = z3.BitVec("mask", 128), z3.BitVec("result", 128)
            nrm = Cx(R.atom("fr"), R.atom("fi"))
            mm, rr = lo(mk), lo(rs)
            m.path.assume(z3.And(z3.ULT(mk, z3.BitVecVal(1, 128) << zx(n, 128)), (rs & ~mk) == 0))
            w = Want(None if null else Gather(lambda m_, j: nrm * toCx(b.at(m_, j)) if m_.branch((j & mm) == rr) else Cx(0)))
            if not null:
                w.post = lambda m_, k_, e_: k_.pv.prove_eq_real(m_, k_.label + "recorded norm afterwards", e_.f["runningNorm"].get(), R.const(1))
            return e, [mk, rs, nrm], w
        return f
    lo = lambda x: z3.Extract(63, 0, x)

    def nbool(d):
        return len(params_of(d)) == 3
    task("ApplyM", defn(CPU + "ApplyM", 3), [("all masks, results and factors", b_applym(False)), ("all-zero engine", b_applym(True))])

    # ---- contracts of the callees of the measurement functions
    def c_applym(m, o, refs, node):
        k = m.kern
        if o is None or o.f["stateVec"].get() is None:
            return
        a = [r.get() for r in refs]
        n = I.bv(o.f["qubitCount"].get(), 8)
        mk, rs = B128(a[0]), (B128(a[1]) if not isinstance(a[1], bool) and not z3.is_bool(a[1]) else None)
        if rs is None:
            c = a[1] if z3.is_bool(a[1]) else z3.BoolVal(a[1])
            rs = z3.If(c, mk, z3.BitVecVal(0, 128))
        k.pv.prove(m, k.label + "ApplyM precondition: mask within the register, result within the mask", z3.And(z3.ULT(mk, z3.BitVecVal(1, 128) << zx(n, 128)), (rs & ~mk) == 0))
        sv, pr = prev(o)
        mm, rr = lo(mk), lo(rs)
        nrm = toCx(a[2])
        become(m, o, lambda m_, j: nrm * toCx(pr(m_, j)) if m_.branch((j & mm) == rr) else Cx(0))
        k.applied = getattr(k, "applied", 0) + 1
        o.f["runningNorm"].set(R.const(1))

    def B128(v):
        v = I.bv(v, 128) if not z3.is_expr(v) else v
        return v if v.size() == 128 else zx(v, 128)

    def c_prob(m, o, refs, node):
        k = m.kern
        q = I.bv(refs[0].get(), 8)
        if m.branch(z3.UGE(q, I.bv(o.f["qubitCount"].get(), 8))):
            raise I.CppThrow("std::invalid_argument")
        k.pv.prove(m, k.label + "probability of the measured qubit", q == k.q)
        return prob_atom(m, "P")

    def c_probmask(m, o, refs, node):
        k = m.kern
        a = [B128(r.get()) for r in refs]
        n = I.bv(o.f["qubitCount"].get(), 8)
        if m.branch(z3.UGE(a[0], z3.BitVecVal(1, 128) << zx(n, 128))):
            raise I.CppThrow("std::invalid_argument")
        k.pv.prove(m, k.label + "probability of the measured bits taking the forced values", z3.And(lo(a[0]) == k.mask, lo(a[1]) == k.forced))
        return prob_atom(m, "P")

    def table(m, k, nb):
        ps = [prob_atom(m, "P%d" % i) for i in range(2 ** nb)]
        m.path.assume(sum([p.z3() for p in ps[1:]], ps[0].z3()) == 1)
        k.ps = ps
        return ps

    def c_tab(reg):
        def f(m, o, refs, node):
            k = m.kern
            a = [r.get() for r in refs]
            if reg:
                k.pv.prove(m, k.label + "probabilities of the measured register", z3.And(I.bv(a[0], 8) == I.bv(k.reg[0], 8), I.bv(a[1], 8) == I.bv(k.reg[1], 8)))
            else:
                k.pv.prove(m, k.label + "probabilities of the measured bits", lo(B128(a[0])) == k.mask)
            out = a[-1]
            ps = table(m, k, k.nb)
            for i, p in enumerate(ps):
                m.index(out, i).set(p)
        return f

    def c_force1(m, o, refs, node):
        """ForceM(qubit, result, doForce, doApply), proved above"""
        k = m.kern
        a = [r.get() for r in refs]
        k.delegated = a
        return z3.Bool("single outcome") if True else None
    mc = dict(con)
    for c_ in (CPU, QE, QI):
        mc[c_ + "ApplyM"] = c_applym
        mc[c_ + "Prob"] = c_prob
        mc[c_ + "ProbMask"] = c_probmask
        mc[c_ + "ProbMaskAll"] = c_tab(False)
        mc[c_ + "ProbRegAll"] = c_tab(True)

    def projected(b, k, mask, res, P, apply_):
        """the state after the call: the normalised projection; or, untouched, only if nothing was to be applied or the outcome was certain"""
        def value(m_, j):
            if not getattr(k, "applied", 0):
                k.pv.prove(m_, k.label + "state left alone only if not asked to apply, or the outcome is certain", z3.Or(z3.Not(apply_), P(m_).z3() == 1))
                return b.at(m_, j)
            k.pv.prove(m_, k.label + "state changed only if asked to", apply_)
            if not m_.branch((j & mask) == res(m_)):
                return Cx(0)
            return (PH / m_.std.sqrt(m_, P(m_))) * toCx(b.at(m_, j))
        return value

    zb = lambda v: v if z3.is_expr(v) else z3.BoolVal(bool(v))

    # ---- one qubit
    def b_force(force, null=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, null=null)
            k.pend[id(e)] = False
            q, r0, ap = z3.BitVec("q", 8), z3.Bool("result"), z3.Bool("doApply")
            k.q = q
            p = R.atom("P")
            bad = z3.UGE(q, n)
            if force:
                bad = z3.Or(bad, z3.If(r0, p.z3() <= 0, p.z3() >= 1))
            pres = lambda m_: p if m_.branch(k.res) else 1 - p
            w = Want(Gather(projected(b, k, p2(q), lambda m_: z3.If(k.res, p2(q), z3.BitVecVal(0, 64)), pres, ap)), throws=bad)
            w.specs = []

            def ret(m_, k_, r):
                k_.res = zb(r)
                if force:
                    k_.pv.prove(m_, k_.label + "the forced outcome is returned", k_.res == r0)
                else:
                    rn = R.atom("rnd1")
                    k_.pv.prove(m_, k_.label + "outcome drawn by the Born rule: 1 exactly if the draw does not exceed its probability",
                                z3.And(z3.Implies(p.z3() <= 0, z3.Not(k_.res)), z3.Implies(p.z3() >= 1, k_.res),
                                       z3.Implies(z3.And(p.z3() > 0, p.z3() < 1), z3.And(z3.Implies(k_.res, rn.z3() <= p.z3()), z3.Implies(z3.Not(k_.res), rn.z3() >= p.z3())))))
            w.ret = ret
            return e, [q, r0, force, ap], w
        return f
    one = defn(QE + "ForceM", 4)
    task("ForceM", one, [("drawn", b_force(False)), ("forced", b_force(True))], mc)

    # ---- several qubits
    many = defn(QE + "ForceM", 3)
    vc = dict(mc)
    # single-bit calls go to the function proved above
    def c_forcem(m, o, refs, node):
        if len(refs) < 4 and not isinstance(refs[1].get(), (bool, int)) and not z3.is_expr(refs[1].get()):
            return NotImplemented
        return c_force1(m, o, refs, node)
    for c_ in (CPU, QE, QI):
        vc[c_ + "ForceM"] = c_forcem

    def index_of(m, k, r, powers):
        for ci in range(2 ** len(powers)):
            x = orall([powers[i] for i in range(len(powers)) if ci >> i & 1])
            if not m.path.sat(r != x):
                return ci
        return None

    def drawn(k, m, ci):
        rn = R.atom("rnd1").z3()
        ps = [p.z3() for p in k.ps]
        below = sum(ps[:ci], z3.RealVal(0))
        k.pv.prove(m, k.label + "outcome drawn by the Born rule: its probability is not 0, and the draw falls in its share",
                   z3.And(ps[ci] > 0, below <= rn, rn <= below + ps[ci]))

    def b_bits(order, forced):
        nb = len(order)

        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            k.pend[id(e)] = False
            k.nb = nb
            bq = [z3.BitVec("b%d" % i, 8) for i in range(nb)]
            for i in range(1, nb):
                m.path.assume(z3.ULT(bq[i - 1], bq[i]))
            ap = z3.Bool("doApply")
            vals = [z3.Bool("v%d" % i) for i in range(nb)] if forced else []
            k.mask = orall([p2(x) for x in bq])
            k.forced = orall([z3.If(vals[order.index(i)], p2(bq[i]), z3.BitVecVal(0, 64)) for i in range(nb)]) if forced else None
            bad = z3.Or([z3.UGE(x, n) for x in bq]) if nb else z3.BoolVal(False)
            if forced and nb != 1:
                bad = z3.Or(bad, R.atom("P").z3() <= 0)
            w = Want(None, throws=bad)

            def P(m_):
                return R.atom("P") if forced else k.ps[k.ci]

            def ret(m_, k_, r):
                rr = B128(r)
                k_.pv.prove(m_, k_.label + "the value returned lies within the measured bits", z3.Extract(127, 64, rr) == 0)
                k_.r = lo(rr)
                if nb == 1:
                    d = k_.delegated
                    k_.pv.prove(m_, k_.label + "a single bit is measured by the single-qubit function", z3.And(I.bv(d[0], 8) == bq[0], (zb(d[1]) == vals[0]) if forced else z3.BoolVal(True), zb(d[2]) == forced, zb(d[3]) == ap))
                    k_.pv.prove(m_, k_.label + "outcome at the bit's own position", k_.r == z3.If(z3.Bool("single outcome"), p2(bq[0]), z3.BitVecVal(0, 64)))
                    return
                if forced:
                    k_.pv.prove(m_, k_.label + "the forced outcome is returned", k_.r == k_.forced)
                    return
                k_.ci = index_of(m_, k_, k_.r, [p2(x) for x in bq])
                if k_.ci is None:
                    fail(k_.pv, m_, k_.label + "the outcome is one assignment of the measured bits", str(k_.r))
                    raise I.PathEnd()
                drawn(k_, m_, k_.ci)
            w.ret = ret
            if nb != 1:
                w.final = Gather(projected(b, k, k.mask, lambda m_: k.r, P, ap))
                w.specs = []
            V = I.Vec([bq[i] for i in order], "bitLenInt")
            return e, [V, I.Vec(list(vals), "bool"), ap], w
        return f

    orders = [(), (0,), (0, 1), (1, 0)] + ([(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1), (1, 0, 2)] if THOROUGH else [(2, 0, 1)])
    for o in orders:
        nm = "bits in the order %s" % (list(o),)
        l = [("drawn, " + nm, b_bits(o, False))] if len(o) < 3 or THOROUGH and o[0] == 2 else []
        if o:
            l.append(("forced, " + nm, b_bits(o, True)))
        task("ForceM/vector", many, l, vc)

    # ---- a register
    regf = defn(QE + "ForceMReg", 5)

    def b_reg(L, forced):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b)
            k.pend[id(e)] = False
            s = z3.BitVec("rS", 8)
            l = z3.BitVec("rL", 8) if L is None else L
            lb = I.bv(l, 8)
            bad = z3.Or(z3.UGT(s, n), z3.UGT(lb, n - s))
            ap, v = z3.Bool("doApply"), z3.BitVec("value", 128)
            k.q, k.reg, k.nb = s, (s, l), L
            mask = rmask(s, lb)
            k.mask, k.forced = mask, (lo(v) << zx(s))
            if forced:
                m.path.assume(z3.ULT(v, z3.BitVecVal(1, 128) << zx(lb, 128)))
                bad = z3.Or(bad, z3.And(lb != 1, R.atom("P").z3() <= 0))
            w = Want(None, throws=bad)
            P = lambda m_: R.atom("P") if forced else k.ps[k.ci]

            def ret(m_, k_, r):
                rr = B128(r)
                k_.r = lo(rr)
                if hasattr(k_, "delegated"):
                    d = k_.delegated
                    k_.pv.prove(m_, k_.label + "a single bit is measured by the single-qubit function", z3.And(lb == 1, I.bv(d[0], 8) == s, (zb(d[1]) == (lo(v) == 1)) if forced else z3.BoolVal(True), zb(d[2]) == forced, zb(d[3]) == ap))
                    k_.pv.prove(m_, k_.label + "outcome returned", rr == z3.If(z3.Bool("single outcome"), z3.BitVecVal(1, 128), z3.BitVecVal(0, 128)))
                    return
                if forced:
                    k_.pv.prove(m_, k_.label + "the forced outcome is returned", rr == v)
                    return
                k_.ci = next((i for i in range(2 ** L) if not m_.path.sat(rr != i)), None)
                if k_.ci is None:
                    fail(k_.pv, m_, k_.label + "the outcome is a value of the register", str(rr))
                    raise I.PathEnd()
                drawn(k_, m_, k_.ci)
            w.ret = ret

            def value(m_, j):
                if hasattr(k, "delegated"):
                    return b.at(m_, j)
                return projected(b, k, mask, lambda m2: k.r << zx(s), P, ap)(m_, j)
            w.final = Gather(value)
            w.specs = []
            return e, [s, l, v if forced else z3.BitVec("ignored", 128), forced, ap], w
        return f
    task("ForceMReg", regf, [("forced, any register", b_reg(None, True))] + [("drawn, length %d" % L, b_reg(L, False)) for L in ((0, 1, 2, 3) if THOROUGH else (0, 1, 2))], vc)

    # ---- parity
    def b_par(force, donorm=False, null=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, donorm=donorm, null=null)
            mk, r0 = z3.BitVec("mask", 128), z3.Bool("result")
            mm = lo(mk)
            p = R.atom("P")
            bad = z3.UGE(mk, z3.BitVecVal(1, 128) << zx(n, 128))
            if force and not null:
                bad = z3.Or(bad, z3.And(mk != 0, z3.If(r0, p.z3() <= 0, p.z3() >= 1)))
            k.parmask = mm
            w = Want(None, throws=bad)
            if null:
                w.ret = lambda m_, k_, r: k_.pv.prove(m_, k_.label + "outcome of an all-zero engine", z3.Not(zb(r)))
                return e, [mk, r0, force], w

            def ret(m_, k_, r):
                k_.res = zb(r)
                if not m_.branch(mk != 0):
                    k_.pv.prove(m_, k_.label + "empty mask: even", z3.Not(k_.res))
                elif force:
                    k_.pv.prove(m_, k_.label + "the forced outcome is returned", k_.res == r0)
                else:
                    rn = R.atom("rnd1")
                    k_.pv.prove(m_, k_.label + "outcome drawn by the Born rule: odd exactly if the draw does not exceed its probability",
                                z3.And(z3.Implies(p.z3() <= 0, z3.Not(k_.res)), z3.Implies(p.z3() >= 1, k_.res),
                                       z3.Implies(z3.And(p.z3() > 0, p.z3() < 1), z3.And(z3.Implies(k_.res, rn.z3() <= p.z3()), z3.Implies(z3.Not(k_.res), rn.z3() >= p.z3())))))
            w.ret = ret
            # the outcome the kernel works with is known on every path once the draw is made
            def out(m_):
                if force:
                    return m_.branch(r0)
                if m_.branch(p.z3() >= 1):
                    return True
                if m_.branch(p.z3() <= 0):
                    return False
                return m_.branch(R.atom("rnd1").z3() <= p.z3())
            keep = lambda m_, j: par(j & mm) if out(m_) else z3.Not(par(j & mm))
            lp = Gather(lambda m_, j: b.at(m_, j) if m_.branch(keep(m_, j)) else Cx(0), acc=(lambda j: keep(m, j), lambda m_, j: square(b.at(m_, j))))
            w.specs = [lp]

            def final_(m_, j):
                if not k.totals:
                    k.pv.prove(m_, k.label + "state left alone only for an empty mask", mk == 0)
                    return b.at(m_, j)
                v = toCx(b.at(m_, j)) if m_.branch(keep(m_, j)) else Cx(0)
                nr = e.f["runningNorm"].get()
                if isinstance(nr, R) and nr.is_const() and nr.cval() == 1:
                    return Cx(R.const(1) / m_.std.sqrt(m_, k.totals[0])) * v
                k.pv.prove_eq_real(m_, k.label + "norm of the projection recorded", nr, k.totals[0])
                return v
            w.final = Gather(final_)
            return e, [mk, r0, force], w
        return f

    def c_probpar(m, o, refs, node):
        k = m.kern
        k.pv.prove(m, k.label + "parity probability of the measured mask", lo(B128(refs[0].get())) == k.parmask)
        k.pend[id(o)] = False
        return prob_atom(m, "P")
    pc = dict(mc)
    for c_ in (CPU, QE, QI):
        pc[c_ + "ProbParity"] = c_probpar
    task("ForceMParity", defn(CPU + "ForceMParity"), [("drawn", b_par(False)), ("forced", b_par(True)), ("forced, deferred normalisation", b_par(True, True)), ("all-zero engine", b_par(True, False, True))], pc)

    # ---- all qubits
    NZ = z3.Function("nonzero probability", z3.BitVecSort(128), z3.BoolSort())

    def b_all(m, k):
        n = nq(m)
        b = Base("a")
        e = engine(k, m, n, b)
        k.pend[id(e)] = False
        k.tot, k.part = ZR, None
        w = Want("skip", specs=[])
        top = z3.BitVecVal(1, 128) << zx(n, 128)
        rn = R.atom("rnd1").z3()

        def havoc(env, g, kk):
            k.tot = R.atom("PS")
            pm, ln = z3.BitVec("perm", 128), z3.BitVec("last", 128)
            env.set("perm", pm)
            env.set("totProb", k.tot)
            env.set("lastNonzero", ln)
            k.part = None
            return pm

        def inv(env, g, kk):
            pm, ln, t = B128(env.get("perm")), B128(env.get("lastNonzero")), toR(env.get("totProb")).z3()
            return [("the counter is within the state", z3.ULE(pm, top)),
                    ("the draw is not yet reached", z3.And(t <= rn, t < 1, t >= 0)),
                    ("the last outcome of nonzero probability is remembered", z3.And(z3.ULT(ln, top), z3.Implies(t > 0, NZ(ln))))]

        def step(env, pm, kk):
            k.pv.prove(m, k.label + "next outcome", B128(env.get("perm")) == pm + 1)
            k.pv.prove_eq_real(m, k.label + "the running total gains the outcome's probability", toR(env.get("totProb")) - k.tot, k.part)
            return []
        loops.install(m, k.pv, [loops.LoopSpec(CPU + "MAll", lambda nd, fr: True, havoc, inv, step=step)], k.label)

        def ret(m_, k_, r):
            r = B128(r)
            k_.pv.prove(m_, k_.label + "the state becomes the outcome returned", hasattr(k_, "setperm") and k_.setperm == r)
            k_.pv.prove(m_, k_.label + "the outcome is within the state", z3.ULT(r, top))
            if k_.part is not None:
                t = k_.tot.z3()
                k_.pv.prove(m_, k_.label + "outcome drawn by the Born rule: its probability is not 0, and the draw falls in its share",
                            z3.And(NZ(r), r == k_.partof, t <= rn, z3.Or(rn <= t + k_.part.z3(), t + k_.part.z3() == 1)))
            else:
                k_.pv.prove(m_, k_.label + "rounding left the total below the draw: the last outcome of nonzero probability", z3.Implies(k_.tot.z3() > 0, NZ(r)))
        w.ret = ret
        return e, [], w

    def c_proball(m, o, refs, node):
        k = m.kern
        k.partof = B128(refs[0].get())
        k.part = prob_atom(m, "Pj")
        m.path.assume(z3.And(NZ(k.partof) == (k.part.z3() > 0), k.tot.z3() + k.part.z3() <= 1))
        return k.part

    def c_setperm(m, o, refs, node):
        m.kern.setperm = B128(refs[0].get())
    ac = dict(mc)
    for c_ in (CPU, QE, QI):
        ac[c_ + "ProbAll"] = c_proball
        ac[c_ + "SetPermutation"] = c_setperm
    task("MAll", defn(CPU + "MAll"), [("any state", b_all)], ac)

    # ---- normalisation
    DEF = R.const(-999)

    def b_norm(kind):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            N = R.atom("N")
            m.path.assume(N.z3() >= 0)
            given = kind == "norm given"
            floor = R.atom("floor")
            e = engine(k, m, n, b, norm=DEF if kind == "norm unknown" else (R.atom("other") if given else N), null=kind == "all-zero engine")
            th = DEF
            if kind == "threshold given":
                th = R.atom("th")
                m.path.assume(th.z3() > 0)
            if kind == "amplitude floor":
                e.f["amplitudeFloor"].set(floor)
                m.path.assume(floor.z3() > 0)
                th = DEF
            t = th if kind == "threshold given" else floor if kind == "amplitude floor" else None
            if kind == "all-zero engine":
                return e, [DEF, DEF, R.const(0)], Want(None)
            if given:
                k.pend[id(e)] = True
            k.N = N

            def value(m_, j):
                a = toCx(b.at(m_, j))
                if t is not None and m_.branch(a.norm().z3() < t.z3()):
                    return Cx(0)
                return Cx(R.const(1) / m_.std.sqrt(m_, N)) * a
            w = Want(Gather(value))

            def post(m_, k_, e_):
                nr = e_.f["runningNorm"].get()
                if e_.f["stateVec"].get() is None:
                    k_.pv.prove(m_, k_.label + "the state is dropped only if its norm is 0", N.z3() == 0)
                    k_.pv.prove_eq_real(m_, k_.label + "norm of an all-zero state", nr, ZR)
                elif k_.nloop:
                    k_.pv.prove_eq_real(m_, k_.label + "recorded norm afterwards", nr, R.const(1))
            w.post = post
            w.maynull = True
            w.final.nonneg = True
            # without a loop the norm was 1 already
            full = w.final

            def fin(m_, j):
                if not k.nloop:
                    k.pv.prove(m_, k.label + "left alone only if the norm is 1 already", N.z3() == 1)
                    return b.at(m_, j)
                return value(m_, j)
            w.specs = [full]
            w.final = Gather(fin)
            return e, [N if given else DEF, th, R.const(0)], w
        return f

    def c_update(m, o, refs, node):
        o.f["runningNorm"].set(m.kern.N)
        m.kern.pend[id(o)] = False
    nc = dict(contracts())
    nc[CPU + "UpdateRunningNorm"] = c_update
    task("NormalizeState", defn(CPU + "NormalizeState"), [(x, b_norm(x)) for x in ("recorded norm", "norm unknown", "norm given", "threshold given", "amplitude floor", "all-zero engine")], nc)

    def b_update(null, given=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, norm=R.atom("old"), null=null)
            fl, th = R.atom("floor"), R.atom("th")
            m.path.assume(z3.And(fl.z3() >= 0, th.z3() >= 0))
            e.f["amplitudeFloor"].set(fl)
            w = Want(None, specs=[])
            w.maynull = True

            def post(m_, k_, e_):
                nr = e_.f["runningNorm"].get()
                if null:
                    k_.pv.prove_eq_real(m_, k_.label + "norm of an all-zero state", nr, ZR)
                    return
                a = k_.parnorm
                k_.pv.prove(m_, k_.label + "sum over the whole state", B64(a[0]) == p2(n))
                k_.pv.prove(m_, k_.label + "sum over this state", a[1] is k_.sv0)
                k_.pv.prove_eq_real(m_, k_.label + "threshold", toR(a[2]), th if given else fl)
                S = R.atom("S")
                if e_.f["stateVec"].get() is None:
                    k_.pv.prove(m_, k_.label + "the state is dropped only if its norm is 0", S.z3() == 0)
                else:
                    k_.pv.prove_eq_real(m_, k_.label + "recorded norm is the sum", nr, S)
            w.post = post
            k.sv0 = None if null else e.f["stateVec"].get().to
            return e, [th if given else DEF], w
        return f

    def c_parnorm(m, o, refs, node):
        k = m.kern
        a = [r.get() for r in refs]
        k.access(a[1].to)
        k.parnorm = (a[0], a[1].to, a[2])
        s = R.atom("S")
        m.path.assume(s.z3() >= 0)
        return s
    uc = dict(contracts())
    uc["Qrack::ParallelFor::par_norm"] = c_parnorm
    task("UpdateRunningNorm", defn(CPU + "UpdateRunningNorm"), [("default threshold", b_update(False)), ("threshold given", b_update(False, True)), ("all-zero engine", b_update(True))], uc)


if __name__ == "__main__":
    C.assumptions = [
        "parallel loops by contract (C03); queued work is finished by Finish() or Dump(); exact real arithmetic; tolerances read as 0",
        "probabilities by contract (C18): in [0, 1], those of all outcomes add up to 1; Rand() gives a value in [0, 1); the nonunitary phase is arbitrary (GetNonunitaryPhase)",
        "par_norm by contract (C03): the sum of the squared moduli at or above the threshold",
        "measured bits are distinct; a forced register value lies within the register; numbers of measured bits in drawn measurements as enumerated in the obligation names (forced registers, masks and positions are arbitrary)",
    ]
    C.standins = ["measurement operations on the real engines: random differential runs against a dense reference, including the frequency of outcomes (bounded)"]
    C.harness_args = ["stacks=cpu,cpun", "groups=meas,measall,state"]
    C.run(prepare)
