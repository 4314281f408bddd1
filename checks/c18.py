"""C18: probabilities, expectation values and overlaps reported by the CPU engine, as sums over its amplitudes."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from dv import astload, interp as I, check, tol, loops
from dv.kern import *
from dv.engops import *
from dv.real import R, Cx, toR, toCx
from dv.astload import params_of, has_body

C = check.Check("C18")
C.harness = "diff.cpp"
FILES = ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/utility.cpp", "src/common/functions.cpp", "src/qinterface/qinterface.cpp"]
CPU, QE, QI = "Qrack::QEngineCPU::", "Qrack::QEngine::", "Qrack::QInterface::"
THOROUGH = check.TIER == "thorough"
ALL = lambda j: z3.BoolVal(True)


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    con = contracts()
    con[CPU + "NormalizeState"] = con[QE + "NormalizeState"] = c_normalize

    def defn(q, nparams=None):
        l = [d for d in prog.func(q) if has_body(d) and (nparams is None or len(params_of(d)) == nparams)]
        if not l:
            raise RuntimeError("no definition of %s" % q)
        return l[0]

    def task(name, df, builds, con_=None):
        for label, b in builds:
            C.task("%s(%s)" % (name, label), lambda pv, label=label, b=b: verify(prog, pv, df, "%s(%s): " % (name, label), b, con_ or con), [df["_q"]])

    def square(b):
        return lambda m_, j: toCx(b.at(m_, j)).norm()

    def total(w, other=None):
        """the value returned is the sum (or, without a loop, the given value)"""
        def ret(m, k, r):
            want = k.totals[0] if k.totals else other(m, k)
            k.pv.prove_eq_real(m, k.label + "value returned is the sum over the state", toR(r), toR(want))
        w.ret = ret
        w.specs = w.specs or []
        return w

    def reading(pred, b, owners=(), **kw):
        return Want(None, specs=[Reduce(pred, square(b), owners, cap=1)], **kw)

    def zero(w):
        def ret(m, k, r):
            k.pv.prove_eq_real(m, k.label + "value returned for an all-zero engine", toR(r), R.const(0))
        w.ret = ret
        return w

    def variants(mk):
        """state present, recorded norm pending or not; no state"""
        return [("any state", mk(False, False)), ("norm pending", mk(True, False)), ("all-zero engine", mk(False, True))]

    # ---- single qubit
    def b_prob(donorm, null):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, donorm=donorm, null=null)
            q = z3.BitVec("q", 8)
            bad = z3.UGE(q, n)
            if null:
                return e, [q], zero(Want(None, throws=bad))
            own = lambda j: z3.If(q == 0, z3.LShR(j, 2), z3.LShR(j & ~p2(q), 1))
            w = reading(lambda j: isset(j, q), b, [own, lambda j: j & ~p2(q)], throws=bad)

            def one(m_, k_):
                k_.pv.prove(m_, k_.label + "without a loop: one qubit", n == 1)
                v = square(b)(m_, z3.BitVecVal(1, 64))
                return v
            return e, [q], total(w, one)
        return f
    task("Prob", defn(CPU + "Prob"), variants(b_prob))

    # ---- conditional probability
    def b_cprob(state, null=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, null=null)
            c, t = z3.BitVec("c", 8), z3.BitVec("t", 8)
            bad = z3.Or(z3.UGE(c, n), z3.UGE(t, n))
            m.path.assume(c != t)
            k.pend[id(e)] = False  # (Prob drains the queue: its own check)
            if null:
                return e, [state, c, t], zero(Want(None, throws=bad))
            k.probs = {}
            pred = lambda j: z3.And(isset(j, t), isset(j, c) if state else z3.Not(isset(j, c)))
            w = reading(pred, b, [lambda j: j & ~p2(t)], throws=bad)
            pc, pt = R.atom("P(control)"), R.atom("P(target)")
            w.specs[0].cap = None

            def ret(m_, k_, r):
                P = pc if state else 1 - pc
                if not k_.totals:
                    # control impossible: 0; control certain: the target's own probability
                    if m_.branch(P.z3() == 0):
                        k_.pv.prove_eq_real(m_, k_.label + "control condition impossible: 0", toR(r), R.const(0))
                    else:
                        k_.pv.prove(m_, k_.label + "no sum only where the control condition is certain", P.z3() == 1)
                        k_.pv.prove_eq_real(m_, k_.label + "control condition certain", toR(r), pt)
                    return
                k_.pv.prove(m_, k_.label + "sum only where the condition has nonzero probability", P.z3() > 0)
                q = R.const(0) + toR(r)
                k_.pv.prove_eq_real(m_, k_.label + "conditional probability times the condition's", q * P, k_.totals[0])
            w.ret = ret
            return e, [state, c, t], w
        return f

    def c_prob(m, o, refs, node):
        """Prob(qubit) by its contract, proved above"""
        k = m.kern
        q = I.bv(refs[0].get(), 8)
        n = I.bv(o.f["qubitCount"].get(), 8)
        if m.branch(z3.UGE(q, n)):
            raise I.CppThrow("std::invalid_argument")
        ctrl = not m.path.sat(q != z3.BitVec("c", 8))
        if not ctrl:
            k.pv.prove(m, k.label + "probability of the control or the target", q == z3.BitVec("t", 8))
        return prob_atom(m, "P(control)" if ctrl else "P(target)")
    pc = dict(con)
    pc[CPU + "Prob"] = pc[QE + "Prob"] = pc[QI + "Prob"] = c_prob

    def cap_hook(kind):
        base = par_contract(kind)

        def f(m, o, refs, node):
            r = base(m, o, refs, node)
            k = m.kern
            P = R.atom("P(control)")
            t = k.totals[0]
            # the joint probability is at most that of the condition
            m.path.assume(t.z3() <= (P if k.state else 1 - P).z3())
            return r
        return f

    def with_state(st, b):
        def f(m, k):
            k.state = st
            return b(m, k)
        return f
    for x in ("par_for", "par_for_skip", "par_for_mask"):
        pc["Qrack::ParallelFor::" + x] = cap_hook(x)
    task("CtrlOrAntiProb", defn(CPU + "CtrlOrAntiProb"), [("control in 1", with_state(True, b_cprob(True))), ("control in 0", with_state(False, b_cprob(False))),
                                                       ("all-zero engine", b_cprob(True, True))], pc)

    # ---- registers, masks, parity
    def b_reg(donorm, null):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, donorm=donorm, null=null)
            s, l = z3.BitVec("rS", 8), z3.BitVec("rL", 8)
            bad = z3.Or(z3.UGT(s, n), z3.UGT(l, n - s))
            v = z3.BitVec("v", 128)
            if null:
                return e, [s, l, v], zero(Want(None, throws=bad))
            m.path.assume(z3.Implies(z3.Not(bad), z3.ULT(v, z3.BitVecVal(1, 128) << zx(l, 128))))
            w = reading(lambda j: field(j, s, l) == z3.Extract(63, 0, v), b, [lambda j: j & ~rmask(s, l)], throws=bad)
            return e, [s, l, v], total(w)
        return f
    task("ProbReg", defn(CPU + "ProbReg"), variants(b_reg))

    def b_mask(nb):
        def f_(donorm, null):
            def f(m, k):
                n = nq(m)
                b = Base("a")
                e = engine(k, m, n, b, donorm=donorm, null=null)
                mq = [z3.BitVec("m%d" % i, 8) for i in range(nb)]
                for i, x in enumerate(mq):
                    m.path.assume(z3.ULT(x, NMAX + 4))
                    if i:
                        m.path.assume(z3.ULT(mq[i - 1], x))
                mm = z3.simplify(orall([p2(x) for x in mq]))
                mk = z3.ZeroExt(64, mm)
                bad = z3.UGE(mk, z3.BitVecVal(1, 128) << zx(n, 128))
                v = z3.BitVec("v", 128)
                m.path.assume((v & ~mk) == 0)
                if null:
                    return e, [mk, v], zero(Want(None, throws=bad))
                w = reading(lambda j: (j & mm) == z3.Extract(63, 0, v), b, [lambda j: j & ~mm], throws=bad)
                return e, [mk, v], total(w)
            return f
        return f_
    for nb in ((0, 1, 2, 3) if THOROUGH else (0, 1, 2)):
        task("ProbMask", defn(CPU + "ProbMask"), [("%d bits, %s" % (nb, x), y) for x, y in variants(b_mask(nb))])

    def b_parity(empty):
        def f_(donorm, null):
            def f(m, k):
                n = nq(m)
                b = Base("a")
                e = engine(k, m, n, b, donorm=donorm, null=null)
                mk = z3.BitVecVal(0, 128) if empty else z3.BitVec("mask", 128)
                mm = z3.Extract(63, 0, mk)
                bad = z3.UGE(mk, z3.BitVecVal(1, 128) << zx(n, 128))
                if null or empty:
                    return e, [mk], zero(Want(None, throws=bad))
                m.path.assume(mk != 0)
                w = reading(lambda j: par(j & mm), b, throws=bad)
                return e, [mk], total(w)
            return f
        return f_
    task("ProbParity", defn(CPU + "ProbParity"), variants(b_parity(False)) + [("empty mask", b_parity(True)(False, False))])

    # ---- single amplitudes
    def b_all(donorm):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, donorm=donorm)
            p = z3.BitVec("perm", 128)
            w = Want(None, throws=None)

            def ret(m_, k_, r):
                k_.pv.prove(m_, k_.label + "the amplitude of the permutation asked for", k_.asked == p)
                k_.pv.prove_eq_real(m_, k_.label + "value returned is the squared modulus of the amplitude", toR(r), R.atom("xr") ** 2 + R.atom("xi") ** 2)
            w.ret = ret
            return e, [p], w
        return f

    def c_amp(m, o, refs, node):
        """GetAmplitude by its contract (C02)"""
        m.kern.asked = I.bv(refs[0].get(), 128)
        a = Cx(R.atom("xr"), R.atom("xi"))
        m.path.assume(a.norm().z3() <= 1)
        return a
    ac = dict(con)
    for c_ in (CPU, QE, QI):
        ac[c_ + "GetAmplitude"] = c_amp
    task("ProbAll", defn(QE + "ProbAll"), [("any permutation", b_all(False)), ("norm pending", b_all(True))], ac)

    def b_probs(donorm, null):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, donorm=donorm, null=null)
            out = Arr(k, Undef(), "probabilities")
            w = Want(None, specs=[])
            if null:
                w.specs = [Gather(lambda m_, j: Cx(0))]

            def post(m_, k_, e_):
                j = z3.BitVec("jp", 64)
                m_.path.assume(z3.ULT(j, k_.size))
                try:
                    g = out.at(m_, j)
                except UndefRead:
                    fail(k_.pv, m_, k_.label + "every probability is written", "")
                    return
                k_.pv.prove_eq_cx(m_, k_.label + "probability of an arbitrary basis state", toCx(g), Cx(0) if null else Cx(toCx(b.at(m_, j)).norm()))
            w.post = post
            return e, [I.Ptr(out, 0)], w
        return f
    def b_probs_null(m, k):
        """the loop over an all-zero engine stores 0 for each index"""
        e, a, w = b_probs(False, True)(m, k)
        lcv = z3.BitVec("lcvp", 64)
        out = a[0].to

        def spec(m_, k_, inset, clear, fn):
            j = z3.BitVec("jp", 64)
            k_.pv.prove(m_, k_.label + "loop over every basis state", z3.Implies(z3.ULT(j, k_.size), inset(j)))
            m_.path.assume(z3.ULT(lcv, k_.size))
            m_.call_value(fn, [I.Cell(lcv), I.Cell(1)])
            k_.pv.prove(m_, k_.label + "one store, at the index of the iteration", len(out.w) == 1 and z3.And(out.w[0][0] == lcv))
            k_.pv.prove_eq_cx(m_, k_.label + "value stored", toCx(out.w[0][1]), Cx(0))
            return None
        w.specs = [spec]
        w.post = None
        return e, a, w
    task("GetProbs", defn(CPU + "GetProbs"), [("any state", b_probs(False, False)), ("norm pending", b_probs(True, False)), ("all-zero engine", b_probs_null)])

    # ---- probabilities of every value of a register or mask
    class RealBase(Base):
        def at(self, m, i):
            v = Base.at(self, m, i)
            return v.re if isinstance(v, Cx) else v

    def b_tab(masked, nb=None):
        def f(m, k):
            n = nq(m)
            e = engine(k, m, n, Base("a"))
            k.pend[id(e)] = False
            out = Arr(k, Undef(), "probabilities")
            i0 = z3.BitVec("i", 128 if masked else 64)
            if masked:
                mq = [z3.BitVec("m%d" % t, 8) for t in range(nb)]
                for t, x in enumerate(mq):
                    m.path.assume(z3.ULT(x, n))
                    if t:
                        m.path.assume(z3.ULT(mq[t - 1], x))
                mm = z3.simplify(orall([p2(x) for x in mq]))
                args = [z3.ZeroExt(64, mm), I.Ptr(out, 0)]
                bucket = lambda i: orall([z3.If(isset(i, x), z3.BitVecVal(1 << t, 64), z3.BitVecVal(0, 64)) for t, x in enumerate(mq)])
                cells = z3.BitVecVal(1 << nb, 64)
            else:
                s, l = rng(m, n, "r")
                args = [s, l, I.Ptr(out, 0)]
                bucket = lambda i: field(i, s, l)
                cells = p2(l)
            top = p2(n)
            name = "lcv" if masked else "i"
            rb = RealBase("pr")
            k.done = False

            def get(env):
                return I.bv(env.get(name), 128 if masked else 64)

            def havoc(env, g, kk):
                j = z3.BitVec("jb", 64)
                m.path.assume(z3.ULT(j, cells))
                try:
                    k.pv.prove_eq_real(m, k.label + "every sum starts at 0", toR(out.at(m, j)), R.const(0))
                except UndefRead:
                    fail(k.pv, m, k.label + "every sum starts at 0", "cell never written")
                env.set(name, i0)
                out.base, out.w = rb, []
                k.done = True
                return i0

            def inv(env, g, kk):
                i = get(env)
                w_ = i.size()
                o = [("the counter is within the state", z3.ULE(i, zx(top, w_)))]
                if not k.done:
                    o.append(("it starts at 0", i == 0))
                return o

            def step(env, i, kk):
                k.pv.prove(m, k.label + "next basis state", get(env) == i + 1)
                i64 = i if i.size() == 64 else z3.Extract(63, 0, i)
                b = bucket(i64)
                k.pv.prove(m, k.label + "one sum changes", len(out.w) == 1 and out.w[0][0] == b)
                k.pv.prove(m, k.label + "the probability is that of this basis state", k.asked == zx(i64, 128))
                k.pv.prove_eq_real(m, k.label + "it gains the probability of this basis state", toR(out.w[-1][1]) - toR(rb.at(m, b)), R.atom("pi"))
                return []
            q = "Qrack::QInterface::ProbMaskAll" if masked else QE + "ProbRegAll"

            def main_loop(nd, fr):
                return nd is loops.loops_of(fr.node)[-1]
            loops.install(m, k.pv, [loops.LoopSpec(q, lambda nd, fr: nd.get("kind") == "ForStmt" and loops.loops_of(fr.node)[-1 if not masked else [x for x, y in enumerate(loops.loops_of(fr.node)) if y.get("kind") == "ForStmt"][0]] is nd, havoc, inv, step=step)], k.label)
            return e, args, Want(None, specs=[])
        return f

    def c_proball(m, o, refs, node):
        m.kern.asked = I.bv(refs[0].get(), 128) if not z3.is_expr(refs[0].get()) else zx(refs[0].get(), 128)
        return prob_atom(m, "pi")
    tc = dict(con)
    for c_ in (CPU, QE, QI):
        tc[c_ + "ProbAll"] = c_proball
    task("ProbRegAll", defn(QE + "ProbRegAll"), [("any register", b_tab(False))], tc)
    task("ProbMaskAll", defn(QI + "ProbMaskAll"), [("%d bits" % nb, b_tab(True, nb)) for nb in ((0, 1, 2, 3) if THOROUGH else (0, 1, 2))], tc)

    # ---- overlap of two engines
    def b_diff(kind, donorm=False):
        def f(m, k):
            n = nq(m)
            b, c = Base("a"), Base("b")
            e = engine(k, m, n, b, donorm=donorm, null=kind in ("null", "both"))
            n2 = z3.BitVec("n2", 8) if kind == "width" else n
            if kind == "width":
                m.path.assume(z3.And(n2 != n, z3.UGE(n2, 1), z3.ULE(n2, NMAX)))
            o = engine(k, m, n2, c, donorm=donorm, null=kind in ("other null", "both"), name="other state")
            arg = I.Ptr(o) if kind not in ("same", "none") else (I.Ptr(e) if kind == "same" else None)
            w = Want(None, specs=[])
            const = {"same": 0, "width": 1, "none": 1, "both": 0, "null": R.atom("upd"), "other null": R.atom("upd")}.get(kind)

            def ret(m_, k_, r):
                want = (R.const(1) - k_.totals[0].norm()) if const is None else (R.const(const) if isinstance(const, int) else const)
                k_.pv.prove_eq_real(m_, k_.label + "value returned", toR(r), want)
            w.ret = ret
            if const is None:
                g = Reduce(ALL, lambda m_, j: toCx(b.at(m_, j)).conj() * toCx(c.at(m_, j)), cap=1)
                w.specs = [g]
            return e, [arg], w
        return f

    def c_update(m, o, refs, node):
        """UpdateRunningNorm by its contract (C07)"""
        k = m.kern
        k.pv.prove(m, k.label + "the norm is taken of the engine that has a state", o.f["stateVec"].get() is not None)
        o.f["runningNorm"].set(R.atom("upd"))
        k.pend[id(o)] = False
    dc = dict(con)
    dc[CPU + "UpdateRunningNorm"] = dc[QE + "UpdateRunningNorm"] = c_update
    task("SumSqrDiff", defn(CPU + "SumSqrDiff"), [("two states", b_diff("two")), ("two states, norm pending", b_diff("two", True)), ("same engine", b_diff("same")), ("no engine", b_diff("none")), ("different widths", b_diff("width")),
                                                 ("all-zero engine", b_diff("null")), ("other all-zero", b_diff("other null")), ("both all-zero", b_diff("both"))], dc)

    # ---- expectation value of a register
    def b_exp(null, donorm=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            e = engine(k, m, n, b, null=null, donorm=donorm)
            s, l = rng(m, n, "v")
            w = Want(None, specs=[])
            w.ret = (lambda m_, k_, r: exp_ret(m_, k_, r, b, s, l))
            if null:
                return e, [s, l], zero(Want(None, specs=[]))
            k.exp = (b, s, l)

            def havoc(env, g, kk):
                i = z3.BitVec("i", 64)
                env.set("i", i)
                k.T, k.A = R.atom("T"), R.atom("A")
                m.path.assume(k.T.z3() >= 0)
                env.set("totProb", k.T)
                env.set("average", k.A)
                return i

            def inv(env, g, kk):
                i = I.bv(env.get("i"), 64)
                out = [("the counter is within the state", z3.ULE(i, k.size if hasattr(k, "size") else p2(n)))]
                if g is None and kk is None:
                    out.append(("it starts at 0 with empty sums", z3.And(i == 0, toR(env.get("totProb")).z3() == 0, toR(env.get("average")).z3() == 0)))
                return out

            def step(env, i, kk):
                v = square(b)(m, i)
                k.pv.prove(m, k.label + "next index", I.bv(env.get("i"), 64) == i + 1)
                k.pv.prove_eq_real(m, k.label + "one iteration adds the state's probability to the total", toR(env.get("totProb")) - k.T, v)
                k.pv.prove_eq_real(m, k.label + "one iteration adds probability times register value", toR(env.get("average")) - k.A, v * m.std.int_to_float(field(i, s, l), None))
                return []
            loops.install(m, k.pv, [loops.LoopSpec(CPU + "GetExpectation", lambda nd, fr: True, havoc, inv, step=step)], k.label)
            return e, [s, l], w
        return f

    def exp_ret(m, k, r, b, s, l):
        if m.branch(k.T.z3() > 0):
            k.pv.prove_eq_real(m, k.label + "weighted mean", toR(r) * k.T, k.A)
    task("GetExpectation", defn(CPU + "GetExpectation"), [("any register", b_exp(False)), ("norm pending", b_exp(False, True)), ("all-zero engine", b_exp(True))])


if __name__ == "__main__":
    C.assumptions = [
        "parallel loops by contract (C03); queued work is finished by Finish() (a read before that is refuted); exact real arithmetic; tolerances read as 0",
        "NormalizeState, UpdateRunningNorm, GetAmplitude by contract (C07, C02): states are normalised after it; a probability lies in [0, 1], the overlap of unit vectors too (clampProb is then the identity)",
        "a permutation passed to ProbReg or ProbMask lies within the register or mask; control and target of a conditional probability differ",
        "ProbMask: masks of up to 2 (thorough: 3) bits at arbitrary positions",
    ]
    C.standins = ["probability and expectation queries of every op group on the real engines: random differential runs against a dense reference (bounded)"]
    C.harness_args = ["stacks=cpu,cpun", "groups=prob"]
    C.run(prepare)
