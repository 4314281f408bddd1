"""C08: compose, allocate, clone, decompose and dispose keep the index map of the CPU engine's state."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from fractions import Fraction
from dv import astload, interp as I, check, tol, loops
from dv.kern import *
from dv.engops import *
from dv.sep import Sep
from dv.real import R, Cx, toR, toCx
from dv.astload import params_of, has_body
from dv.stdmodel import key_of

C = check.Check("C08")
C.harness = "diff.cpp"
FILES = ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/utility.cpp", "src/common/functions.cpp", "src/qinterface/qinterface.cpp"]
CPU, QE, QI = "Qrack::QEngineCPU::", "Qrack::QEngine::", "Qrack::QInterface::"
THOROUGH = check.TIER == "thorough"
CAP = z3.BitVec("capacity", 8)


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    con = contracts()
    con[CPU + "NormalizeState"] = con[QE + "NormalizeState"] = c_normalize

    def setup(m):
        # QRACK_MAX_CPU_QB: any capacity up to 60 qubits
        m.path.assume(z3.And(z3.UGE(CAP, 1), z3.ULE(CAP, NMAX)))
        m.global_over["QRACK_MAX_CPU_QB_DEFAULT"] = I.Cell(CAP)

    def defn(q, pick=lambda d: True):
        l = [d for d in prog.func(q) if has_body(d) and pick(d)]
        if not l:
            raise RuntimeError("no definition of %s" % q)
        return l[0]

    def task(name, df, builds, con_=None, setup_=None):
        for label, b in builds:
            def st(m):
                setup(m)
                if setup_:
                    setup_(m)
            C.task("%s(%s)" % (name, label), lambda pv, label=label, b=b, st=st: verify(prog, pv, df, "%s(%s): " % (name, label), b, con_ or con, setup=st), [df["_q"]])

    def two(m, k, donorm=(False, False), null=(False, False), lo=(1, 1)):
        """two engines of any widths"""
        n1, n2 = nq(m, lo[0], "n1"), nq(m, lo[1], "n2")
        a, b = Base("a"), Base("b")
        e = engine(k, m, n1, a, donorm=donorm[0], null=null[0])
        o = engine(k, m, n2, b, donorm=donorm[1], null=null[1], name="other state")
        return n1, n2, a, b, e, o

    def kept(o, sv, b, n2):
        """the engine that was copied from is unchanged"""
        def post(m, k, e):
            if o is e:
                return
            p = o.f["stateVec"].get()
            k.pv.prove(m, k.label + "width of the copied engine unchanged", I.bv(o.f["qubitCount"].get(), 8) == n2)
            if p is not sv and not (p is not None and sv is not None and p.to is sv.to):
                fail(k.pv, m, k.label + "the copied engine keeps its state", "")
            elif p is not None:
                j = z3.BitVec("jo", 64)
                m.path.assume(z3.ULT(j, p.to.size))
                k.pv.prove_eq_cx(m, k.label + "the copied engine keeps its state", p.to.get(m, j), b.at(m, j))
            if e.f["stateVec"].get() is not None and p is not None and e.f["stateVec"].get().to is p.to:
                fail(k.pv, m, k.label + "the composed state is not shared with the copied engine", "")
        return post

    def ret_is(v):
        return lambda m, k, r: k.pv.prove(m, k.label + "position returned", I.bv(r, 8) == v)

    def pending(objs):
        """give normalising engines an arbitrary recorded norm; returns the obligation that each was normalised before the product was formed"""
        given = []
        for i, x in enumerate(objs):
            if x.f["doNormalize"].get():
                given.append((x, R.atom("N%d" % i)))
                x.f["runningNorm"].set(given[-1][1])

        def post(m, k):
            done = [o for o, _, _, wr in getattr(k, "normalised", []) if not wr]
            for x, nrm in given:
                if not any(o is x for o in done):
                    k.pv.prove(m, k.label + "every engine with a pending normalisation is normalised before it is composed", nrm.z3() == 1)
        return post

    # ---- Compose(toCopy) and Compose(toCopy, start)
    def product(n1, n2, s, a, b):
        lo = lowmask(s)
        mid = lowmask(n2) << zx(s)
        end = lowmask(n1 + n2) & ~(lo | mid)
        return lambda m, j: a.at(m, (j & lo) | z3.LShR(j & end, zx(n2))) * b.at(m, z3.LShR(j & mid, zx(s)))

    def product_end(n1, n2, a, b):
        return lambda m, j: a.at(m, j & lowmask(n1)) * b.at(m, z3.LShR(j & (lowmask(n2) << zx(n1)), zx(n1)))

    def b_compose(at, donorm=(False, False), null=(False, False), alias=False):
        def f(m, k):
            n1, n2, a, b, e, o = two(m, k, donorm, null)
            if alias:
                o, n2, b = e, n1, a
            norms = pending([e] if alias else [e, o])
            s = z3.BitVec("start", 8) if at else n1
            bad = z3.UGT(s, n1)
            big = z3.UGT(n1 + n2, CAP)
            m.path.assume(z3.ULE(n1, CAP))
            m.path.assume(z3.ULE(n2, CAP))
            # (the sum of the two widths is below 2^8 for every capacity)
            thr = z3.Or(bad, big) if at else big
            if any(null):
                fin = Gather(lambda m_, j: Cx(0))
                w = Want("null", n1 + n2, throws=thr, specs=[])

                def post(m_, k_, e_):
                    if e_.f["stateVec"].get() is not None:
                        fail(k_.pv, m_, k_.label + "product with a zero state is zero", "")
                    if not null[1]:
                        kept(o, o.f["stateVec"].get(), b, n2)(m_, k_, e_)
                w.post = post
            else:
                g = Gather(product(n1, n2, s, a, b) if at else product_end(n1, n2, a, b), [lambda j: j])
                keep = kept(o, o.f["stateVec"].get(), b, n2)

                def post1(m_, k_, e_):
                    keep(m_, k_, e_)
                    norms(m_, k_)
                w = Want(g, n1 + n2, throws=thr, specs=[g], post=post1)
            w.ret = ret_is(s)
            return e, [I.Ptr(o)] + ([s] if at else []), w
        return f

    cpu_arg = lambda d: "QEngineCPU" in params_of(d)[0]["type"]["qualType"]
    d1 = defn(CPU + "Compose", lambda d: len(params_of(d)) == 1 and cpu_arg(d))
    d2 = defn(CPU + "Compose", lambda d: len(params_of(d)) == 2 and cpu_arg(d))
    cases = [("any states", {}), ("normalizing", dict(donorm=(True, True))), ("zero state", dict(null=(True, False))), ("with a zero state", dict(null=(False, True))), ("with itself", dict(alias=True))]
    task("Compose", d1, [(l, b_compose(False, **kw)) for l, kw in cases])
    task("Compose at", d2, [(l, b_compose(True, **kw)) for l, kw in cases])

    # an engine of no qubits becomes a copy of the other
    def b_empty(at, null=False, other=False):
        def f(m, k):
            n2 = nq(m, 1, "n2")
            m.path.assume(z3.ULE(n2, CAP))
            b = Base("b")
            zero = z3.BitVecVal(0, 8)
            if other:       # composing with an engine of no qubits
                e = engine(k, m, n2, b)
                o = engine(k, m, zero, null=True, name="other state")
                s = z3.BitVec("start", 8)
                w = Want(None, throws=z3.UGT(s, n2) if at else None)
                return e, [I.Ptr(o)] + ([s] if at else []), w
            e = engine(k, m, zero, null=True)
            o = engine(k, m, n2, b, null=null, name="other state", norm=R.atom("N2"))
            s = z3.BitVec("start", 8)
            g = Gather(lambda m_, j: b.at(m_, j))
            w = Want("null" if null else g, n2, throws=s != 0 if at else None, specs=[])

            def post(m_, k_, e_):
                kept(o, o.f["stateVec"].get(), b, n2)(m_, k_, e_)
                if null:
                    if e_.f["stateVec"].get() is not None:
                        fail(k_.pv, m_, k_.label + "a zero state is copied as a zero state", "")
                else:
                    if e_.f["stateVec"].get() is None:
                        fail(k_.pv, m_, k_.label + "state is copied", "")
                    k_.pv.prove_eq_real(m_, k_.label + "recorded norm is the copied engine's", toR(e_.f["runningNorm"].get()), R.atom("N2"))
            w.post = post
            w.ret = ret_is(z3.BitVecVal(0, 8))
            return e, [I.Ptr(o)] + ([s] if at else []), w
        return f
    for at, nm, df in ((False, "Compose", d1), (True, "Compose at", d2)):
        task(nm, df, [("from no qubits", b_empty(at)), ("from no qubits, zero state", b_empty(at, null=True)), ("with no qubits", b_empty(at, other=True))])

    # ---- Compose(vector)
    def b_vector(cnt, donorm=False, nullat=None):
        def f(m, k):
            n = nq(m, 1, "n0")
            a = Base("a0")
            e = engine(k, m, n, a, donorm=donorm, null=nullat == 0)
            os_, bs, offs = [], [a], []
            tot = n
            for i in range(1, cnt + 1):
                ni = nq(m, 1, "n%d" % i)
                b = Base("a%d" % i)
                o = engine(k, m, ni, b, donorm=donorm, null=nullat == i, name="state %d" % i)
                offs.append(tot)
                os_.append(o)
                bs.append(b)
                tot = tot + ni
                m.path.assume(z3.ULE(tot, NMAX))
            ws = [I.bv(o.f["qubitCount"].get(), 8) for o in os_]
            norms = pending([e] + os_)

            def value(m_, j):
                v = a.at(m_, j & (p2(n) - 1))
                for b, w_, s_ in zip(bs[1:], ws, offs):
                    v = v * b.at(m_, z3.LShR(j & ((p2(w_) - 1) << zx(s_)), zx(s_)))
                return v
            ptrs = [I.Ptr(o) for o in os_]

            def ret(m_, k_, r):
                mp = r.get() if isinstance(r, I.Ref) else r
                for p, s_ in zip(ptrs, offs):
                    got = lookup(mp, p)
                    if got is None:
                        fail(k_.pv, m_, k_.label + "position of every composed engine is reported", "")
                    else:
                        k_.pv.prove(m_, k_.label + "position reported for each engine", I.bv(got, 8) == s_)
            if nullat is not None:
                w = Want("null", tot, specs=[])

                def post0(m_, k_, e_):
                    if e_.f["stateVec"].get() is not None:
                        fail(k_.pv, m_, k_.label + "product with a zero state is zero", "")
                w.post = post0
            else:
                g = Gather(value, [lambda j: j])

                def post(m_, k_, e_):
                    for o, b, w_, sv in zip(os_, bs[1:], ws, svs):
                        kept(o, sv, b, w_)(m_, k_, e_)
                    norms(m_, k_)
                svs = [o.f["stateVec"].get() for o in os_]
                w = Want(g, tot, specs=[g], post=post)
            w.ret = ret
            return e, [I.Vec(list(ptrs), "std::shared_ptr<Qrack::QInterface>")], w
        return f

    def lookup(mp, p):
        v = mp.d.get(key_of(p))
        return v.get() if isinstance(v, I.Ref) else v
    dv_ = defn(CPU + "Compose", lambda d: "vector" in params_of(d)[0]["type"]["qualType"])
    task("Compose vector", dv_, [("%d engines" % c_, b_vector(c_)) for c_ in (1, 2, 3)] + [("2 engines, normalizing", b_vector(2, True)),
                                 ("zero state", b_vector(1, nullat=0)), ("with a zero state", b_vector(2, nullat=2))])

    # ---- construction, Clone, CloneEmpty, Copy, Allocate
    def point(init, ph):
        return FnBase(lambda m_, j: ph if m_.branch(j == init) else Cx(0))

    def c_new(m, cls, vals, node):
        """make_shared<QEngineCPU>(...) by the contract of the constructor, proved below"""
        k = m.kern
        n, init, rgp, ph, donorm, rgph = vals[:6]
        floor = vals[10] if len(vals) > 10 else None
        init = I.bv(init, 128)
        k.pv.prove(m, k.label + "initial basis state is within the register", z3.Or(I.bv(n, 8) == 0, z3.ULT(init, z3.BitVecVal(1, 128) << zx(I.bv(n, 8), 128))))
        if m.branch(z3.UGT(I.bv(n, 8), CAP)):
            raise I.CppThrow("std::invalid_argument")
        zero = not m.branch(I.bv(n, 8) != 0)
        i64 = z3.simplify(z3.Extract(63, 0, init))
        nn = z3.simplify(I.bv(n, 8))
        e = engine(k, m, nn, None if zero else point(i64, toCx(ph)), donorm=donorm, rgp=rgph, null=zero, name="new engine's state", norm=R.const(0) if zero else "one")
        e.f["rand_generator"] = I.Cell(rgp)
        e.f["hardware_rand_generator"] = I.Cell(None)
        e.f["amplitudeFloor"].set(toR(floor) if floor is not None else R.const(0))
        k.pend[id(e)] = False
        k.made = getattr(k, "made", []) + [e]
        return I.Ptr(e)
    cn = dict(con)
    cn["new Qrack::QEngineCPU"] = c_new

    def rng_fields(e):
        e.f["rand_generator"] = I.Cell(None)
        e.f["hardware_rand_generator"] = I.Cell(None)
        return e

    def same_settings(k_, m_, e, o):
        for fld in ("doNormalize", "randGlobalPhase"):
            if o.f[fld].get() != e.f[fld].get():
                fail(k_.pv, m_, k_.label + "settings are copied", fld)
        k_.pv.prove_eq_real(m_, k_.label + "rounding floor is copied", toR(o.f["amplitudeFloor"].get()), toR(e.f["amplitudeFloor"].get()))
        k_.pv.prove(m_, k_.label + "width and dimension are copied", z3.And(I.bv(o.f["qubitCount"].get(), 8) == I.bv(e.f["qubitCount"].get(), 8), B64(o.f["maxQPowerOcl"].get()) == B64(e.f["maxQPowerOcl"].get()),
                                                                     I.bv(o.f["maxQPower"].get(), 128) == I.bv(e.f["maxQPower"].get(), 128)))

    def b_clone(kind, donorm=False, null=False, rgph=False):
        def f(m, k):
            n = nq(m)
            m.path.assume(z3.ULE(n, CAP))
            b = Base("a")
            e = rng_fields(engine(k, m, n, b, donorm=donorm, null=null, rgp=rgph, norm=R.atom("N") if not donorm else "one", floor=Fraction(1, 8)))
            sv0 = e.f["stateVec"].get()

            def ret(m_, k_, r):
                o = r.to if isinstance(r, I.Ptr) else None
                if o is None:
                    fail(k_.pv, m_, k_.label + "a new engine is returned", str(r))
                    return
                if o is e:
                    fail(k_.pv, m_, k_.label + "the engine returned is a new one", "")
                same_settings(k_, m_, e, o)
                p = o.f["stateVec"].get()
                if null or kind == "CloneEmpty":
                    if p is not None:
                        fail(k_.pv, m_, k_.label + "the new engine has the zero state", "")
                    return
                if p is None:
                    fail(k_.pv, m_, k_.label + "the state is copied", "")
                    return
                if kind == "Clone" and p.to is sv0.to:
                    fail(k_.pv, m_, k_.label + "the clone has a state vector of its own", "")
                j = z3.BitVec("jc", 64)
                m_.path.assume(z3.ULT(j, p2(n)))
                k_.pv.prove(m_, k_.label + "size of the new engine's state vector", p.to.size == p2(n))
                k_.pv.prove_eq_cx(m_, k_.label + "the state is copied", p.to.get(m_, j), b.at(m_, j))
                k_.pv.prove_eq_real(m_, k_.label + "recorded norm is copied", toR(o.f["runningNorm"].get()), toR(e.f["runningNorm"].get()))
            return e, [], Want(None, ret=ret, specs=[])
        return f
    for kind in ("Clone", "CloneEmpty", "Copy"):
        d = defn(CPU + kind, lambda d: len(params_of(d)) == 0)
        task(kind, d, [("any state", b_clone(kind)), ("random phase", b_clone(kind, rgph=True)), ("normalizing", b_clone(kind, donorm=True)), ("zero state", b_clone(kind, null=True))], cn)

    def b_alloc(donorm=False, null=False):
        def f(m, k):
            n = nq(m)
            m.path.assume(z3.ULE(n, CAP))
            b = Base("a")
            e = rng_fields(engine(k, m, n, b, donorm=donorm, null=null))
            s, l = z3.BitVec("start", 8), z3.BitVec("length", 8)
            m.path.assume(z3.ULE(l, NMAX))
            bad = z3.Or(z3.UGT(s, n), z3.And(l != 0, z3.UGT(n + l, CAP)))
            lo, mid = lowmask(s), lowmask(l) << zx(s)
            end = lowmask(n + l) & ~(lo | mid)
            if null:
                w = Want("null", n + l, throws=bad, specs=[])

                def post(m_, k_, e_):
                    if e_.f["stateVec"].get() is not None:
                        fail(k_.pv, m_, k_.label + "product with a zero state is zero", "")
                w.post = post
            else:
                def value(m_, j):
                    # (|0> on the new qubits: the others keep their relative order)
                    if m_.branch(z3.LShR(j & mid, zx(s)) != 0):
                        return Cx(0)
                    return b.at(m_, (j & lo) | z3.LShR(j & end, zx(l)))
                g = Gather(value, [lambda j: j])
                w = Want(g, n + l, throws=bad, specs=[g])
            w.ret = ret_is(s)
            return e, [s, l], w
        return f
    task("Allocate", defn(CPU + "Allocate"), [("any state", b_alloc()), ("normalizing", b_alloc(True)), ("zero state", b_alloc(null=True))], cn)

    # the constructor itself
    def t_ctor(rgph, given):
        def fn(pv):
            lab = "constructor(%s%s): " % ("given phase" if given else "default phase", ", random phase" if rgph else "")
            ctor = defn(CPU + "QEngineCPU", lambda d: len(params_of(d)) > 4 and params_of(d)[1].get("name") == "initState")

            def run(m):
                tol.install(m)
                k = K(pv, m, lab, [], {})
                m.kern = k
                k.cpu = 1
                setup(m)
                o = I.Obj("Qrack::QEngineCPU")
                m.default_fields(o, "Qrack::QEngineCPU")
                k.pend[id(o)] = False
                n = z3.BitVec("n", 8)
                m.path.assume(z3.ULE(n, NMAX))
                init = z3.BitVec("init", 64)
                m.path.assume(z3.Implies(n != 0, z3.ULT(init, p2(n))))
                ph = Cx(R.atom("phr"), R.atom("phi")) if given else None
                vals = [n, z3.ZeroExt(64, init), I.Ptr(I.Obj("generator"))]
                ps = params_of(ctor)
                for i in range(3, len(ps)):
                    nm = ps[i].get("name")
                    if nm == "phaseFac" and given:
                        vals.append(ph)
                    elif nm == "useHardwareRNG":
                        vals.append(False)
                    elif nm == "doNorm":
                        vals.append(True)
                    elif nm == "randomGlobalPhase":
                        vals.append(rgph)
                    elif nm == "norm_thresh":
                        vals.append(R.atom("floor"))
                    elif nm == "sep_thresh":
                        vals.append(R.atom("unused"))
                    else:
                        v = m.default_arg(ctor, i)
                        vals.append(v.get() if isinstance(v, I.Ref) else v)
                if given:
                    # (a given factor is a phase, and not the value that stands for "none given")
                    m.path.assume(ph.norm().z3() == 1)
                try:
                    m.run_ctor(o, ctor, [], None, vals)
                except I.CppThrow:
                    pv.prove(m, lab + "an exception only above the capacity", z3.UGT(n, CAP))
                    return
                pv.prove(m, lab + "widths above the capacity are rejected", z3.ULE(n, CAP))
                pv.prove(m, lab + "width and dimension", z3.And(I.bv(o.f["qubitCount"].get(), 8) == n, B64(o.f["maxQPowerOcl"].get()) == p2(n), I.bv(o.f["maxQPower"].get(), 128) == z3.BitVecVal(1, 128) << zx(n, 128)))
                if o.f["doNormalize"].get() is not True or o.f["randGlobalPhase"].get() is not rgph:
                    fail(pv, m, lab + "settings are recorded", "")
                pv.prove_eq_real(m, lab + "rounding floor is recorded", toR(o.f["amplitudeFloor"].get()), R.atom("floor"))
                p = o.f["stateVec"].get()
                if p is None:
                    pv.prove(m, lab + "no state vector only for no qubits", n == 0)
                    return
                pv.prove(m, lab + "no state vector for no qubits", n != 0)
                pv.prove_eq_real(m, lab + "recorded norm is 1", toR(o.f["runningNorm"].get()), R.const(1))
                j = z3.BitVec("j", 64)
                m.path.assume(z3.ULT(j, p2(n)))
                pv.prove(m, lab + "size of the state vector", p.to.size == p2(n))
                want = (ph if given else phase_of(m)) if m.branch(j == init) else Cx(0)
                pv.prove_eq_cx(m, lab + "initial state", p.to.get(m, j), want)
                pv.cover("constructed")
            return check.explore(prog, pv, run, con)
        return fn

    def phase_of(m):
        return Cx(R.atom("gphr"), R.atom("gphi"))
    for rgph in (False, True):
        for given in (False, True):
            C.task("constructor(%s,%s)" % (rgph, given), t_ctor(rgph, given), [CPU + "QEngineCPU"])

    # ---- Dispose(start, length, perm)
    def b_dispose(donorm=False, null=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            s, l = z3.BitVec("s", 8), z3.BitVec("l", 8)
            p = z3.BitVec("perm", 64)
            bad = z3.Or(z3.UGT(s, n), z3.UGT(l, n - s))
            m.path.assume(z3.Implies(z3.ULE(l, n), z3.ULE(p, lowmask(l))))
            e = engine(k, m, n, b, donorm=donorm, null=null)
            if null:
                return e, [s, l, z3.ZeroExt(64, p)], Want("null", n - l, throws=bad)
            m.path.assume(z3.Implies(z3.Not(bad), z3.Or(l == 0, z3.ULT(l, n))) if not k.whole else z3.And(s == 0, l == n))
            sk = lowmask(s)
            if k.whole:
                return e, [s, l, z3.ZeroExt(64, p)], Want("null", n - l)
            val = lambda m_, j: b.at(m_, (j & sk) | ((j ^ (j & sk)) << zx(l)) | (p << zx(s)))
            g = Gather(val, [lambda j: j])
            return e, [s, l, z3.ZeroExt(64, p)], Want(g, n - l, throws=bad, specs=[g])
        return f

    def whole(v):
        def g(fn):
            def f(m, k):
                k.whole = v
                return fn(m, k)
            return f
        return g
    dd = defn(CPU + "Dispose", lambda d: len(params_of(d)) == 3)
    task("Dispose known value", dd, [("any state", whole(False)(b_dispose())), ("normalizing", whole(False)(b_dispose(True))), ("zero state", whole(False)(b_dispose(null=True))),
                                       ("whole register", whole(True)(b_dispose()))])

    # ---- DecomposeDispose of a separable register
    cache = {}

    def b_sep(dest, donorm=False, destnull=False):
        def f(m, k):
            n = nq(m)
            s, l = z3.BitVec("s", 8), z3.BitVec("l", 8)
            bad = z3.Or(z3.UGT(s, n), z3.UGT(l, n - s))
            if m.branch(bad):
                e = engine(k, m, n, Base("a"), donorm=donorm)
                return e, [s, l, None], Want(None, throws=z3.BoolVal(True), specs=[])
            m.path.assume(z3.And(l != 0, z3.ULT(l, n)))
            sep = Sep(k, m, n, s, l, cache)
            sep.install(m)
            e = engine(k, m, n, FnBase(lambda m_, i: sep.at(m_, i)), donorm=donorm)
            d = None
            if dest:
                d = engine(k, m, l, Base("d"), null=destnull, name="destination state")
            rs = [z3.BitVec("r1", 64)] + ([] if dest else [z3.BitVec("r2", 64)])
            p = z3.BitVec("p1", 64)
            for r in rs:
                m.path.assume(z3.ULT(r, p2(n - l)))
            m.path.assume(z3.ULT(p, p2(l)))
            sep.facts += [z3.ULT(r, p2(n - l)) for r in rs] + [z3.ULT(p, p2(l))]
            sep.ri, sep.pi = rs, [p]
            w = Want("skip", n - l, specs=[sep.par_loop() for _ in range(8)])

            def post(m_, k_, e_):
                pv = k_.pv
                sv = e_.f["stateVec"].get()
                if sv is None:
                    fail(pv, m_, k_.label + "the remainder keeps a state", "")
                    return
                pv.prove(m_, k_.label + "size of the remainder", sv.to.size == p2(n - l))
                R1, P1 = sep.R.at(m_, rs[0]), sep.P.at(m_, p)
                try:
                    g1 = toCx(sv.to.get(m_, rs[0]))
                    if dest:
                        dv = d.f["stateVec"].get()
                        if dv is None or dv.to is sv.to:
                            fail(pv, m_, k_.label + "the destination has a state of its own", "")
                            return
                        pv.prove(m_, k_.label + "size of the destination", dv.to.size == p2(l))
                        h1 = toCx(dv.to.get(m_, p))
                        pv.prove_eq_cx(m_, k_.label + "remainder times destination is the separable state", g1 * h1, R1 * P1)
                        pv.prove_eq_real(m_, k_.label + "destination has the factor's magnitudes", h1.norm(), P1.norm())
                        pv.prove(m_, k_.label + "width of the destination", I.bv(d.f["qubitCount"].get(), 8) == l)
                    else:
                        R2 = sep.R.at(m_, rs[1])
                        g2 = toCx(sv.to.get(m_, rs[1]))
                        pv.prove_eq_cx(m_, k_.label + "remainder is its factor, up to one phase", g1 * g2.conj(), R1 * R2.conj())
                    pv.prove_eq_real(m_, k_.label + "remainder has the factor's magnitudes", g1.norm(), R1.norm())
                except UndefRead:
                    fail(pv, m_, k_.label + "every amplitude is defined afterwards", "")
            w.post = post
            return e, [s, l, I.Ptr(d) if d is not None else None], w
        return f

    def c_setperm(m, o, refs, node):
        """SetPermutation() by its contract (C02): a basis state; the queue is drained"""
        k = m.kern
        n = I.bv(o.f["qubitCount"].get(), 8)
        perm = I.bv(refs[0].get(), 128)
        sv = SV(k, p2(n), FnBase(lambda m_, j: phase(m_) if m_.branch(z3.ZeroExt(64, j) == perm) else Cx(0)))
        sv.owner = o
        o.f["stateVec"].set(I.Ptr(sv))
        o.f["runningNorm"].set(R.const(1))
        k.pend[id(o)] = False
    cs = dict(con)
    cs[CPU + "SetPermutation"] = c_setperm
    ddf = defn(CPU + "DecomposeDispose")
    def b_edge(kind, dest, null=False):
        def f(m, k):
            n = nq(m)
            b = Base("a")
            s, l = z3.BitVec("s", 8), z3.BitVec("l", 8)
            m.path.assume(z3.And(z3.ULE(s, n), z3.ULE(l, n - s)))
            e = engine(k, m, n, b, null=null, norm=R.const(0) if null else R.atom("N"))
            d = engine(k, m, l, Base("d"), name="destination state") if dest else None
            args = [s, l, I.Ptr(d) if dest else None]
            if kind == "nothing":
                m.path.assume(l == 0)
                return e, args, Want(None, specs=[])
            if kind == "whole":
                m.path.assume(l == n)
            m.path.assume(l != 0)
            w = Want("null" if kind == "whole" else None, n - l, specs=[])
            if kind == "whole":
                w.n = z3.BitVecVal(0, 8)

            def post(m_, k_, e_):
                pv = k_.pv
                if (kind == "whole" or null) and e_.f["stateVec"].get() is not None:
                    fail(pv, m_, k_.label + "no state is left", "")
                if k_.pend.get(id(e_), True) and not null:
                    fail(pv, m_, k_.label + "the queue is drained before the state is handed over", "no Finish() or Dump()")
                if not dest:
                    return
                p = d.f["stateVec"].get()
                pv.prove(m_, k_.label + "width of the destination", I.bv(d.f["qubitCount"].get(), 8) == l)
                if null:
                    if p is not None:
                        fail(pv, m_, k_.label + "the destination has the zero state", "")
                    return
                if p is None:
                    fail(pv, m_, k_.label + "the destination has the state", "")
                    return
                if k_.pend.get(id(d), True):
                    fail(pv, m_, k_.label + "the destination's queue is drained before its state is replaced", "no Finish() or Dump()")
                j = z3.BitVec("jd", 64)
                m_.path.assume(z3.ULT(j, p2(n)))
                pv.prove(m_, k_.label + "size of the destination", p.to.size == p2(n))
                pv.prove_eq_cx(m_, k_.label + "the destination has the state", p.to.get(m_, j), b.at(m_, j))
                pv.prove_eq_real(m_, k_.label + "the destination has the recorded norm", toR(d.f["runningNorm"].get()), R.atom("N"))
            w.post = post
            return e, args, w
        return f
    task("DecomposeDispose", ddf, [("nothing", b_edge("nothing", False)), ("whole register disposed", b_edge("whole", False)), ("whole register", b_edge("whole", True)),
                                   ("zero state", b_edge("any", False, True)), ("zero state with destination", b_edge("any", True, True))], cs)

    # ---- the public forms
    def c_dd(m, o, refs, node):
        m.kern.called = getattr(m.kern, "called", []) + [(o, [r.get() for r in refs])]

    def b_forms(kind):
        def f(m, k):
            n = nq(m)
            e = rng_fields(engine(k, m, n, Base("a")))
            k.called = []
            s, l = z3.BitVec("s", 8), z3.BitVec("l", 8)
            m.path.assume(z3.ULE(l, NMAX))
            m.path.assume(z3.And(z3.ULE(n, CAP), z3.ULE(l, CAP)))
            d = engine(k, m, l, Base("d"), name="destination state")
            args = {"Decompose into": [s, I.Ptr(d)], "Dispose": [s, l], "Decompose": [s, l]}[kind]

            def ret(m_, k_, r):
                pv = k_.pv
                if len(k_.called) != 1 or k_.called[0][0] is not e:
                    fail(pv, m_, k_.label + "decomposes this engine once", str(len(k_.called)))
                    return
                a = k_.called[0][1]
                pv.prove(m_, k_.label + "range decomposed", z3.And(I.bv(a[0], 8) == s, I.bv(a[1], 8) == l))
                to = a[2]
                if kind == "Dispose":
                    if to is not None:
                        fail(pv, m_, k_.label + "no destination", "")
                elif kind == "Decompose into":
                    if to is None or to.to is not d:
                        fail(pv, m_, k_.label + "destination", "")
                else:
                    x = to.to if isinstance(to, I.Ptr) else None
                    rr = r.to if isinstance(r, I.Ptr) else None
                    if x is None or rr is not x or x is e:
                        fail(pv, m_, k_.label + "the destination is a new engine, which is returned", "")
                    else:
                        pv.prove(m_, k_.label + "width of the new engine", z3.And(I.bv(x.f["qubitCount"].get(), 8) == l, B64(x.f["maxQPowerOcl"].get()) == p2(l)))
            return e, args, Want("skip", ret=ret, specs=[])
        return f
    cw = dict(cn)
    cw[CPU + "DecomposeDispose"] = c_dd
    task("Decompose into", defn(CPU + "Decompose", lambda d: len(params_of(d)) == 2), [("range", b_forms("Decompose into"))], cw)
    task("Dispose", defn(CPU + "Dispose", lambda d: len(params_of(d)) == 2), [("range", b_forms("Dispose"))], cw)
    task("Decompose", defn(QE + "Decompose", lambda d: len(params_of(d)) == 2), [("range", b_forms("Decompose"))], cw)

    task("DecomposeDispose", ddf, [("dispose", b_sep(False)), ("decompose", b_sep(True)), ("decompose, normalizing", b_sep(True, True)), ("decompose into a zero state", b_sep(True, destnull=True))], cs)


if __name__ == "__main__":
    C.assumptions = [
        "parallel loops by contract (C03); queued work is finished by Finish() or Dump(); exact real arithmetic; tolerances read as 0",
        "NormalizeState by contract (C07); std::max_element returns the first maximum, std::polar, std::arg and std::sqrt are exact",
        "decomposed registers are separable, with a remainder and a part that are unit vectors; a disposed register of known value holds it",
        "total widths to %d qubits (the capacity limit QRACK_MAX_CPU_QB is not reached); composing a list: 1 to 3 engines" % NMAX,
        "Decompose's destination starts out in a permutation state or without amplitudes (as documented); engines are not composed concurrently",
        "Copy() shares the state vector of its argument by design (only Clone() is specified to be independent)",
    ]
    C.standins = ["compose, decompose, dispose, allocate, TryDecompose on the real engines: random differential runs against a dense reference (bounded)"]
    C.harness_args = ["stacks=cpu,cpun", "groups=comp,compx,tryd,state"]
    C.run(prepare)
