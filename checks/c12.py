"""C12: measuring, querying and rearranging a stabilizer state keeps a valid tableau of exactly the right state."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import interp as I, tol
from dv import tab as T
from dv.check import Check, explore
from dv.astload import Program, params_of, qtype
from dv.real import R, Cx

ck = Check("C12")
QS = "Qrack::QStabilizer"
FILES = ["src/qstabilizer.cpp"]
prog = None


def method(name, nargs):
    c = [d for d in prog.func(QS + "::" + name) if len(params_of(d)) == nargs]
    if len(c) != 1:
        raise I.Unsupported("%s: %d definitions with %d parameters" % (name, len(c), nargs))
    return c[0]


def qobj(m, tab, rgp):
    o = I.Obj(QS)
    o.f.update({"qubitCount": I.Cell(tab.n8), "randGlobalPhase": I.Cell(rgp), "phaseOffset": I.Cell(R.atom("phase")),
                "x": I.Cell(T.Rows(tab, "x")), "z": I.Cell(T.Rows(tab, "z")), "r": I.Cell(T.Rows(tab, "r")), "maxQPower": I.Cell(z3.BitVec("maxQPower", 128))})
    return o


# ------------------------------------------------------------------ contracts
def args16(m, tab, refs, what):
    out = []
    for r in refs:
        v = r.get()
        v = I.bv(v, 8) if isinstance(v, int) else v
        tab.check_row(None, what, v if v.size() >= 16 else z3.ZeroExt(8, v))
        out.append(T.w16(v))
    return out


def row_contracts(tab_of, pv):
    def c_mult(m, this, refs, n):
        tab = tab_of()
        tab.settled()
        i, k = args16(m, tab, refs, "rowmult")
        pv.prove(m, "rowmult is not asked to multiply a row with itself", i != k)
        tab.rowmult(i, k)

    def c_copy(m, this, refs, n):
        tab = tab_of()
        tab.settled()
        tab.rowcopy(*args16(m, tab, refs, "rowcopy"))

    def c_swap(m, this, refs, n):
        tab = tab_of()
        tab.settled()
        tab.rowswap(*args16(m, tab, refs, "rowswap"))

    def c_set(m, this, refs, n):
        tab = tab_of()
        tab.settled()
        i, = args16(m, tab, refs[:1], "rowset")
        b = refs[1].get()
        b = T.w16(I.bv(b, 8) if isinstance(b, int) else b)
        pv.prove(m, "rowset is given one of the 2n observables", z3.ULT(b, 2 * tab.n))
        tab.rowset(i, b)
    return {QS + "::rowmult": c_mult, QS + "::rowcopy": c_copy, QS + "::rowswap": c_swap, QS + "::rowset": c_set}


def keeps_group(tab_of, pv):
    """contract of gaussian() and the read-out functions: another tableau of the same state (proved below for each of them)"""
    def c(m, this, refs, n):
        tab = tab_of()
        tab.settled()
        s0 = tab.cur

        def fact(s, u, v, c):
            out = []
            if v is None and c is None:
                out += [z3.Implies(tab.up(u), s.ing(u))]
            if v is not None:
                out.append(z3.Implies(z3.And(tab.real(u), tab.real(v)), s.sp(u, v) == tab.can(u, v)))
            return out
        # the caller must hand over a valid tableau of stabilizers in the group; otherwise nothing is known
        hand = getattr(tab, "hand", None)
        if hand is not None:
            hand(m)
        else:
            same_state(m, pv, tab, "the tableau handed to gaussian or a query")
        tab.cur = tab.fresh_state([fact])
    return c


def c_gaussian(tab_of, kg):
    def c(m, this, refs, n):
        tab = tab_of()
        kg(m, this, refs, n)
        g = z3.BitVec(m.path.fresh("g"), 8)
        m.path.assume(z3.ULE(g, tab.n8))
        return g
    return c


def c_seed(tab_of):
    def c(m, this, refs, n):
        tab = tab_of()
        tab.settled()
        s = tab.cur
        f = tab.fresh_state([])
        sc = 2 * tab.n
        tab.cur = T.State(lambda u, v: z3.If(z3.Or(u == sc, v == sc), f.sp(u, v), s.sp(u, v)), lambda u, c: z3.If(u == sc, f.x(u, c), s.x(u, c)),
                          lambda u, c: z3.If(u == sc, f.z(u, c), s.z(u, c)), lambda u: z3.And(u != sc, s.ing(u)), lambda u: z3.And(u != sc, s.isz(u)),
                          lambda u: z3.If(u == sc, f.ph(u), s.ph(u)))
    return c


def c_amp(m, this, refs, n):
    return I.Obj("Qrack::AmplitudeEntry", {"permutation": I.Cell(z3.BitVec(m.path.fresh("perm"), 128)),
                                           "amplitude": I.Cell(Cx(R.atom(m.path.fresh("are")), R.atom(m.path.fresh("aim"))))})


def c_cplx(m, this, refs, n):
    return Cx(R.atom(m.path.fresh("are")), R.atom(m.path.fresh("aim")))


def nothing(m, this, refs, n):
    return None


def opaque_real(m, this, refs, n):
    return R.atom(m.path.fresh("real"))


BASE = {QS + "::SetPhaseOffset": nothing, QS + "::Finish": nothing, QS + "::Dump": nothing, "Qrack::QInterface::Finish": nothing, "Qrack::QInterface::Dump": nothing,
        QS + "::getBasisAmp": c_amp}


def c_rand(box):
    def c(m, this, refs, n):
        b = z3.Bool(m.path.fresh("coin"))
        box.append(b)
        return b
    return c


def c_clone(m, this, refs, n):
    o = I.Obj(QS)
    return I.Ptr(o)


# ------------------------------------------------------------------ tasks
def run_task(pv, label, build, extra=None, own=(), parts=("sp", "rows", "scan")):
    """build(m, tp, tab-setter) runs one call and proves its postcondition"""
    hd = T.Houdini(label + ": ", parts)
    box = {}
    tab_of = lambda: box["tab"]
    pvbox = {}

    class Fwd:
        def prove(self, *a, **k):
            return pvbox["pv"].prove(*a, **k)

        def fail(self, *a, **k):
            return pvbox["pv"].fail(*a, **k)
    con = dict(BASE)
    con.update(row_contracts(tab_of, Fwd()))
    kg = keeps_group(tab_of, Fwd())
    con[QS + "::gaussian"] = c_gaussian(tab_of, kg)
    con[QS + "::seed"] = c_seed(tab_of)
    if extra:
        con.update(extra(tab_of, kg))
    for o in own:
        con.pop(QS + "::" + o, None)
    for k in [k for k in con if k == QS + "::" + label]:
        con.pop(k)

    def body(m, tp):
        pvbox["pv"] = tp
        tol.install(m)

        def mk(t=None):
            tab = T.Tab(m, t)
            box["tab"] = tab
            T.install(m, tab)
            m.loop_hook = T.hook_for(hd, tab, tp)
            return tab
        build(m, tp, mk)
    hd.run(prog, pv, body, con)
    return hd


def ghost(m, tab):
    u, v = z3.BitVec(m.path.fresh("u"), T.W), z3.BitVec(m.path.fresh("v"), T.W)
    c = z3.BitVec(m.path.fresh("c"), T.W)
    m.path.assume(z3.And(tab.real(u), tab.real(v), z3.ULT(c, tab.n)))
    return u, v, c


def same_state(m, tp, tab, label):
    """the tableau is valid and its stabilizers are elements of the original group (hence generate it)"""
    if tab.pending:
        tp.fail("%s: the rows of x, z and r are rearranged alike" % label, "only %s rotated" % sorted(tab.pending))
        return
    s = tab.cur
    u, v, c = ghost(m, tab)
    tp.prove(m, "%s: rows keep the canonical commutation relations" % label, s.sp(u, v) == tab.can(u, v))
    tp.prove(m, "%s: every stabilizer row is, with its sign, an element of the group" % label, z3.Implies(tab.up(u), s.ing(u)))


def t_forcem(rgp):
    def task(pv):
        df = method("ForceM", 4)
        coins = []

        def build(m, tp, mk):
            del coins[:]
            t = z3.BitVec("t", 8)
            tab = mk(t)
            want, force, apply_ = z3.Bool("result"), z3.Bool("doForce"), z3.Bool("doApply")
            o = qobj(m, tab, rgp)
            inr = z3.ULT(t, tab.n8)
            u0 = z3.BitVec(m.path.fresh("u0"), T.W)
            m.path.assume(tab.up(u0))
            x0 = tab.st0.x
            x0(u0, tab.t)
            L = "ForceM"
            try:
                ret = T.tb(I.to_bool(m.call_def(df, [t, want, force, apply_], o)))
            except I.CppThrow as e:
                u, v, c = ghost(m, tab)
                s = tab.cur
                s.x(u, tab.t)
                same_state(m, tp, tab, L + ": rejected call")
                if m.path.sat(inr):
                    m.path.assume(inr)
                    tp.prove(m, L + ": a qubit of the register is rejected only when an impossible result is forced",
                             z3.And(force, apply_, z3.Not(x0(u, tab.t)) if False else z3.BoolVal(True)))
                    tp.prove(m, L + ": forcing throws only if the outcome is fixed", z3.Not(z3.And(tab.up(u), x0(u, tab.t))))
                    sc = 2 * tab.n
                    tp.prove(m, L + ": forcing throws only if the other outcome is the fixed one", z3.And(s.ing(sc), z3.Not(want) == (s.ph(sc) == 2)))
                    tp.cover("impossible")
                tp.cover("throw")
                return
            tp.prove(m, L + ": out-of-range qubits are rejected", inr)
            if not m.path.sat():
                return
            s = tab.cur
            u, v, c = ghost(m, tab)
            s.x(u, tab.t)
            sc = 2 * tab.n
            fresh_coin = coins[0] if coins else None
            if tab.writes == 0 and fresh_coin is None:
                tp.prove(m, L + ": nothing is done only when the result is forced without being applied, or no row touches the qubit", z3.Or(z3.And(force, z3.Not(apply_)), z3.Not(x0(u, tab.t))))
            # which case is it?
            if m.path.sat(z3.And(force, z3.Not(apply_))):
                if m.branch(z3.And(force, z3.Not(apply_))):
                    tp.prove(m, L + ": forced without applying returns the forced result", ret == want)
                    same_state(m, tp, tab, L + " forced without applying")
                    tp.cover("not applied")
                    return
            rows = z3.Bool(m.path.fresh("random"))
            # random: some stabilizer anticommutes with Z (witness kept by the code's own pivot); fixed: none does
            isz = s.isz(u)
            if s is not tab.st0 and m.path.sat(z3.And(tab.up(u), s.isz(u))):
                # collapsed: there is a Z row
                w = u
                L2 = L + " (random, applied)"
                post_u = z3.Or(z3.And(s.ing(u), z3.Not(s.x(u, tab.t))), z3.And(s.isz(u), s.ph(u) == z3.If(ret, z3.BitVecVal(2, 8), z3.BitVecVal(0, 8))))
                if rgp:
                    tp.prove(m, L2 + ": every new stabilizer is an old one that commutes with Z, or Z itself with the sign of the result", z3.Implies(tab.up(u), post_u))
                tp.prove(m, L2 + ": rows keep the canonical commutation relations", s.sp(u, v) == tab.can(u, v))
                tp.prove(m, L2 + ": the result is the forced one or the coin's", ret == (z3.If(force, want, fresh_coin) if fresh_coin is not None else want))
                if fresh_coin is None:
                    tp.prove(m, L2 + ": without a coin the result was forced", force)
                tp.prove(m, L2 + ": only applied measurements change the state", apply_)
                tp.cover("random")
                return
            same_state(m, tp, tab, L)
            if fresh_coin is not None:
                tp.prove(m, L + " (random, not applied): the coin's result is returned", z3.And(ret == fresh_coin, z3.Not(force), z3.Not(apply_)))
                tp.cover("random, not applied")
                return
            # fixed outcome
            tp.prove(m, L + " (fixed): no stabilizer anticommutes with Z", z3.Not(z3.And(tab.up(u), x0(u, tab.t))))
            if tab.writes == 0:
                tp.prove(m, L + " (fixed): no row at all anticommutes with Z (impossible in a valid tableau)", z3.Not(x0(u, tab.t)))
                tp.cover("unreachable")
                return
            tp.prove(m, L + " (fixed): the scratch row is an element of the group", s.ing(sc))
            tp.prove(m, L + " (fixed): the scratch row commutes with exactly the rows that Z commutes with", s.sp(sc, u) == x0(u, tab.t))
            tp.prove(m, L + " (fixed): the result is its sign", ret == (s.ph(sc) == 2))
            tp.prove(m, L + " (fixed): a forced result agrees", z3.Implies(force, want == ret))
            tp.cover("fixed")
        run_task(pv, "ForceM", build, extra=lambda tab_of, kg: {QS + "::Rand": c_rand(coins), QS + "::Clone": c_clone, QS + "::GetAmplitude": c_cplx})
        for k in ("random", "fixed", "throw", "not applied", "random, not applied"):
            if not pv.covers.get(k):
                pv.unsupported("ForceM", "case not reached: %s (%s)" % (k, pv.covers))
    return task


def simple(name, nargs, argf, post, rgp=True, parts=("sp", "rows", "scan"), own=(), extra=None, need=("return",), ret_ok=True):
    """one call from a valid tableau; argf(m, tab) gives (arguments, precondition)"""
    def task(pv):
        df = method(name, nargs)

        def build(m, tp, mk):
            tab = mk()
            o = qobj(m, tab, rgp)
            a, pre, t = argf(m, tab)
            if t is not None:
                tab.t = T.w16(t)
            m.path.assume(pre)
            ret = m.call_def(df, a, o)
            post(m, tp, tab, ret, a)
            tp.cover("return")
        run_task(pv, name, build, own=own + (name,), extra=extra, parts=parts)
        for k in need:
            if not pv.covers.get(k):
                pv.unsupported(name, "case not reached: %s" % k)
    return task


def no_args(m, tab):
    return [], True, None


def p_same(label):
    return lambda m, tp, tab, ret, a: same_state(m, tp, tab, label)


def qubit_arg(m, tab):
    t = z3.BitVec("t", 8)
    return [t], z3.ULT(t, tab.n8), t


def p_separable_z(m, tp, tab, ret, a):
    r = T.tb(I.to_bool(ret))
    u, v, c = ghost(m, tab)
    t = T.w16(a[0])
    s = tab.cur
    tp.prove(m, "IsSeparableZ: true only if every stabilizer commutes with Z", z3.Implies(z3.And(r, tab.up(u)), z3.Not(s.x(u, t))))
    seen = [z3.And(tab.up(w), cc == t, s.x(w, cc)) for k, w, cc in tab.reads if k == "x"]
    tp.prove(m, "IsSeparableZ: false only if some stabilizer does not", z3.Or(r, *seen))
    if tab.writes:
        tp.fail("IsSeparableZ: the tableau is left alone", "it is written")
    same_state(m, tp, tab, "IsSeparableZ")


def frame_only(label):
    def post(m, tp, tab, ret, a):
        u, v, c = ghost(m, tab)
        s, s0 = tab.cur, tab.st0
        tp.prove(m, label + ": no row but scratch changes", z3.And(s.x(u, c) == s0.x(u, c), s.z(u, c) == s0.z(u, c), s.ph(u) == s0.ph(u), s.ing(u) == s0.ing(u), s.sp(u, v) == s0.sp(u, v)))
        tp.prove(m, label + ": the range of the phase exponents is kept", z3.ULE(s.ph(u), 3))
    return post


# ---- the row functions themselves
def phase_of(xi, zi, xk, zk):
    """i^g with P(xk, zk) P(xi, zi) = i^g P(xk ^ xi, zk ^ zi), P(1, 1) = Y: from the matrices"""
    M = {(0, 0): [[1, 0], [0, 1]], (1, 0): [[0, 1], [1, 0]], (1, 1): [[0, -1j], [1j, 0]], (0, 1): [[1, 0], [0, -1]]}
    a, b = M[xk, zk], M[xi, zi]
    p = [[sum(a[r][k] * b[k][q] for k in range(2)) for q in range(2)] for r in range(2)]
    w = M[xk ^ xi, zk ^ zi]
    for g, f in enumerate((1, 1j, -1, -1j)):
        if all(p[r][q] == f * w[r][q] for r in range(2) for q in range(2)):
            return g
    raise AssertionError


def col_phase(xi, zi, xk, zk):
    out = z3.BitVecVal(0, 8)
    for a in range(16):
        b = [(a >> k) & 1 for k in range(4)]
        g = phase_of(*b)
        if g:
            out = z3.If(z3.And([v == z3.BoolVal(bool(w)) for v, w in zip((xi, zi, xk, zk), b)]), z3.BitVecVal(g, 8), out)
    return out


def two_rows(m, tab):
    i, k = z3.BitVec("i", 8), z3.BitVec("k", 8)
    return [i, k], z3.And(z3.ULE(i, 2 * tab.n8), z3.ULE(k, 2 * tab.n8), z3.ULE(2 * z3.ZeroExt(1, tab.n8), 254)), None


ACC = z3.Function("phase_of_columns_below", T.BW, z3.BitVecSort(8))


def t_clifford(pv):
    df = method("clifford", 2)

    def build(m, tp, mk):
        tab = mk()
        o = qobj(m, tab, True)
        a, pre, _ = two_rows(m, tab)
        m.path.assume(pre)
        i, k = map(T.w16, a)
        s0 = tab.st0
        m.path.assume(ACC(z3.BitVecVal(0, T.W)) == 0)

        def more(tab, s, se, loc, env0, nm, havoc):
            out = []
            js = [q for q in havoc if q in loc]
            for q in js:
                j = T.w16(loc[q])
                m.path.assume(ACC(j + 1) == ACC(j) + col_phase(s0.x(i, j), s0.z(i, j), s0.x(k, j), s0.z(k, j)))
                for p in js:
                    if p != q:
                        e = loc[p]
                        e = I.bv(e, 8) if isinstance(e, int) else z3.Extract(7, 0, e)
                        out.append(("%s is the phase of the columns below %s" % (nm[p], nm[q]), "", (e & 3) == (ACC(j) & 3)))
                        out.append(("%s is the phase of the columns below %s and the rows" % (nm[p], nm[q]), "", (e & 3) == ((ACC(j) + s0.ph(i) + s0.ph(k)) & 3)))
            return out
        tab.extra.append(more)
        ret = m.call_def(df, a, o)
        ret = I.bv(ret, 8) if isinstance(ret, int) else ret
        tp.prove(m, "clifford: the phase exponent of the product of row k and row i", z3.And(z3.ULE(ret, 3), ret == ((ACC(tab.n) + s0.ph(i) + s0.ph(k)) & 3)))
        if tab.writes:
            tp.fail("clifford: the tableau is left alone", "it is written")
        tp.cover("return")
    run_task(pv, "clifford", build)


def rows_post(name, spec):
    def post(m, tp, tab, ret, a):
        u, v, c = z3.BitVec(m.path.fresh("u"), T.W), None, z3.BitVec(m.path.fresh("c"), T.W)
        m.path.assume(z3.And(z3.ULE(u, 2 * tab.n), z3.ULT(c, tab.n)))
        s, s0 = tab.cur, tab.st0
        i, k = map(T.w16, a)
        x, z, p = spec(m, tab, s0, i, k, u, c)
        tp.prove(m, name + ": X bits of every row", s.x(u, c) == x)
        tp.prove(m, name + ": Z bits of every row", s.z(u, c) == z)
        tp.prove(m, name + ": phases of every row", s.ph(u) == p)
    return post


def t_rowfn(name, spec, pre=None):
    def task(pv):
        df = method(name, 2)

        def build(m, tp, mk):
            tab = mk()
            o = qobj(m, tab, True)
            a, q, _ = two_rows(m, tab)
            m.path.assume(q)
            if pre is not None:
                m.path.assume(pre(tab, *map(T.w16, a)))
            i, k = map(T.w16, a)
            s0 = tab.st0
            cl = z3.BitVec("cliff", 8)
            m.path.assume(z3.ULE(cl, 3))
            tab.cl = cl

            def c_cliff(mm, this, refs, n):
                b = [T.w16(I.bv(r.get(), 8) if isinstance(r.get(), int) else r.get()) for r in refs]
                s = tab.cur
                uu = z3.BitVec(mm.path.fresh("u"), T.W)
                cc = z3.BitVec(mm.path.fresh("c"), T.W)
                mm.path.assume(z3.ULT(cc, tab.n))
                tp.prove(mm, name + ": asks for the phase of the product of the two given rows as they were",
                         z3.And(b[0] == i, b[1] == k, s.x(i, cc) == s0.x(i, cc), s.z(i, cc) == s0.z(i, cc), s.x(k, cc) == s0.x(k, cc), s.z(k, cc) == s0.z(k, cc),
                                s.ph(i) == s0.ph(i), s.ph(k) == s0.ph(k)))
                return cl
            m.contracts[QS + "::clifford"] = c_cliff

            def more(tab, s, se, loc, env0, nm, havoc):
                out = []
                if s is None:
                    return out
                for q in havoc:
                    if q not in loc:
                        continue
                    j = T.w16(loc[q])
                    for kind in "xz":
                        out.append(("%s columns below %s are multiplied" % (kind, nm[q]), "uc", lambda S, u, v, c, j=j, kind=kind:
                                    z3.Implies(z3.ULT(c, tab.n), S.bit(kind, u, c) == z3.Xor(s0.bit(kind, u, c), z3.And(u == i, z3.ULT(c, j), s0.bit(kind, k, c))))))
                out.append(("phases unchanged", "u", lambda S, u, v, c: S.ph(u) == se.ph(u)))
                for kind in "xz":
                    out.append((kind + " unchanged", "uc", lambda S, u, v, c, kind=kind: S.bit(kind, u, c) == se.bit(kind, u, c)))
                return out
            tab.extra.append(more)
            m.call_def(df, a, o)
            rows_post(name, spec)(m, tp, tab, None, a)
            tp.cover("return")
        run_task(pv, name, build, own=(name,))
    return task


def sp_mult(m, tab, s, i, k, u, c):
    return z3.Xor(s.x(u, c), z3.And(u == i, s.x(k, c))), z3.Xor(s.z(u, c), z3.And(u == i, s.z(k, c))), z3.If(u == i, tab.cl, s.ph(u))


def sp_copy(m, tab, s, i, k, u, c):
    w = z3.If(u == i, k, u)
    return s.x(w, c), s.z(w, c), s.ph(w)


def sp_swap(m, tab, s, i, k, u, c):
    w = z3.If(u == i, k, z3.If(u == k, i, u))
    return s.x(w, c), s.z(w, c), s.ph(w)


def sp_set(m, tab, s, i, b, u, c):
    n = tab.n
    return (z3.If(u == i, z3.And(z3.ULT(b, n), c == b), s.x(u, c)), z3.If(u == i, z3.And(z3.UGE(b, n), c == b - n), s.z(u, c)),
            z3.If(u == i, z3.BitVecVal(0, 8), s.ph(u)))


def range_args(m, tab):
    a, l = z3.BitVec("start", 8), z3.BitVec("length", 8)
    return [a, l], z3.And(z3.ULE(T.w16(a) + T.w16(l), tab.n)), None


def g_arg(m, tab):
    g = z3.BitVec("g", 8)
    return [g], z3.ULE(g, tab.n8), None


def perm_arg(m, tab):
    return [z3.BitVec("perm", 128)], True, None


def tq_args(m, tab):
    t = z3.BitVec("t", 8)
    return [t, z3.Bool("mm")], z3.ULT(t, tab.n8), None


def mask_args(m, tab):
    return [z3.BitVec("mask", 128), z3.BitVec("perm", 128)], True, None


def anc_args(m, tab):
    a = z3.BitVec("anc", 8)
    return [z3.BitVec("perm", 128), a], z3.ULE(a, tab.n8), None


def nrm_arg(m, tab):
    return [R.atom("nrm")], True, None


def prepare(cfg):
    global prog
    prog = Program(FILES, cfg)
    fn = lambda *a: [QS + "::" + x for x in a]
    ck.task("ForceM (random global phase)", t_forcem(True), fn("ForceM"))
    ck.task("IsSeparableZ", simple("IsSeparableZ", 1, qubit_arg, p_separable_z), fn("IsSeparableZ"))
    ck.task("gaussian (group)", simple("gaussian", 0, no_args, p_same("gaussian"), parts=("sp",)), fn("gaussian"))
    ck.task("seed", simple("seed", 1, g_arg, frame_only("seed")), fn("seed"))
    ck.task("getBasisAmp", simple("getBasisAmp", 1, nrm_arg, frame_only("getBasisAmp")), fn("getBasisAmp"))
    for nm, na, af in (("GetAmplitude", 1, perm_arg), ("GetAnyAmplitude", 0, no_args), ("GetQubitAmplitude", 2, tq_args), ("ProbMask", 2, mask_args), ("ProbPermRdm", 2, anc_args)):
        ck.task(nm, simple(nm, na, af, p_same(nm)), fn(nm))
    ck.task("clifford", t_clifford, fn("clifford"))
    ck.task("rowmult", t_rowfn("rowmult", sp_mult, lambda tab, i, k: i != k), fn("rowmult"))
    ck.task("rowcopy", t_rowfn("rowcopy", sp_copy), fn("rowcopy"))
    ck.task("rowswap", t_rowfn("rowswap", sp_swap), fn("rowswap"))
    ck.task("rowset", t_rowfn("rowset", sp_set, lambda tab, i, b: z3.ULT(b, 2 * tab.n)), fn("rowset"))


if __name__ == "__main__":
    ck.harness = "diff.cpp"
    ck.harness_args = ["stacks=stab", "groups=cliff,meas,measall,prob,comp,tryd,state"]
    ck.proof_timeout = {"quick": 600, "thorough": 1800}
    ck.assumptions = [
        "lemmas on the symplectic form used without a machine proof: it is bilinear and alternating, so multiplying two rows of the tableau adds their forms; rows that commute multiply to a row with an even power of i; in a valid tableau of n qubits a row that commutes with every stabilizer is a product of stabilizers up to sign",
        "the parts of a valid tableau: row u and row v anticommute exactly if they are partners (u = v + n or v = u + n); every stabilizer has an even power of i",
        "Rand() is a fair coin; the forced outcome is arbitrary",
        "ForceM is proved for randGlobalPhase = true (states up to a global phase); the phase offset of randGlobalPhase = false is not covered",
        "widths from 1 to 127 qubits (the 8-bit row indices cover 2n + 1 rows)",
        "loop invariants are found by elimination (Houdini) from a fixed set of candidates and then proved as loop contracts, on entry and for one arbitrary pass",
        "vectors of bits are arrays of any length; rowmult, rowcopy, rowswap and rowset are used by contract by the functions that call them and proved separately",
    ]
    ck.standins = ["IsolateRange, Compose, DecomposeDispose, the echelon form that gaussian() returns, and the gates: random differential runs of the real stabilizer simulator against a dense reference (bounded)"]
    ck.run(prepare)
