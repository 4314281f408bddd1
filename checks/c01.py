"""C01: every Clifford operation of the stabilizer simulator acts on the tableau exactly as its unitary."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import interp as I, qgates as Q, tol
from dv.check import Check, explore
from dv.astload import Program, params_of, qtype
from dv.real import R, Cx, toCx

ck = Check("C01")
QS = "Qrack::QStabilizer"


# ------------------------------------------------------------------ ghost-row model of the tableau
class Rows:
    """std::vector of rows; only the ghost row g is tracked, any other row is opaque."""
    def __init__(self, st, kind):
        self.st, self.kind = st, kind

    def elem(self, m, i):
        return self.st.row(m, i, self.kind)

    def method(self, m, bm, args, fr, n):
        if bm.name == "size":
            return I.bv(0, 64) + z3.ZeroExt(56, self.st.n) * 2 + 1
        return NotImplemented


class Bits:
    """one std::vector<bool> row of the ghost generator, initialised lazily per qubit"""
    def __init__(self, st, kind):
        self.st, self.kind, self.ent = st, kind, []

    def elem(self, m, q):
        q8 = q if isinstance(q, int) else (z3.simplify(z3.Extract(7, 0, q)) if q.size() > 8 else q)
        q8 = I.bv(q8, 8)
        for k, c in self.ent:
            if k.eq(q8) or m.branch(k == q8):
                return c
        v = z3.Bool("%s_%s" % (self.kind, q8.sexpr()))
        c = I.Cell(v)
        self.ent.append((q8, c))
        self.st.init[(self.kind, q8.sexpr())] = v
        # qubit in range: access inside the row
        self.st.oob(m, z3.Not(z3.ULT(q8, self.st.n)))
        return c


class Dump:
    """row other than the ghost row: reads are arbitrary, writes are irrelevant to the ghost row"""
    def __init__(self, kind):
        self.kind = kind

    def elem(self, m, q):
        k = self.kind
        return I.FnRef(lambda: z3.Bool(m.path.fresh("other_" + k)), lambda v: None)

    def clone(self):
        return self


class St:
    def __init__(self, m):
        self.n = z3.BitVec("n", 8)
        self.g = z3.BitVec("g", 8)
        m.path.assume(z3.And(z3.UGE(self.n, 1), z3.ULE(self.n, 127)))
        m.path.assume(z3.ULT(z3.ZeroExt(8, self.g), 2 * z3.ZeroExt(8, self.n)))
        self.init = {}
        self.x, self.z = Bits(self, "x"), Bits(self, "z")
        r = z3.BitVec("r", 8)
        m.path.assume(z3.ULE(r, 3))
        self.r0 = r
        self.r = I.Cell(r)
        self.mode = "none"       # which row the code may touch right now
        self.touched = 0
        self.oobs = []

    def oob(self, m, c):
        if m.path.sat(c):
            if m.branch(c):
                raise I.OutOfBounds("tableau column index")

    def row(self, m, i, kind):
        i = I.simp(i)
        if isinstance(i, int):
            i = z3.BitVecVal(i, 64)
        i16 = z3.Extract(15, 0, i) if i.size() > 16 else z3.ZeroExt(16 - i.size(), i)
        if m.branch(i16 == z3.ZeroExt(8, self.g)):
            if self.mode == "other":
                raise Interference()
            self.touched += 1
            return {"x": I.Cell(self.x), "z": I.Cell(self.z), "r": self.r}[kind]
        if self.mode == "self":
            raise I.Unsupported("the loop body reads another row")
        if kind == "r":
            return I.FnRef(lambda: z3.BitVec(m.path.fresh("other_r"), 8), lambda v: None)
        return I.Cell(Dump(kind))


class Interference(Exception):
    pass


def row_loop(st, pv, log):
    """Loop rule for a counted loop over rows whose iterations are independent: the ghost row is transformed by exactly the
    iteration whose index is the ghost row, if that index is in the loop's range."""
    def hook(m, n, cond, inc, body, fr):
        if cond is None or inc is None or n["kind"] != "ForStmt":
            return NotImplemented
        c0 = I.to_bool(m.rv(cond, fr))
        if isinstance(c0, bool) and not is_row_loop(m, st, c0):
            pass
        # loop variable: the single local changed by the increment
        vid = assigned_var(inc)
        if vid is None or vid not in fr.env:
            return NotImplemented
        cell = fr.env[vid]
        start = cell.get()
        w = 8
        if isinstance(start, z3.BitVecRef):
            w = start.size()
        if not isinstance(c0, z3.BoolRef) and c0 is not True and c0 is not False:
            return NotImplemented
        sym = z3.BitVec(m.path.fresh("k"), width_of(m, inc, fr))
        w = sym.size()
        cell.set(sym)
        ck_ = I.to_bool(m.rv(cond, fr))
        if isinstance(ck_, bool):
            cell.set(start)
            return NotImplemented          # bound does not depend on the variable
        if not mentions(ck_, sym) or not (mentions(ck_, st.n)):
            cell.set(start)
            return NotImplemented          # an ordinary concrete loop
        # the increment adds exactly one
        m.ev(inc, fr)
        nxt = cell.get()
        s = I.bv(start, w)
        pv.prove(m, "row loop: increment by one", nxt == sym + 1)
        k2 = z3.BitVec(m.path.fresh("k"), w)
        cell.set(k2)
        c2 = I.to_bool(m.rv(cond, fr))
        pv.prove(m, "row loop: range is an interval from the start", z3.Implies(z3.And(ck_, z3.ULE(s, k2), z3.ULT(k2, sym)), c2))
        pv.prove(m, "row loop: no wrap-around below the bound", z3.Implies(ck_, sym != z3.BitVecVal(-1, w)))
        # other iterations do not touch the ghost row
        save = (st.r.v, [(k, c, c.v) for k, c in st.x.ent], [(k, c, c.v) for k, c in st.z.ent], st.mode, st.touched)
        gk = z3.ZeroExt(w - 8, st.g) if w > 8 else st.g
        in_range = z3.substitute(ck_, (sym, gk))
        start_ok = z3.ULE(s, gk)
        st.mode = "self"
        if m.branch(z3.And(in_range, start_ok)):
            cell.set(gk)
            before = snapshot(m, fr, vid)
            r = m.ex(body, fr)
            if r is not None and r != "cont":
                raise I.Unsupported("early exit from the row loop")
            if snapshot(m, fr, vid) != before:
                raise I.Unsupported("the row loop changes shared state")
        st.mode = save[3]
        # an arbitrary other iteration leaves the ghost row alone
        k3 = z3.BitVec(m.path.fresh("k"), w)
        if m.path.choose(2) == 1:
            m.path.assume(z3.And(k3 != gk, z3.substitute(ck_, (sym, k3)), z3.ULE(s, k3)))
            st.mode = "other"
            cell.set(k3)
            try:
                m.ex(body, fr)
            except Interference:
                pv.fail("row loop: iterations touch only their own row", "iteration k writes or reads the ghost row")
            pv.obls.append(__import__("dv.check", fromlist=["Obl"]).Obl("row loop: iterations touch only their own row", "discharged", "execution", 0))
            raise I.PathEnd()
        return None
    return hook


def snapshot(m, fr, vid):
    return tuple((k, id(c.v)) for k, c in sorted(fr.env.items()) if isinstance(c, I.Cell) and k != vid)


def is_row_loop(m, st, c):
    return False


def mentions(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def assigned_var(inc):
    k = inc["kind"]
    if k == "UnaryOperator" and inc["opcode"] in ("++", "--") or k == "CompoundAssignOperator" or (k == "BinaryOperator" and inc["opcode"] == "="):
        d = inc["inner"][0]
        while d["kind"] == "ParenExpr":
            d = d["inner"][0]
        if d["kind"] == "DeclRefExpr":
            return d["referencedDecl"]["id"]
    return None


def width_of(m, inc, fr):
    t = I.ctype(qtype(inc["inner"][0]))
    return t[1] if t[0] == "int" else 32


# ------------------------------------------------------------------ tasks
prog = None


def qobj(st, rgp):
    o = I.Obj(QS)
    o.f.update({"qubitCount": I.Cell(st.n), "randGlobalPhase": I.Cell(rgp), "phaseOffset": I.Cell(R.atom("phase")),
                "x": I.Cell(Rows(st, "x")), "z": I.Cell(Rows(st, "z")), "r": I.Cell(Rows(st, "r")), "maxQPower": I.Cell(z3.BitVec("maxQPower", 128))})
    return o


def no_group_change(m, this, refs, n):
    """contract: these operations may renumber/multiply generators but keep the stabilizer group"""
    return None


def c_amp(m, this, refs, n):
    return I.Obj("Qrack::AmplitudeEntry", {"permutation": I.Cell(z3.BitVec(m.path.fresh("perm"), 128)),
                                           "amplitude": I.Cell(Cx(R.atom(m.path.fresh("are")), R.atom(m.path.fresh("aim"))))})


def c_cplx(m, this, refs, n):
    return Cx(R.atom(m.path.fresh("are")), R.atom(m.path.fresh("aim")))


PHASE_ONLY = {QS + "::SetPhaseOffset": no_group_change, QS + "::GetQubitAmplitude": c_amp, QS + "::GetAmplitude": c_cplx, QS + "::GetAnyAmplitude": c_amp}


def rowconj(name, mat, nq):
    """postcondition: ghost row == conjugation of the old ghost row, every column and the sign; out-of-range qubits throw."""
    tab = Q.conj_table(mat, nq)

    def task(pv):
        df = method(name, nq)

        def run(m):
            tol.install(m)
            st = St(m)
            m.loop_hook = row_loop(st, pv, None)
            q = [z3.BitVec(x, 8) for x in ("c", "t")[-nq:]]
            if nq == 2:
                m.path.assume(q[0] != q[1])
            o = qobj(st, True)
            inr = z3.And([z3.ULT(x, st.n) for x in q])
            try:
                m.call_def(df, list(q), o)
            except I.CppThrow as e:
                pv.prove(m, "%s: throws only for an out-of-range qubit" % name, z3.Not(inr))
                pv.prove(m, "%s: a rejected call leaves the tableau unchanged" % name, z3.And([c.v == st.init[("x", k.sexpr())] for k, c in st.x.ent] +
                         [c.v == st.init[("z", k.sexpr())] for k, c in st.z.ent] + [st.r.v == st.r0]))
                pv.cover("throw")
                return
            pv.prove(m, "%s: out-of-range qubits are rejected" % name, inr)
            if not m.path.sat():
                return
            xs = [bit_of(st, "x", k) for k in q]
            zs = [bit_of(st, "z", k) for k in q]
            # specification from the conjugation table
            post_x, post_z, sign = [], [], z3.BitVecVal(0, 8)
            inits = [(init_of(st, "x", k), init_of(st, "z", k)) for k in q]
            cases = []
            for b, (c, s) in tab.items():
                cond = z3.And([z3.And(x == z3.BoolVal(bool(bx)), z == z3.BoolVal(bool(bz))) for (x, z), (bx, bz) in zip(inits, b)])
                cases.append((cond, c, s))
            goal = z3.And([z3.Implies(cond, z3.And([tb(xs[k]) == z3.BoolVal(bool(c[k][0])) for k in range(nq)] +
                                                  [tb(zs[k]) == z3.BoolVal(bool(c[k][1])) for k in range(nq)] +
                                                  [I.bv(st.r.v, 8) == (st.r0 + s) & 3])) for cond, c, s in cases])
            pv.prove(m, "%s: tableau row is conjugated by the gate" % name, goal)
            # frame: any other column
            for kind, bits in (("x", st.x), ("z", st.z)):
                for k, c in bits.ent:
                    if not any(k.eq(z3.simplify(y)) for y in q):
                        pv.prove(m, "%s: other columns unchanged" % name, tb(c.v) == st.init[(kind, k.sexpr())])
            pv.prove(m, "%s: phase exponent stays in 0..3" % name, z3.ULE(I.bv(st.r.v, 8), 3))
            pv.cover("normal return")
        explore(prog, pv, run, contracts=dict(PHASE_ONLY))
        if not pv.covers.get("normal return") or not pv.covers.get("throw"):
            pv.unsupported(name, "vacuous: normal return or rejection not reachable: %s" % pv.covers)
    return task


def tb(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def bit_of(st, kind, q):
    bits = st.x if kind == "x" else st.z
    for k, c in bits.ent:
        if k.eq(q):
            return c.v
    return init_of(st, kind, q)


def init_of(st, kind, q):
    key = (kind, q.sexpr())
    if key not in st.init:
        st.init[key] = z3.Bool("%s_%s" % key)
    return st.init[key]


def method(name, nargs, first=None):
    c = [d for d in prog.func(QS + "::" + name) if len(params_of(d)) == nargs]
    if first:
        c = [d for d in c if first(d)]
    if len(c) != 1:
        raise I.Unsupported("%s: %d definitions with %d parameters" % (name, len(c), nargs))
    return c[0]


# ---- trace contracts: callers are checked against the contracts of the gates they call
class Trace:
    def __init__(self, n):
        self.n, self.ops, self.u = n, [], Q.eye(1 << n)
        self.eig = None           # (qubit, value): state known to be a Z eigenstate

    def apply(self, name, u, qs):
        self.ops.append("%s%s" % (name, tuple(qs)))
        self.u = Q.mul(Q.embed(u, qs, self.n), self.u)


def qi(v):
    v = v.get() if isinstance(v, I.Ref) else v
    if not isinstance(v, int):
        raise I.Unsupported("symbolic qubit in a gate trace")
    return v


def gate_contracts(tr, exclude):
    ct = {}

    def one(nm, u, k):
        def f(m, this, refs, n):
            qs = [qi(r) for r in refs[:k]]
            if len(set(qs)) < k:
                if nm in ("Swap", "ISwap", "IISwap"):
                    return None
                raise I.Unsupported("gate with equal qubits")
            tr.apply(nm, u, qs)
        return f
    for nm, u in Q.ONEQ.items():
        if nm != exclude:
            ct[QS + "::" + nm] = one(nm, u, 1)
    for nm, u in Q.TWO.items():
        if nm != exclude:
            ct[QS + "::" + nm] = one(nm, u, 2)

    def sepz(m, this, refs, n):
        q = qi(refs[0])
        if tr.ops:
            raise I.Unsupported("separability test after a gate")
        if m.path.choose(2) == 0:
            return False
        tr.eig = (q, None)
        return True

    def meas(m, this, refs, n):
        q = qi(refs[0])
        if tr.eig is None or tr.eig[0] != q:
            raise I.Unsupported("measurement of a qubit not known to be an eigenstate")
        if tr.eig[1] is None:
            b = m.path.choose(2) == 1
            tr.eig = (q, int(b))
        return bool(tr.eig[1])
    ct[QS + "::IsSeparableZ"] = sepz
    ct["Qrack::QInterface::M"] = meas
    ct[QS + "::M"] = meas
    ct.update(PHASE_ONLY)
    return ct


def prop_to(pv, m, name, u, v, tr, hint):
    """u and v are proportional by a nonzero factor, on the columns the known eigenstate allows."""
    N = len(u)
    cols = [j for j in range(N) if tr.eig is None or tr.eig[1] is None or ((j >> tr.eig[0]) & 1) == tr.eig[1]]
    if tr.eig is not None and tr.eig[1] is None:
        # eigenvalue unknown: proportional on each eigenspace separately
        groups = [[j for j in range(N) if ((j >> tr.eig[0]) & 1) == b] for b in (0, 1)]
    else:
        groups = [cols]
    ok = True
    for g in groups:
        # a pivot entry of u (constant, nonzero)
        piv = None
        for j in g:
            for i in range(N):
                e = u[i][j]
                if e != Q.ZERO and e.re.is_const() | True:
                    piv = (i, j)
                    break
            if piv:
                break
        if piv is None:
            pv.fail(name, "the executed sequence vanishes")
            return
        pi, pj = piv
        goals = []
        for j in g:
            for i in range(N):
                d = u[i][j] * v[pi][pj] - v[i][j] * u[pi][pj]
                for p in (d.re, d.im):
                    if p.t:
                        goals.append(tol.linear_zero(p))
        if goals:
            pv.prove(m, name, z3.And(goals), hint)
        else:
            pv.prove(m, name, True)


def trace_task(name, mat, nq):
    def task(pv):
        df = method(name, nq)

        def run(m):
            tol.install(m)
            tr = Trace(nq)
            m.contracts.update(gate_contracts(tr, name))
            o = I.Obj(QS)
            o.f.update({"qubitCount": I.Cell(nq), "randGlobalPhase": I.Cell(False), "phaseOffset": I.Cell(R.atom("phase"))})
            m.call_def(df, list(range(nq)), o)
            prop_to(pv, m, "%s (deterministic global phase): sequence equals the gate up to a phase" % name, tr.u, mat, tr, tr.ops)
            pv.cover("return")
        explore(prog, pv, run, contracts={})
    return task


def ghost_conj_fixed(name, mat, nq):
    """deterministic-phase variants that update the tableau directly: same row contract on the path where no shortcut is taken"""
    tab = Q.conj_table(mat, nq)

    def task(pv):
        df = method(name, nq)

        def run(m):
            tol.install(m)
            st = St(m)
            m.loop_hook = row_loop(st, pv, None)
            q = [z3.BitVec(x, 8) for x in ("c", "t")[-nq:]]
            m.path.assume(z3.And([z3.ULT(x, st.n) for x in q]))
            if nq == 2:
                m.path.assume(q[0] != q[1])
            o = qobj(st, False)
            nested = []

            def nest(nm):
                def f(m_, this, refs, n):
                    nested.append(nm)
                    raise Nested()
                return f
            for g in list(Q.ONEQ) + list(Q.TWO):
                if g != name:
                    m.contracts[QS + "::" + g] = nest(g)
                    m.contracts["Qrack::QInterface::" + g] = nest(g)

            def sepz(m_, this, refs, n):
                return False if m_.path.choose(2) == 0 else nested.append("sep") or True

            def meas(m_, this, refs, n):
                raise Nested()
            m.contracts[QS + "::IsSeparableZ"] = sepz
            m.contracts["Qrack::QInterface::M"] = meas
            m.contracts[QS + "::Clone"] = lambda m_, this, refs, n: I.Ptr(I.Obj(QS, {"clone": I.Cell(True)}))
            m.contracts[QS + "::gaussian"] = lambda m_, this, refs, n: 0
            m.contracts[QS + "::seed"] = no_group_change
            m.contracts[QS + "::getBasisAmp"] = c_amp
            try:
                m.call_def(df, list(q), o)
            except Nested:
                pv.cover("handled by the sequence contract")
                pv.prove(m, "%s: shortcut paths are covered by the sequence obligations" % name, True)
                return
            xs = [bit_of(st, "x", k) for k in q]
            zs = [bit_of(st, "z", k) for k in q]
            inits = [(init_of(st, "x", k), init_of(st, "z", k)) for k in q]
            goal = []
            for b, (c, s) in tab.items():
                cond = z3.And([z3.And(x == z3.BoolVal(bool(bx)), z == z3.BoolVal(bool(bz))) for (x, z), (bx, bz) in zip(inits, b)])
                goal.append(z3.Implies(cond, z3.And([tb(xs[k]) == z3.BoolVal(bool(c[k][0])) for k in range(nq)] +
                                                    [tb(zs[k]) == z3.BoolVal(bool(c[k][1])) for k in range(nq)] +
                                                    [I.bv(st.r.v, 8) == (st.r0 + s) & 3])))
            pv.prove(m, "%s (deterministic global phase): tableau row is conjugated by the gate" % name, z3.And(goal))
            pv.cover("normal return")
        explore(prog, pv, run, contracts=dict(PHASE_ONLY))
    return task


class Nested(Exception):
    pass


def payload_task(name, kind, ncontrols, anti, rgp, low=False):
    """Mtrx / Phase / Invert / MC... : for every payload the sequence applied is the payload up to a phase, or the call throws."""
    def task(pv):
        ps = {"Mtrx": 2, "Phase": 3, "Invert": 3}[kind] + (1 if name.startswith("M") and name != "Mtrx" else 0)
        df = method(name, ps)
        a = [Cx(R.atom("m%dr" % k), R.atom("m%di" % k)) for k in range(4)]
        if kind == "Phase":
            u = [[a[0], Q.ZERO], [Q.ZERO, a[1]]]
        elif kind == "Invert":
            u = [[Q.ZERO, a[0]], [a[1], Q.ZERO]]
        else:
            u = [[a[0], a[1]], [a[2], a[3]]]

        def run(m):
            tol.install(m)
            n = max(1, ncontrols + 1)
            tr = Trace(n)
            ct = gate_contracts(tr, None)
            m.contracts.update(ct)
            o = I.Obj(QS)
            o.f.update({"qubitCount": I.Cell(8), "randGlobalPhase": I.Cell(rgp), "phaseOffset": I.Cell(R.atom("phase"))})
            # the payload is unitary: at least every column and row is nonzero
            nz = lambda c: z3.Or(tol.linear_zero(c.re) == False, tol.linear_zero(c.im) == False)
            if kind == "Mtrx":
                m.path.assume(z3.And(z3.Or(nz(a[0]), nz(a[1])), z3.Or(nz(a[2]), nz(a[3])), z3.Or(nz(a[0]), nz(a[2])), z3.Or(nz(a[1]), nz(a[3]))))
                # rows of a unitary: |m00| = |m11|, |m01| = |m10| (so one vanishing diagonal entry makes both vanish)
                m.path.assume(z3.And(nz(a[0]) == nz(a[3]), nz(a[1]) == nz(a[2])))
            else:
                m.path.assume(z3.And(nz(a[0]), nz(a[1])))
            vals = [I.Ptr(I.Vec(list(a)), 0)] if kind == "Mtrx" else [a[0], a[1]]
            ctrls = list(range(1, ncontrols + 1)) if low else list(range(ncontrols))
            tgt = 0 if low else ncontrols
            vals.append(tgt)
            if ps > (2 if kind == "Mtrx" else 3):
                vals.insert(0, I.Vec(list(ctrls), "unsigned char"))
            try:
                m.call_def(df, vals, o)
            except I.CppThrow as e:
                pv.prove(m, "%s: unsupported payload is rejected before any gate" % name, not tr.ops)
                pv.cover("throw")
                return
            perm = 0 if anti else (1 << ncontrols) - 1
            want = Q.controlled(u, ctrls, tgt, n, perm)
            prop_to(pv, m, "%s with %d control(s): applied sequence equals the payload up to a phase" % (name, ncontrols), tr.u, want, tr, tr.ops)
            pv.cover("return")
        explore(prog, pv, run, contracts={}, max_paths=20000)
        if not pv.covers.get("return") and ncontrols < 2:
            pv.unsupported(name, "vacuous: no accepted payload")
    return task


def clifford_accept_task():
    """every one of the 24 single-qubit Clifford payloads (times any fourth-root phase) is accepted by Mtrx"""
    def task(pv):
        df = method("Mtrx", 2)
        seen = []
        todo = [Q.eye(2)]
        while todo:
            u = todo.pop()
            if any(Q.eq(u, s) for s in seen):
                continue
            seen.append(u)
            for g in (Q.H, Q.S):
                todo.append(Q.mul(g, u))
            if len(seen) > 200:
                break
        pv.prove_m = None

        def run(m):
            tol.install(m)
            k = m.path.choose(len(seen))
            u = seen[k]
            tr = Trace(1)
            m.contracts.update(gate_contracts(tr, None))
            o = I.Obj(QS)
            o.f.update({"qubitCount": I.Cell(8), "randGlobalPhase": I.Cell(True), "phaseOffset": I.Cell(R.atom("phase"))})
            try:
                m.call_def(df, [I.Ptr(I.Vec([u[0][0], u[0][1], u[1][0], u[1][1]]), 0), 0], o)
            except I.CppThrow:
                pv.fail("Mtrx accepts every Clifford payload", "payload %r is rejected" % (u,))
                return
            prop_to(pv, m, "Mtrx: Clifford payload %d" % k, tr.u, u, tr, tr.ops)
        explore(prog, pv, run, contracts={})
    return task


def prepare(cfg):
    global prog
    prog = Program(["src/qstabilizer.cpp", "src/qinterface/gates.cpp"], cfg)
    for nm, u in Q.ONEQ.items():
        ck.task(nm + " row", rowconj(nm, u, 1), [QS + "::" + nm])
    for nm, u in Q.TWO.items():
        ck.task(nm + " row", rowconj(nm, u, 2), [QS + "::" + nm])
    for nm, u in list(Q.ONEQ.items()):
        if nm != "H":
            ck.task(nm + " seq", trace_fixed(nm, u, 1), [QS + "::" + nm])
    for nm, u in list(Q.TWO.items()):
        ck.task(nm + " seq", trace_fixed(nm, u, 2), [QS + "::" + nm])
    for nm, u in list(Q.ONEQ.items()):
        ck.task(nm + " row-fixed", ghost_conj_fixed(nm, u, 1), [QS + "::" + nm])
    for nm, u in list(Q.TWO.items()):
        ck.task(nm + " row-fixed", ghost_conj_fixed(nm, u, 2), [QS + "::" + nm])
    for rgp in (True, False):
        t = "" if rgp else " (fixed phase)"
        ck.task("Mtrx payload" + t, payload_task("Mtrx", "Mtrx", 0, False, rgp), [QS + "::Mtrx"])
        ck.task("Phase payload" + t, payload_task("Phase", "Phase", 0, False, rgp), [QS + "::Phase"])
        ck.task("Invert payload" + t, payload_task("Invert", "Invert", 0, False, rgp), [QS + "::Invert"])
        for nm, kind, anti in (("MCPhase", "Phase", False), ("MACPhase", "Phase", True), ("MCInvert", "Invert", False), ("MACInvert", "Invert", True),
                               ("MCMtrx", "Mtrx", False), ("MACMtrx", "Mtrx", True)):
            for nc in (0, 1, 2):
                for low in (False, True) if nc else (False,):
                    ck.task("%s payload %d%s%s" % (nm, nc, t, " target below" if low else ""), payload_task(nm, kind, nc, anti, rgp, low), [QS + "::" + nm])
    ck.task("Mtrx accepts Cliffords", clifford_accept_task(), [QS + "::Mtrx"])


def trace_fixed(name, mat, nq):
    """deterministic-phase code paths that are sequences of other gates"""
    def task(pv):
        df = method(name, nq)

        def run(m):
            tol.install(m)
            tr = Trace(nq)
            m.contracts.update(gate_contracts(tr, name))
            o = I.Obj(QS)
            o.f.update({"qubitCount": I.Cell(nq), "randGlobalPhase": I.Cell(False), "phaseOffset": I.Cell(R.atom("phase"))})

            class Direct(Exception):
                pass

            def direct(m_, this, refs, n):
                raise Direct()
            m.contracts[QS + "::ParFor"] = direct
            m.contracts[QS + "::Dispatch"] = direct
            try:
                m.call_def(df, list(range(nq)), o)
            except Direct:
                pv.prove(m, "%s: direct tableau update is covered by the row obligations" % name, True)
                pv.cover("direct")
                return
            prop_to(pv, m, "%s (deterministic global phase): sequence equals the gate up to a phase" % name, tr.u, mat, tr, tr.ops)
            pv.cover("sequence")
        explore(prog, pv, run, contracts={})
    return task


ck.harness = "diff.cpp"
ck.harness_time = {"quick": 15, "thorough": 180}
ck.harness_args = ["stacks=stab", "groups=cliff", "len=8"]
ck.assumptions = [
    "global phase is not part of this property (the deterministic-phase bookkeeping is contracted as leaving the tableau's group alone)",
    "floating-point tolerance tests are read as exact tests",
    "loops over tableau rows by a loop rule: every iteration touches only its own row (proved), so an arbitrary row is transformed once",
    "register widths up to 127 qubits (2 * width has to fit the 8-bit index type the class uses)",
    "gaussian elimination keeps the stabilizer group (checked under C12)",
]
ck.standins = ["random sequences of Clifford operations on the real QStabilizer against a dense state-vector reference, up to 6 qubits"]

if __name__ == "__main__":
    ck.run(prepare)
