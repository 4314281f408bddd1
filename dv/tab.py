"""Stabilizer tableau as an algebra of Pauli rows, and loop contracts found by elimination.

Rows 0..n-1 are destabilizers, n..2n-1 stabilizers, 2n is scratch.  What the code's row operations do to a row's meaning is
tracked: sp(u, v): rows u and v anticommute; bit(kind, u, c): the X or Z bit in column c; ing(u): row u with its sign is an
element of the group that the stabilizers generated at entry; isz(u): row u is +-Z on the measured qubit; ph(u): phase exponent.

Loop contracts: for each loop a set of candidate invariants is built from the variables in scope (for all rows u, v and columns c);
candidates that do not hold on entry or are not preserved are dropped and the exploration starts again, until every remaining one
is proved.  No iteration bound is involved, and the loop need not have the shape it has today.
"""
import time
import z3
from . import interp as I
from .real import R, Cx
from .check import Prover, Obl, explore

W = 16
B8 = z3.BitVecSort(8)
BW = z3.BitVecSort(W)


def w16(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v & 0xFFFF, W)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, W), z3.BitVecVal(0, W))
    s = v.size()
    if s == W:
        return v
    return z3.simplify(z3.ZeroExt(W - s, v) if s < W else z3.Extract(W - 1, 0, v))


def tb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BitVecRef):
        return v != 0
    return v


class State:
    """immutable snapshot: functions of row indices (16 bit) and columns (16 bit)"""
    def __init__(self, sp, x, z, ing, isz, ph):
        self.sp, self.x, self.z, self.ing, self.isz, self.ph = sp, x, z, ing, isz, ph

    def bit(self, kind, u, c):
        return (self.x if kind == "x" else self.z)(u, c)


class Tab:
    def __init__(self, m, t=None, can=True):
        self.m = m
        self.n8 = z3.BitVec("n", 8)
        self.n = w16(self.n8)
        self.t = None if t is None else w16(t)
        m.path.assume(z3.And(z3.UGE(self.n8, 1), z3.ULE(self.n8, 127)))
        self.cur = self.fresh_state([self.initial])
        self.st0 = self.cur
        self.writes = 0
        self.pending = {}
        self.reads = []
        self.extra = []           # functions giving further candidates: (tab, state, entry state, locals, entry locals, names, assigned)

    # ---- symbolic states
    def can(self, u, v):
        return z3.Or(u == v + self.n, v == u + self.n)

    def low(self, u):
        return z3.ULT(u, self.n)

    def up(self, u):
        return z3.And(z3.UGE(u, self.n), z3.ULT(u, 2 * self.n))

    def real(self, u):
        return z3.ULT(u, 2 * self.n)

    def initial(self, s, u, v, c):
        """tableau invariant (assumed on entry): canonical commutation relations, stabilizers are elements of the group"""
        out = []
        if v is not None:
            out.append(z3.Implies(z3.And(self.real(u), self.real(v)), s.sp(u, v) == self.can(u, v)))
        else:
            out += [s.ing(u) == self.up(u), z3.Not(s.isz(u))]
        return out

    def axioms(self, s, u, v, c):
        """facts about every tableau, from the meaning of the functions"""
        out = []
        if v is not None:
            out += [s.sp(u, v) == s.sp(v, u), z3.Implies(u == v, z3.Not(s.sp(u, v))), z3.Implies(z3.And(s.ing(u), s.ing(v)), z3.Not(s.sp(u, v)))]
            if self.t is not None:
                out += [z3.Implies(s.isz(u), s.sp(u, v) == s.x(v, self.t)), z3.Implies(s.isz(v), s.sp(u, v) == s.x(u, self.t))]
        else:
            out += [z3.ULE(s.ph(u), 3), z3.Implies(s.ing(u), z3.Or(s.ph(u) == 0, s.ph(u) == 2))]
            if c is not None and self.t is not None:
                out += [z3.Implies(s.isz(u), z3.And(z3.Not(s.x(u, c)), s.z(u, c) == (c == self.t)))]
        return out

    def fresh_state(self, facts):
        """arbitrary state; the universally quantified facts are instantiated wherever the state is read"""
        m = self.m
        k = m.path.fresh("T")
        F = lambda nm, *s: z3.Function(nm + k, *s)
        raw = State(F("sp", BW, BW, z3.BoolSort()), F("x", BW, BW, z3.BoolSort()), F("z", BW, BW, z3.BoolSort()),
                    F("ing", BW, z3.BoolSort()), F("isz", BW, z3.BoolSort()), F("ph", BW, B8))
        seen = set()

        def inst(u, v=None, c=None):
            key = (u.get_id(), None if v is None else v.get_id(), None if c is None else c.get_id())
            if key in seen:
                return
            seen.add(key)
            keep.extend([u, v, c])
            for f in [self.axioms] + facts:
                for a in f(raw, u, v, c):
                    m.path.assume(a)
            if v is not None or c is not None:
                inst(u)
            if v is not None:
                inst(v)
                if self.t is not None:
                    inst(u, None, self.t)
                    inst(v, None, self.t)
        keep = []

        def sp(u, v):
            inst(u, v)
            return raw.sp(u, v)

        def colf(f):
            def g(u, c):
                inst(u, None, c)
                return f(u, c)
            return g

        def rowf(f):
            def g(u):
                inst(u)
                return f(u)
            return g
        return State(sp, colf(raw.x), colf(raw.z), rowf(raw.ing), rowf(raw.isz), rowf(raw.ph))

    def wrap(self, s0, fact):
        """the same state, with universally quantified facts about it instantiated wherever it is read"""
        m, seen, keep = self.m, set(), []

        def inst(u, v=None, c=None):
            key = (u.get_id(), None if v is None else v.get_id(), None if c is None else c.get_id())
            if key in seen:
                return
            seen.add(key)
            keep.extend([u, v, c])
            for a in fact(s0, u, v, c):
                m.path.assume(a)
            if v is not None or c is not None:
                inst(u)
            if v is not None:
                inst(v)

        def on(f):
            return lambda u, c: (inst(u, None, c), f(u, c))[1]
        return State(lambda u, v: (inst(u, v), s0.sp(u, v))[1], on(s0.x), on(s0.z), lambda u: (inst(u), s0.ing(u))[1],
                     lambda u: (inst(u), s0.isz(u))[1], lambda u: (inst(u), s0.ph(u))[1])

    # ---- row operations (contracts of the row functions)
    def check_row(self, u, what, full=None):
        m = self.m
        v = full if full is not None else u
        lim = z3.BitVecVal(2, v.size()) * (z3.ZeroExt(v.size() - 8, self.n8) if v.size() > 8 else self.n8)
        if m.branch(z3.UGT(v, lim)):
            raise I.OutOfBounds("tableau row index (%s)" % what)

    def check_col(self, c, what):
        m = self.m
        lim = z3.ZeroExt(c.size() - 8, self.n8) if c.size() > 8 else self.n8
        bad = z3.UGE(c, lim)
        if m.branch(bad):
            raise I.OutOfBounds("tableau column index (%s)" % what)

    def rowmult(self, i, k):
        m, s = self.m, self.cur
        self.writes += 1
        pi = z3.BitVec(m.path.fresh("ph"), 8)
        m.path.assume(z3.ULE(pi, 3))
        gi, gk, ski = s.ing(i), s.ing(k), s.sp(k, i)
        m.path.assume(z3.Implies(z3.And(gi, gk), z3.Or(pi == 0, pi == 2)))

        def sp(u, v):
            return z3.Xor(z3.Xor(s.sp(u, v), z3.And(u == i, s.sp(k, v))), z3.Xor(z3.And(v == i, s.sp(u, k)), z3.BoolVal(False)))
        self.cur = State(sp, lambda u, c: z3.Xor(s.x(u, c), z3.And(u == i, s.x(k, c))), lambda u, c: z3.Xor(s.z(u, c), z3.And(u == i, s.z(k, c))),
                         lambda u: z3.If(u == i, z3.And(gi, gk), s.ing(u)), lambda u: z3.And(u != i, s.isz(u)),
                         lambda u: z3.If(u == i, pi, s.ph(u)))

    def remap(self, f):
        """row u of the new state is row f(u) of the old one"""
        s = self.cur
        self.writes += 1
        self.cur = State(lambda u, v: s.sp(f(u), f(v)), lambda u, c: s.x(f(u), c), lambda u, c: s.z(f(u), c),
                         lambda u: s.ing(f(u)), lambda u: s.isz(f(u)), lambda u: s.ph(f(u)))

    def rowcopy(self, i, k):
        self.remap(lambda u: z3.If(u == i, k, u))

    def rowswap(self, i, k):
        self.remap(lambda u: z3.If(u == i, k, z3.If(u == k, i, u)))

    def rowset(self, i, b):
        s, n = self.cur, self.n
        self.writes += 1
        q = b - n
        isx = z3.ULT(b, n)

        def sp(u, v):
            a = lambda w: z3.If(isx, s.z(w, b), s.x(w, q))
            return z3.If(u == i, z3.And(v != i, a(v)), z3.If(v == i, a(u), s.sp(u, v)))
        self.cur = State(sp, lambda u, c: z3.If(u == i, z3.And(isx, c == b), s.x(u, c)), lambda u, c: z3.If(u == i, z3.And(z3.Not(isx), c == q), s.z(u, c)),
                         lambda u: z3.And(u != i, s.ing(u)),
                         lambda u: z3.If(u == i, z3.And(z3.Not(isx), q == self.t) if self.t is not None else z3.BoolVal(False), s.isz(u)),
                         lambda u: z3.If(u == i, z3.BitVecVal(0, 8), s.ph(u)))

    def setph(self, i, v):
        s = self.cur
        self.writes += 1
        v = I.bv(v, 8)
        self.cur = State(s.sp, s.x, s.z, lambda u: z3.And(s.ing(u), z3.Or(u != i, v == s.ph(i))), s.isz, lambda u: z3.If(u == i, v, s.ph(u)))

    def setbit(self, kind, i, c, v):
        m, s = self.m, self.cur
        self.writes += 1
        k = z3.Function(m.path.fresh("spx"), BW, z3.BoolSort())
        v = tb(v)

        def upd(f):
            return lambda u, d: z3.If(z3.And(u == i, d == c), v, f(u, d))
        self.cur = State(lambda u, w: z3.If(u == i, z3.And(w != i, k(w)), z3.If(w == i, k(u), s.sp(u, w))),
                         upd(s.x) if kind == "x" else s.x, upd(s.z) if kind == "z" else s.z,
                         lambda u: z3.And(u != i, s.ing(u)), lambda u: z3.And(u != i, s.isz(u)), s.ph)

    def fillrow(self, kind, i, v):
        m, s = self.m, self.cur
        self.writes += 1
        k = z3.Function(m.path.fresh("spx"), BW, z3.BoolSort())
        v = tb(v)
        upd = lambda f: (lambda u, d: z3.If(u == i, v, f(u, d)))
        self.cur = State(lambda u, w: z3.If(u == i, z3.And(w != i, k(w)), z3.If(w == i, k(u), s.sp(u, w))),
                         upd(s.x) if kind == "x" else s.x, upd(s.z) if kind == "z" else s.z,
                         lambda u: z3.And(u != i, s.ing(u)), lambda u: z3.And(u != i, s.isz(u)), s.ph)

    def assign(self, kind, i, v):
        m, s = self.m, self.cur
        if not isinstance(v, (Bits, Snap)):
            raise I.Unsupported("assignment of %s to a row" % type(v).__name__)
        f = v.clone().f
        self.writes += 1
        k = z3.Function(m.path.fresh("spx"), BW, z3.BoolSort())
        upd = lambda g: (lambda u, d: z3.If(u == i, f(d), g(u, d)))
        self.cur = State(lambda u, w: z3.If(u == i, z3.And(w != i, k(w)), z3.If(w == i, k(u), s.sp(u, w))),
                         upd(s.x) if kind == "x" else s.x, upd(s.z) if kind == "z" else s.z,
                         lambda u: z3.And(u != i, s.ing(u)), lambda u: z3.And(u != i, s.isz(u)), s.ph)

    def rotate(self, kind, a, b, c):
        """std::rotate of the rows of one of the three vectors: takes effect when all three were rotated alike"""
        m = self.m
        self.pending[kind] = (a, b, c)
        if len(self.pending) < 3:
            return
        p = list(self.pending.values())
        self.pending = {}
        same = z3.And([x == y for q in p[1:] for x, y in zip(p[0], q)])
        if m.path.sat(z3.Not(same)):
            if m.branch(z3.Not(same)):
                raise I.OutOfBounds("x, z and r are rotated differently")
        a, b, c = p[0]
        ok = z3.And(z3.ULE(a, b), z3.ULE(b, c), z3.ULE(c, 2 * self.n + 1))
        if m.path.sat(z3.Not(ok)):
            if m.branch(z3.Not(ok)):
                raise I.OutOfBounds("rotate range")
        self.remap(lambda u: z3.If(z3.And(z3.UGE(u, a), z3.ULT(u, c)), z3.If(z3.ULT(u - a, c - b), u + (b - a), u - (c - b)), u))

    def settled(self):
        if self.pending:
            raise I.Unsupported("the rows of x, z and r are rearranged separately")


# ------------------------------------------------------------------ the class's vectors
class RowIt:
    def __init__(self, vec, i):
        self.vec, self.i = vec, i

    def clone(self):
        return self

    def lib_operator(self, m, name, refs, vals):
        if name in ("operator+", "operator-") and len(vals) == 2 and isinstance(vals[0], RowIt):
            o = vals[1]
            o = o if isinstance(o, int) else o
            d = z3.BitVecVal(o & 0xFFFF, W) if isinstance(o, int) else (z3.Extract(W - 1, 0, o) if o.size() > W else w16(o))
            return RowIt(vals[0].vec, z3.simplify(vals[0].i + d if name == "operator+" else vals[0].i - d))
        raise I.Unsupported("iterator %s" % name)


class Rows:
    """std::vector of rows (x, z) or of phases (r)"""
    def __init__(self, tab, kind):
        self.tab, self.kind = tab, kind

    def elem(self, m, i):
        tab = self.tab
        tab.settled()
        full = I.bv(i, 64) if isinstance(i, int) else i
        tab.check_row(None, self.kind, full)
        u = w16(full)
        if self.kind == "r":
            return I.FnRef(lambda: tab.cur.ph(u), lambda v: tab.setph(u, v))
        return I.FnRef(lambda: Bits(tab, self.kind, u), lambda v: tab.assign(self.kind, u, v))

    def lib_method(self, m, name, args, fr, n):
        if name == "size":
            return z3.ZeroExt(48, 2 * self.tab.n + 1)
        if name == "begin":
            return RowIt(self, z3.BitVecVal(0, W))
        raise I.Unsupported("vector::%s on the tableau" % name)


class Snap:
    """value of a row at some moment"""
    def __init__(self, tab, kind, f):
        self.tab, self.kind, self.f = tab, kind, f

    def elem(self, m, c):
        full = I.bv(c, 64) if isinstance(c, int) else c
        self.tab.check_col(full, self.kind)
        return I.FnRef(lambda: self.f(w16(full)), None)

    def clone(self):
        return self


def swap_rows(tab, a, b):
    ca, cb = a.clone(), b.clone()
    tab.assign(a.kind, a.u, cb)
    tab.assign(b.kind, b.u, ca)


class BitIt:
    def __init__(self, bits, end):
        self.bits, self.end = bits, end

    def clone(self):
        return self


class Bits:
    def __init__(self, tab, kind, u):
        self.tab, self.kind, self.u = tab, kind, u

    def clone(self):
        s, u, k = self.tab.cur, self.u, self.kind
        return Snap(self.tab, k, lambda c: s.bit(k, u, c))

    def elem(self, m, c):
        full = I.bv(c, 64) if isinstance(c, int) else c
        self.tab.check_col(full, self.kind)
        c = w16(full)
        self.tab.reads.append((self.kind, self.u, c))
        return I.FnRef(lambda: self.tab.cur.bit(self.kind, self.u, c), lambda v: self.tab.setbit(self.kind, self.u, c, v))

    def lib_method(self, m, name, args, fr, n):
        if name == "begin":
            return BitIt(self, False)
        if name == "end":
            return BitIt(self, True)
        if name == "size":
            return z3.ZeroExt(48, self.tab.n)
        if name == "swap":
            return swap_rows(self.tab, self, m.rv(args[0], fr))
        raise I.Unsupported("vector<bool>::%s" % name)


def install(m, tab):
    std = m.std
    fill0 = std.f_fill

    def f_fill(mm, refs, v, n):
        if isinstance(v[0], BitIt) and isinstance(v[1], BitIt) and not v[0].end and v[1].end:
            tab.settled()
            return tab.fillrow(v[0].bits.kind, v[0].bits.u, v[2])
        return fill0(mm, refs, v, n)

    def f_rotate(mm, refs, v, n):
        if all(isinstance(x, RowIt) for x in v[:3]):
            return tab.rotate(v[0].vec.kind, v[0].i, v[1].i, v[2].i)
        raise I.Unsupported("rotate")
    swap0 = std.f_swap

    def f_swap(mm, refs, v, n):
        if isinstance(v[0], Bits) and isinstance(v[1], Bits):
            return swap_rows(tab, v[0], v[1])
        return swap0(mm, refs, v, n)
    std.f_swap = f_swap
    std.f_fill, std.f_rotate = f_fill, f_rotate


# ------------------------------------------------------------------ one incremental solver per path
def incremental(path):
    path.solver = z3.Solver()
    path.solver.set("timeout", path.timeout)
    path.synced = 0

    def sync():
        if path.synced < len(path.pc):
            path.solver.add(*path.pc[path.synced:])
            path.synced = len(path.pc)

    def sat(c=None):
        sync()
        return (path.solver.check() if c is None else path.solver.check(c)) != z3.unsat

    def feasible():
        if path.new:
            path.new = []
            if not sat():
                raise I.PathEnd()
    path.sync, path.sat, path.feasible = sync, sat, feasible


class TabProver(Prover):
    def prove(self, m, name, goal, hint=None):
        g = I.simp(goal)
        if not isinstance(g, bool):
            t0 = time.time()
            m.path.sync()
            if m.path.solver.check(z3.Not(g)) == z3.unsat:
                self.obls.append(Obl(name, "discharged", "z3", time.time() - t0))
                return True
        return Prover.prove(self, m, name, goal, hint)


# ------------------------------------------------------------------ loop contracts by elimination
class Restart(Exception):
    pass


class Houdini:
    def __init__(self, label, parts=("sp", "rows", "scan")):
        self.label, self.parts = label, parts
        self.dropped = {}         # loop key -> names dropped
        self.changed = False
        self.passes = 0

    def run(self, prog, pv, body, contracts, setup=None, max_passes=200, path_timeout=20000):
        """body(m, tp): builds the object, calls the function, proves the postcondition with tp"""
        while True:
            self.passes += 1
            if self.passes > max_passes:
                raise I.Unsupported("no set of loop invariants after %d rounds" % max_passes)
            self.changed = False
            tp = TabProver()
            err = None
            try:
                explore(prog, tp, lambda m: (incremental(m.path), body(m, tp)), contracts=contracts, setup=setup, path_timeout=path_timeout)
            except Restart:
                continue
            except (I.OutOfBounds, I.Unsupported, I.NullDeref, I.DivZero, I.UndefinedShift, I.CppThrow) as e:
                err = e
            if not self.changed:
                break
            if self.passes > max_passes:
                raise I.Unsupported("no set of loop invariants after %d rounds" % max_passes)
        pv.obls += tp.obls
        pv.paths += tp.paths
        for k, v in tp.covers.items():
            pv.covers[k] = pv.covers.get(k, 0) + v
        for k, v in tp.functions.items():
            pv.functions.setdefault(k, v)
        if err is not None:
            raise err

    def holds(self, m, f):
        f = I.simp(f)
        if f is True:
            return True
        if f is False:
            return not m.path.sat()
        m.path.sync()
        return m.path.solver.check(z3.Not(f)) == z3.unsat


def scalar_cells(fr):
    """local scalars by declaration id"""
    out = {}
    for k, c in fr.env.items():
        if isinstance(k, tuple) or not isinstance(c, I.Ref):
            continue
        try:
            v = c.get()
        except Exception:
            continue
        if isinstance(v, (z3.BitVecRef, I.Uninit)) or (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, (bool, z3.BoolRef)):
            out[k] = c
    return out


def targets(node, fr, out=None, seen=None):
    """declaration ids that the statement may assign, directly or in a closure it mentions; and whether it calls or stores"""
    if out is None:
        out = {"ids": set(), "effect": False, "decl": set()}
        seen = set()

    def base(d):
        while d["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            d = d["inner"][0]
        return d

    def mark(d):
        d = base(d)
        if d["kind"] == "DeclRefExpr":
            out["ids"].add(d["referencedDecl"]["id"])
        else:
            out["effect"] = True

    def w(n):
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            mark(n["inner"][0])
        elif k == "CompoundAssignOperator" or (k == "BinaryOperator" and n["opcode"] == "="):
            mark(n["inner"][0])
        elif k in ("VarDecl",):
            out["decl"].add(n["id"])
        elif k == "CXXMemberCallExpr":
            out["effect"] = True
        elif k == "CallExpr":
            out["effect"] = True
            for a in n["inner"][1:]:
                b = base(a)
                if b["kind"] == "UnaryOperator" and b["opcode"] == "&":
                    mark(b["inner"][0])
                elif b["kind"] == "DeclRefExpr" and a["kind"] != "ImplicitCastExpr":
                    out["ids"].add(b["referencedDecl"]["id"])
        elif k == "CXXOperatorCallExpr":
            c = base(n["inner"][0])
            nm = c.get("referencedDecl", {}).get("name", "")
            if nm in ("operator=", "operator+=", "operator-=", "operator^=", "operator|=", "operator&=", "operator<<=", "operator>>=", "operator++", "operator--"):
                mark(n["inner"][1])
            elif nm == "operator()":
                out["effect"] = True
        elif k == "DeclRefExpr":
            i = n["referencedDecl"]["id"]
            c = fr.env.get(i)
            v = c.get() if isinstance(c, I.Ref) else None
            if isinstance(v, I.Closure) and i not in seen:
                seen.add(i)
                lb = v.node
                targets(lb, fr, out, seen)
        for c in n.get("inner", ()):
            w(c)
    if node is not None:
        w(node)
    return out


def unit_step(inc):
    """the loop's increment is ++ or --"""
    if inc is None:
        return True
    return inc.get("kind") == "UnaryOperator" and inc["opcode"] in ("++", "--") or inc.get("kind") not in ("CompoundAssignOperator", "BinaryOperator")


def extras(tab, *a):
    out = []
    for f in tab.extra:
        out += f(tab, *a)
    return out


def candidates(tab, s, s0, ids, env0, names, havoc, parts=("sp", "rows", "scan"), effect=True):
    echelon, scan = "echelon" in parts, "scan" in parts or "echelon" in parts
    """(name, kind, formula) where kind is "" (no quantifier), "u", "uc" or "uv"; formula is a function of (state, u, v, c)"""
    n = tab.n
    out = []
    wide = {k: c.get() for k, c in ids.items()}
    sv = {k: w16(v) for k, v in wide.items() if (isinstance(v, z3.BitVecRef) and v.size() <= 32) or (isinstance(v, int) and not isinstance(v, bool))}
    w8 = {k: v for k, v in sv.items()}
    assigned = [k for k in w8 if k in havoc]
    fixed = [k for k in w8 if k not in havoc]
    nm = names
    const = {"0": z3.BitVecVal(0, W), "n": n, "2n": 2 * n}
    # numeric
    for k in assigned:
        v = w8[k]
        if isinstance(wide[k], z3.BitVecRef) and wide[k].size() == 32:
            q, e = wide[k], I.bv(env0[k], 32)
            n32 = z3.ZeroExt(16, n)
            out += [("%s >= 0 (signed)" % nm[k], "", q >= 0), ("%s >= -1 (signed)" % nm[k], "", q >= -1), ("%s <= entry (signed)" % nm[k], "", q <= e),
                    ("%s < n (signed)" % nm[k], "", q < n32), ("%s < 2n (signed)" % nm[k], "", q < 2 * n32)]
            continue
        for cn, cv in const.items():
            out.append(("%s <= %s" % (nm[k], cn), "", z3.ULE(v, cv)))
            out.append(("%s >= %s" % (nm[k], cn), "", z3.UGE(v, cv)))
            out.append(("%s < %s" % (nm[k], cn), "", z3.ULT(v, cv)))
        e = w16(env0[k])
        out.append(("%s >= entry" % nm[k], "", z3.UGE(v, e)))
        out.append(("%s <= entry" % nm[k], "", v <= e))
        for j in w8:
            if j == k:
                continue
            u = w8[j]
            for on, o in (("", z3.BitVecVal(0, W)), ("+1", z3.BitVecVal(1, W)), ("+n", n)):
                out.append(("%s <= %s%s" % (nm[k], nm[j], on), "", z3.ULE(v, u + o)))
                out.append(("%s >= %s%s" % (nm[k], nm[j], on), "", z3.UGE(v, u + o)))
    if s is None:
        return out
    real, up, low = tab.real, tab.up, tab.low
    cols = [w8[k] for k in w8] if tab.t is None else [tab.t]
    cname = [nm[k] for k in w8] if tab.t is None else ["t"]
    if effect:
        rowsame = lambda S, u, c: z3.And(S.x(u, c) == s0.x(u, c), S.z(u, c) == s0.z(u, c), S.ing(u) == s0.ing(u), S.isz(u) == s0.isz(u), S.ph(u) == s0.ph(u))
        for a, cl in [("rows below n", low), ("rows n to 2n", up), ("scratch row", lambda u: u == 2 * n), ("rows below 2n", real)] + \
                ([("row %s%s" % (nm[k], on), (lambda v: lambda u: u == v)(w8[k] + o)) for k in fixed for on, o in (("", 0), ("+n", n))] if "rows" in parts else []):
            out.append((a + " unchanged", "uc", lambda S, u, v, c, cl=cl: z3.Implies(cl(u), rowsame(S, u, c))))
        if "sp" in parts:
            out.append(("commutation is canonical", "uv", lambda S, u, v, c: z3.Implies(z3.And(real(u), real(v)), S.sp(u, v) == tab.can(u, v))))
            out.append(("stabilizers stay in the group", "u", lambda S, u, v, c: z3.Implies(up(u), S.ing(u))))
        if "rows" in parts:
            out.append(("commutation unchanged apart from Z rows", "uv", lambda S, u, v, c: z3.Implies(z3.And(real(u), real(v), z3.Not(S.isz(u)), z3.Not(S.isz(v))), S.sp(u, v) == s0.sp(u, v))))
            out.append(("Z rows unchanged", "u", lambda S, u, v, c: S.isz(u) == s0.isz(u)))
            out.append(("phase of Z rows unchanged", "u", lambda S, u, v, c: z3.Implies(S.isz(u), S.ph(u) == s0.ph(u))))
            out.append(("stabilizers or Z rows", "u", lambda S, u, v, c: z3.Implies(up(u), z3.Or(S.ing(u), S.isz(u)))))
            out.append(("the scratch row is in the group", "u", lambda S, u, v, c: z3.Implies(u == 2 * n, S.ing(u))))
    # scanned columns
    for kind in () if not scan else ("x", "z") if echelon else ("x",):
        for ci, cc in enumerate(cols):
            if cname[ci] in [nm[k] for k in assigned]:
                continue
            for k in assigned:
                i = w8[k]
                for lo_n, lo, hi in [("0..%s" % nm[k], None, i), ("n..n+%s" % nm[k], n, n + i), ("n..%s" % nm[k], n, i)] + \
                        [("%s+1..%s" % (nm[f], nm[k]), w8[f] + 1, i) for f in fixed]:
                    def f(S, u, v, c, lo=lo, hi=hi, cc=cc, kind=kind):
                        g = z3.ULT(u, hi) if lo is None else z3.And(z3.UGE(u, lo), z3.ULT(u, hi))
                        return z3.Implies(z3.And(g, real(u)), z3.Not(S.bit(kind, u, cc)))
                    out.append(("%s bit %s clear in rows %s" % (kind, cname[ci], lo_n), "u", f))
                for e in fixed:
                    def f(S, u, v, c, i=i, cc=cc, kind=kind, e=w8[e]):
                        return z3.Implies(z3.And(z3.ULT(u, i), u != e, real(u)), z3.Not(S.bit(kind, u, cc)))
                    out.append(("%s bit %s clear in rows 0..%s except %s" % (kind, cname[ci], nm[k], nm[e]), "u", f))
        # echelon
        for k in w8 if echelon else ():
            for j in w8:
                if j == k:
                    continue
                def f(S, u, v, c, i=w8[k], j=w8[j], kind=kind):
                    return z3.Implies(z3.And(z3.ULT(c, j), z3.UGE(u, i), real(u)), z3.Not(S.bit(kind, u, c)))
                out.append(("%s columns below %s clear in rows from %s" % (kind, nm[j], nm[k]), "uc", f))
            for on, o in (("", 0), ("+n", n)) if echelon else ():
                def f(S, u, v, c, i=w8[k] + o, kind=kind):
                    return z3.Implies(z3.And(z3.ULT(c, n), z3.UGE(u, i), real(u)), z3.Not(S.bit(kind, u, c)))
                out.append(("%s columns clear in rows from %s%s" % (kind, nm[k], on), "uc", f))
    if tab.t is not None and effect:
        for k in assigned:
            i = w8[k]
            out.append(("scratch row is the product up to %s" % nm[k], "u",
                        lambda S, u, v, c, i=i: z3.Implies(low(u), S.sp(2 * n, u) == z3.And(z3.ULT(u, i), S.x(u, tab.t)))))
    return out


def flag_candidates(flags, nm):
    out = []
    for k, c in flags.items():
        v = c.get()
        v = z3.BoolVal(v) if isinstance(v, bool) else v
        out += [("%s is set" % nm[k], "", v), ("%s is clear" % nm[k], "", z3.Not(v))]
    return out


def hook_for(hd, tab, pv):
    def names_of(fr):
        out = {}

        def w(x):
            if not isinstance(x, dict):
                return
            if x.get("kind") in ("VarDecl", "ParmVarDecl") and x.get("name"):
                out[x["id"]] = x["name"]
            for c in x.get("inner", ()):
                w(c)
        w(fr.node)
        return out

    def hook(m, n, cond, inc, body, fr):
        if callable(cond) or callable(body) or callable(inc):
            return NotImplemented
        if cond is not None:
            c0 = I.to_bool(m.rv(cond, fr))
            if isinstance(c0, bool) and inc is None:
                return NotImplemented
        if not unit_step(inc):
            return NotImplemented
        tg = targets(body, fr)
        targets(inc, fr, tg, set())
        targets(cond, fr, tg, set())
        cells = scalar_cells(fr)
        inner = tg["decl"]
        for k, c in list(cells.items()):
            if isinstance(c.get(), I.Uninit) or c.get() is I.Uninit:
                if k in tg["ids"] and k not in inner:
                    c.set(z3.BitVec(m.path.fresh("uninit"), width(m, None, k, fr)))
                else:
                    del cells[k]
        reals, cplx = [], []
        havoc = {k for k in tg["ids"] if k in cells and k not in inner}
        for k in tg["ids"]:
            if k not in cells and k not in inner and k in fr.env:
                v = fr.env[k].get() if isinstance(fr.env[k], I.Ref) else fr.env[k]
                if isinstance(v, R):
                    reals.append(fr.env[k])
                    continue
                if isinstance(v, Cx):
                    cplx.append(fr.env[k])
                    continue
                if not isinstance(v, (Bits, Rows, I.Closure)) and not hasattr(v, "rng_free"):
                    raise I.Unsupported("a loop assigns %s" % type(v).__name__)
        nm = names_of(fr)
        # captured variables carry names of the enclosing function
        for k in cells:
            nm.setdefault(k, "v%s" % str(k)[-4:])
        mats = tuple(sorted((str(nm.get(k, k)), c.get().kind) for k, c in fr.env.items() if isinstance(c, I.Ref) and not isinstance(k, tuple) and isinstance(safe(c), Rows)))
        key = (n["id"], mats)
        tab.settled()
        s0 = tab.cur
        env0 = {k: cells[k].get() for k in cells}
        vis = {k: cells[k] for k in cells if k not in inner and not isinstance(cells[k].get(), (bool, z3.BoolRef))}
        dropped = hd.dropped.setdefault(key, set())
        lname = "%sloop of %s (%s)" % (hd.label, fr.node.get("_q", "closure"), ",".join(sorted(nm[k] for k in havoc)))

        flags = {k: cells[k] for k in cells if k not in inner and k in havoc and isinstance(cells[k].get(), (bool, z3.BoolRef))}

        def cands(state):
            return [c for c in flag_candidates(flags, nm) + candidates(tab, state, s0, vis, env0, nm, havoc, hd.parts, tg["effect"]) +
                    extras(tab, state, s0, {k: c.get() for k, c in vis.items()}, env0, nm, havoc) if c[0] not in dropped]

        def ghosts(tag):
            return [z3.BitVec(m.path.fresh(tag + x), W) for x in "uvc"]

        def check(when):
            u, v, c = ghosts("g")
            m.path.assume(z3.ULT(c, tab.n))
            S = tab.cur
            todo = []
            for a, kind, f in cands(S):
                g = I.simp(f if kind == "" else f(S, u, v, c))
                if g is not True:
                    todo.append((a, g if g is not False else z3.BoolVal(False)))
                else:
                    pv.obls.append(Obl("%s: %s %s" % (lname, a, when), "discharged", "simplifier", 0))
            m.path.sync()
            sol = m.path.solver
            while todo:
                t0 = time.time()
                sol.push()
                sol.add(z3.Not(z3.And([g for a, g in todo])))
                r = sol.check()
                mdl = sol.model() if r == z3.sat else None
                sol.pop()
                if r == z3.unsat:
                    for a, g in todo:
                        pv.obls.append(Obl("%s: %s %s" % (lname, a, when), "discharged", "z3", (time.time() - t0) / len(todo)))
                    break
                if mdl is None:
                    bad = [a for a, g in todo if not hd.holds(m, g)]
                else:
                    bad = [a for a, g in todo if z3.is_false(mdl.eval(g, model_completion=True))]
                if not bad:
                    bad = [todo[0][0]]
                dropped.update(bad)
                hd.changed = True
                todo = [x for x in todo if x[0] not in dropped]
            if hd.changed:
                raise Restart()
        if m.path.pos >= len(m.path.dec):      # otherwise this entry was checked when the path was first taken
            check("on entry")
        preserve = m.path.choose(2) == 0
        for c in reals:
            c.set(R.atom(m.path.fresh("real")))
        for c in cplx:
            c.set(Cx(R.atom(m.path.fresh("re")), R.atom(m.path.fresh("im"))))
        for k in havoc:
            v = cells[k].get()
            if isinstance(v, (bool, z3.BoolRef)):
                cells[k].set(z3.Bool(m.path.fresh("b")))
            else:
                w = v.size() if isinstance(v, z3.BitVecRef) else width(m, nm, k, fr)
                cells[k].set(z3.BitVec(m.path.fresh(nm[k]), w))
        live2 = [c for c in cands(s0) if c[1]]

        def fact(s, u, v, c):
            out = []
            for a, kind, f in live2:
                if kind == "u" and v is None and c is None:
                    out.append(f(s, u, None, None))
                elif kind == "uc" and c is not None:
                    out.append(f(s, u, None, c))
                elif kind == "uv" and v is not None:
                    out.append(f(s, u, v, None))
            return out
        tab.cur = tab.fresh_state([fact]) if tg["effect"] else tab.wrap(s0, fact)
        for a, kind, f in cands(tab.cur):
            if kind == "":
                m.path.assume(f)
        c = I.to_bool(m.rv(cond, fr)) if cond is not None else True
        if preserve:
            m.path.assume(tb(c))
            if not m.path.sat():
                raise I.PathEnd()
            r = m.ex(body, fr)
            if isinstance(r, tuple):
                return r
            if r == "brk":
                return None
            if inc is not None:
                m.ev(inc, fr)
            tab.settled()
            check("is preserved")
            pv.cover("%s: body" % lname)
            raise I.PathEnd()
        m.path.assume(z3.Not(tb(c)))
        return None
    return hook


def safe(c):
    try:
        return c.get()
    except Exception:
        return None


def width(m, nm, k, fr):
    """width of a local from its declaration"""
    def w(x):
        if not isinstance(x, dict):
            return None
        if x.get("id") == k and x.get("kind") in ("VarDecl", "ParmVarDecl"):
            from .astload import qtype
            t = I.ctype(qtype(x).replace("const", "").replace("&", "").strip())
            return t[1] if t[0] == "int" else 32
        for c in x.get("inner", ()):
            r = w(c)
            if r:
                return r
        return None
    r = w(fr.node)
    return r or 8
