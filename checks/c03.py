"""C03: parallel loops.  ParallelFor under contract: for every range, stride, thread count and interleaving of the workers, the body
is called for exactly the specified indices, each once, with a valid worker number; norms are the sums over all of them."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import astload, interp as I, check
from dv.interp import Obj, Cell, NativeFn, FnRef, Ptr
from dv.real import R, Cx
from dv.astload import params_of, qtype
from dv.mon import mentions

C = check.Check("C03")
C.harness = "parfor.cpp"
C.harness_time = {"quick": 20, "thorough": 300}


def build(scratch):
    """the real class and the counting bodies, without the rest of the library"""
    import subprocess
    exe = os.path.join(scratch.dir, "parfor")
    inc = ["-I" + scratch.cfg, "-I" + scratch.cfg + "/common", "-I" + check.REPO + "/include", "-I" + check.REPO + "/include/common"]
    src = [check.REPO + "/src/common/parallel_for.cpp", check.REPO + "/src/common/functions.cpp"]
    r = subprocess.run(["g++", "-O1", "-g0", "-std=c++14", "-mrdrnd", "-w", "-DENABLE_RDRAND=1"] + inc + [os.path.join(check.VERIF, "replay", C.harness)] + src + ["-o", exe, "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("harness build failed: " + r.stdout.decode("utf-8", "replace")[-2000:])
    return exe


C.builder = build
PF = "Qrack::ParallelFor"
BV = lambda n, w=64: z3.BitVec(n, w)
ULT, ULE, UGE, UGT = z3.ULT, z3.ULE, z3.UGE, z3.UGT
INC = z3.Function("INC", z3.BitVecSort(64), z3.BitVecSort(64))
POWERS = list(range(0, 41))


def b64(v):
    v = I.bv(v, 64) if not isinstance(v, z3.BitVecRef) else v
    return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)


def stop(w, m, what, detail="on a reachable path"):
    if m.path.sat():
        w.pv.fail(w.lab + ": " + what, detail)
    raise I.PathEnd()


class Atomic:
    def __init__(self, w):
        self.w, self.init = w, None

    def clone(self):
        return self

    def claim(self, m, d):
        w = self.w
        if w.worker is None:
            raise I.Unsupported("the claim counter is used outside a worker")
        if I.simp(I.bv(d, 64) == 1) is not True:
            stop(w, m, "a worker claims one chunk at a time")
        w.worker["claims"] += 1
        if w.worker["claims"] > 1:
            stop(w, m, "a worker claims exactly one chunk per iteration")
        return w.worker["claim"]

    def lib_operator(self, m, name, refs, v):
        if name == "operator++":
            c = self.claim(m, 1)
            return c if len(v) > 1 else c + 1
        if name == "operator+=":
            return self.claim(m, v[1]) + 1
        raise I.Unsupported("%s on an atomic" % name)

    def lib_method(self, m, name, args, fr, n):
        if name == "fetch_add":
            return self.claim(m, m.rv(args[0], fr))
        if name == "store" and self.w.worker is None:
            self.init = m.rv(args[0], fr)
            return None
        raise I.Unsupported("atomic::%s" % name)


class AtomicCell(Cell):
    def set(self, v):
        if isinstance(v, Atomic):
            self.v = v
            return
        if self.v.w.worker is not None:
            stop(self.v.w, self.v.w.m, "the claim counter is overwritten by a worker")
        self.v.init = v


class Futures:
    """the vector of futures: as many as the spawn loop made"""
    def __init__(self, w):
        self.w, self.n, self.single = w, z3.BitVecVal(0, 64), 0

    def clone(self):
        return self

    def elem(self, m, i):
        i = b64(i)
        self.w.pv.prove(m, self.w.lab + ": only futures that exist are waited for", ULT(i, self.n))
        return Cell(Future(self.w, i))

    def lib_method(self, m, name, args, fr, n):
        w = self.w
        if name == "reserve":
            return None
        if name == "size":
            return self.n
        if name in ("emplace_back", "push_back"):
            v = m.rv(args[0], fr)
            if not isinstance(v, Future):
                raise I.Unsupported("not a future")
            self.single += 1
            w.events.append(("spawn", w.lastvar(), None))
            return None
        if name in ("operator[]", "at"):
            return self.elem(m, m.rv(args[0], fr))
        raise I.Unsupported("vector of futures: %s" % name)


class Future:
    def __init__(self, w, i=None):
        self.w, self.i = w, i

    def clone(self):
        return self

    def lib_method(self, m, name, args, fr, n):
        if name in ("get", "wait"):
            if self.i is None:
                raise I.Unsupported("future outside the vector")
            self.w.events.append(("get", self.i, None))
            return R.atom("FUT_%s" % tag(self.i)) if self.w.sums else None
        raise I.Unsupported("future::%s" % name)


def tag(t):
    return str(z3.simplify(t)).replace(" ", "").replace("\n", "")


class SVec:
    """the state vector that is summed: amplitude a is (re_a, im_a)"""
    def __init__(self, w):
        self.w = w

    def method(self, m, bm, args, fr, n):
        if bm.name not in ("read",):
            raise I.Unsupported("StateVector::%s" % bm.name)
        a = b64(m.rv(args[0], fr))
        self.w.events.append(("read", a, None))
        return self.w.amp(a)


class World:
    def __init__(self, pv, m, lab, count, begin, cores, sums=False, thr=None):
        self.pv, self.m, self.lab, self.count, self.begin, self.cores, self.sums, self.thr = pv, m, lab, count, begin, cores, sums, thr
        self.events = []           # (kind, address, worker number) or ("range", kind, start, N)
        self.worker = None
        self.ts = []
        self.vars = []             # cells of the loop variables of enclosing loops of the calling thread
        self.nspawn = None
        self.futs = None
        self.shared = []
        self.n = 0
        self.idx = None
        self.workers_checked = 0

    def lastvar(self):
        if not self.vars:
            raise I.Unsupported("a worker outside a counted loop")
        return b64(self.vars[-1].get())

    def amp(self, a):
        t = tag(a)
        return Cx(R.atom("re_" + t), R.atom("im_" + t))

    def term(self, m, a):
        """what amplitude a contributes"""
        return self.amp(a).norm()

    # ---- the caller's functions
    def inc_fn(self):
        return NativeFn(lambda *v: INC(b64(v[0].get() if isinstance(v[0], I.Ref) else v[0])), "inc")

    def fn_fn(self):
        def f(*v):
            v = [x.get() if isinstance(x, I.Ref) else x for x in v]
            a = v[0]
            if not (z3.is_app(a) and a.decl().eq(INC)):
                stop(self, self.m, "the body is called with a value of the increment function")
            self.events.append(("call", a.arg(0), v[1]))
            c = I.bv(v[1], 32)
            self.pv.prove(self.m, self.lab + ": the worker number is below the number of workers", ULT(c, z3.If(self.cores == 0, z3.BitVecVal(1, 32), self.cores)))
            t = self.worker.get("t") if self.worker is not None else None
            if t is not None:
                t32 = z3.Extract(31, 0, t) if t.size() > 32 else t if t.size() == 32 else z3.ZeroExt(32 - t.size(), t)
                self.pv.prove(self.m, self.lab + ": different workers have different numbers", c == z3.substitute(c, (t, z3.BitVecVal(0, t.size()))) + t32)
            return None
        return NativeFn(f, "fn")

    # ---- counting: how often is address x visited by these events
    def times(self, x, ev, kind):
        t = z3.BitVecVal(0, 64)
        one = z3.BitVecVal(1, 64)
        z = z3.BitVecVal(0, 64)
        for e in ev:
            if e[0] == kind:
                t = t + z3.If(x == e[1], one, z)
            elif e[0] == "range" and e[1] == kind:
                t = t + z3.If(ULT(x - e[2], e[3]), one, z)
        return t


def accs(body, fr, m):
    """cells of real accumulators and integer variables declared outside that a loop assigns"""
    ids = set()
    inside = set()

    def w(n):
        k = n.get("kind")
        if k == "LambdaExpr":
            return
        if k == "VarDecl":
            inside.add(n["id"])
        t = None
        if k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") == "="):
            t = n["inner"][0]
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            t = n["inner"][0]
        if t is not None:
            while t.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                t = t["inner"][0]
            if t.get("kind") == "DeclRefExpr":
                ids.add(t["referencedDecl"]["id"])
        for c in n.get("inner", ()):
            if isinstance(c, dict):
                w(c)
    for b in body:
        if isinstance(b, dict):
            w(b)
    return [(i, fr.env[i]) for i in ids - inside if i in fr.env]


class Rules:
    """the loop rules"""
    def __init__(self, w):
        self.w = w
        self.memo = {}

    def hook(self, m, n, cond, inc, body, fr):
        w = self.w
        bn = body if isinstance(body, dict) else n["inner"][-1]
        if w.worker is not None and not w.worker.get("in") and n.get("kind") != "CXXForRangeStmt":
            return self.claims(m, n, cond, inc, body, bn, fr)
        return self.counted(m, n, cond, inc, body, bn, fr)

    # a worker's loop: any number of iterations, one claim each
    def claims(self, m, n, cond, inc, body, bn, fr):
        w = self.w
        cells = [(i, c) for i, c in accs([bn], fr, m)]
        start = {}
        for i, c in cells:
            v = c.get()
            if isinstance(v, R):
                w.pv.prove_eq_real(m, w.lab + ": a worker's sum starts at 0", v, R.const(0))
                start[i] = R.atom(m.path.fresh("wacc"))
                c.set(start[i])
            elif isinstance(v, I.Uninit):
                pass
            else:
                raise I.Unsupported("a worker carries %s from chunk to chunk" % type(v).__name__)
        w.worker["in"] = True
        w.worker["claims"] = 0
        claim = BV("claim")
        w.worker["claim"] = claim
        S = w.stride
        # a worker goes past the end at most once
        m.path.assume(ULE(claim, z3.UDiv(w.count, z3.BitVecVal(S, 64)) + 1 + z3.ZeroExt(32, w.cores)))
        ev0 = w.events
        w.events = []
        out = None
        if cond is not None and not m.truth(m.rv(cond, fr)):
            out = "brk"
        if out is None:
            out = m.ex(body, fr)
        x = BV("x")
        past = UGE(claim, z3.UDiv(w.count + (S - 1), z3.BitVecVal(S, 64)))
        if out == "brk" or isinstance(out, tuple):
            if w.worker["claims"] != 1:
                stop(w, m, "a worker ends only on a claim past the end")
            w.pv.prove(m, w.lab + ": a worker ends only when its claim is past the end", past)
            if any(e[0] in ("call", "range", "read") for e in w.events):
                stop(w, m, "a worker ends without having worked on a claim past the end")
            w.pv.cover("worker ends")
            w.events = ev0
            if isinstance(out, tuple):
                return out
            return None
        if inc is not None:
            m.ev(inc, fr)
        if w.worker["claims"] != 1:
            stop(w, m, "a worker claims a chunk before it works on it")
        kind = "read" if w.sums else "call"
        off = z3.BitVecVal(0, 64) if w.sums else w.begin
        k = x - off
        inchunk = z3.And(ULT(k, w.count), z3.UDiv(k, z3.BitVecVal(S, 64)) == claim)
        w.pv.prove(m, w.lab + ": the indices of the claimed chunk, and no others, are visited, each once", w.times(x, w.events, kind) == z3.If(inchunk, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        for i, c in cells:
            if i in start:
                d = c.get() - start[i]
                want = R.const(0)
                for e in w.events:
                    if e[0] == "range" and e[1] == "read":
                        want = want + R.atom(e[4])
                    elif e[0] == "read":
                        raise I.Unsupported("single amplitudes in a chunk")
                w.pv.prove_eq_real(m, w.lab + ": a worker's sum grows by the chunk's", d, want)
        w.pv.cover("worker works on a chunk")
        raise I.PathEnd()

    # for (v = v0; cond(v); ++v) with one visit per iteration
    def counted(self, m, n, cond, inc, body, bn, fr):
        w = self.w
        if n.get("kind") == "CXXForRangeStmt":
            vid = ("range", n["id"])
            var = fr.env[vid]
            others = accs([bn], fr, m)
            run = body
        else:
            a = accs([bn] + ([inc] if isinstance(inc, dict) else []), fr, m)
            ints = [(i, c) for i, c in a if not isinstance(c.get(), R)]
            if len(ints) != 1:
                raise I.Unsupported("a loop with %d integer variables" % len(ints))
            vid, var = ints[0]
            others = [(i, c) for i, c in a if i != vid]
            run = lambda: m.ex(body, fr)
        ev = (lambda e: m.rv(e, fr) if isinstance(e, dict) else e())
        for _, c in others:
            if not isinstance(c.get(), R):
                raise I.Unsupported("loop variable of type %s" % type(c.get()).__name__)
        v0 = var.get()
        width = v0.size() if isinstance(v0, z3.BitVecRef) else self.width(n, fr, vid)
        v0 = I.bv(v0, width)
        w.n += 1
        key = "L%d_%s" % (w.n, n["id"][-5:])
        N = BV("N_" + key, width)
        base = {i: c.get() for i, c in others}

        def at(t):
            var.set(t)
            return I.to_bool(ev(cond))
        mode = m.path.choose(2)
        if mode == 0:
            # an arbitrary iteration that is reached: v = v0 + t, t < N where N is the first t at which the condition fails
            # (the condition alone decides this; N does not enter unless it is needed)
            t = BV("t_" + key, width)
            m.path.assume(ULT(t, N))
            c = at(v0 + N)
            m.path.assume(z3.Not(c) if not isinstance(c, bool) else not c)
            v = I.simp(v0 + t)
            if not m.truth(at(v)):
                raise I.PathEnd()
            var.set(v)
            e0 = w.events
            w.events = []
            start = {}
            for i, c in others:
                start[i] = R.atom(m.path.fresh("acc"))
                c.set(start[i])
            w.vars.append(var)
            w.ts.append(t)
            r = run()
            w.vars.pop()
            w.ts.pop()
            if r is not None and r != "cont":
                raise I.Unsupported("a counted loop that is left early")
            if inc is not None:
                ev(inc) if not isinstance(inc, dict) else m.ev(inc, fr)
            w.pv.prove(m, w.lab + ": the loop advances by one", I.bv(var.get(), width) == v + 1)
            evs = w.events
            visits = [x for x in evs if x[0] in ("call", "read", "get", "spawn")]
            seen = []
            for x in visits:
                if x[0] == "read" and any(y[0] == "read" and I.simp(y[1] == x[1]) is True for y in seen):
                    continue
                seen.append(x)
            if any(x[0] == "range" for x in evs) or len(seen) != 1:
                stop(w, m, "one visit per iteration (%s)" % [x[0] for x in evs])
            kind, a, _ = seen[0]
            # the address moves with the variable: same offset at every iteration
            off = I.simp(a - b64(v))
            prev = self.memo.get(key)
            A0 = z3.simplify(z3.substitute(a, (t, z3.BitVecVal(0, width))))
            w.pv.prove(m, w.lab + ": consecutive iterations visit consecutive indices", a == A0 + b64(t))
            if prev is not None and (prev[0] != kind or I.simp(prev[1] == A0) is not True):
                raise I.Unsupported("iterations that visit differently")
            self.memo[key] = (kind, A0)
            for i, c in others:
                d = c.get() - start[i]
                if kind == "get":
                    w.pv.prove_eq_real(m, w.lab + ": each worker's result is added once", d, R.atom("FUT_%s" % tag(a)))
                    continue
                if kind != "read":
                    raise I.Unsupported("sum in a loop that does not read amplitudes")
                x = w.term(m, a)
                cmp_ = None if w.thr is None else (x.z3() >= w.thr.z3())
                if not (d - x).t:
                    if cmp_ is not None:
                        w.pv.prove(m, w.lab + ": only amplitudes at or above the threshold are added", z3.Or(cmp_, x.z3() == 0))
                    else:
                        w.pv.obls.append(check.Obl(w.lab + ": the squared amplitude is added", "discharged", "ring", 0))
                elif not d.t and cmp_ is not None:
                    w.pv.prove(m, w.lab + ": amplitudes at or above the threshold are added", z3.Or(z3.Not(cmp_), x.z3() == 0))
                else:
                    w.pv.prove_eq_real(m, w.lab + ": the squared amplitude is added", d, x)
            w.pv.cover("loop body " + kind)
            raise I.PathEnd()
        # after the loop
        c = at(v0)
        if not m.truth(c):
            var.set(v0)
            return None
        if key not in self.memo:
            raise I.PathEnd()       # no iteration was feasible
        m.path.assume(N != 0)
        c = at(I.simp(v0 + N))
        m.path.assume(z3.Not(c) if not isinstance(c, bool) else not c)
        c = at(I.simp(v0 + N - 1))
        m.path.assume(c if not isinstance(c, bool) else z3.BoolVal(c))
        kind, A0 = self.memo[key]
        s = m.path.fresh("SUM")
        N64 = b64(N)
        w.events.append(("range", kind, A0, N64, s))
        for i, c in others:
            c.set(base[i] + R.atom(s))
        var.set(I.simp(v0 + N))
        if kind == "spawn":
            w.nspawn = N64
            w.futs.n = N64
        return None

    def width(self, n, fr, vid):
        def w(x):
            if isinstance(x, dict):
                if x.get("kind") in ("VarDecl", "ParmVarDecl") and x.get("id") == vid:
                    return x
                for c in x.get("inner", ()):
                    r = w(c)
                    if r:
                        return r
        d = w(fr.node)
        k = I.ctype(qtype(d))
        if k[0] != "int":
            raise I.Unsupported("loop variable of type %s" % qtype(d))
        return k[1]


def machine(m, w):
    st = m.std
    old_c, old_d = st.construct, st.default_construct

    def base(t):
        return t.split("<")[0].replace("std::", "").strip()

    def dflt(t):
        if base(t).startswith("atomic") or base(t).startswith("__atomic"):
            w.idx = Atomic(w)
            return w.idx
        if base(t) == "vector" and "future" in t:
            w.futs = Futures(w)
            return w.futs
        return old_d(t)

    def construct(m2, t, args, fr, n):
        b = base(t)
        if b.startswith("atomic"):
            w.idx = Atomic(w)
            a = [x for x in args if x["kind"] != "CXXDefaultArgExpr"]
            if a:
                w.idx.init = m2.rv(a[0], fr)
            return w.idx
        if b == "vector" and "future" in t:
            if [x for x in args if x["kind"] != "CXXDefaultArgExpr"]:
                raise I.Unsupported("vector of futures with arguments")
            w.futs = Futures(w)
            return w.futs
        return old_c(m2, t, args, fr, n)
    st.construct, st.default_construct = construct, dflt
    old_declare = m.declare

    def declare(c, fr):
        old_declare(c, fr)
        r = fr.env.get(c["id"])
        if isinstance(r, Cell) and isinstance(r.v, Atomic) and not isinstance(r, AtomicCell):
            fr.env[c["id"]] = AtomicCell(r.v)
    m.declare = declare

    def f_async(m2, refs, v, n):
        if I.simp(I.bv(v[0], 32) == 1) is not True:
            raise I.Unsupported("launch policy %s" % v[0])
        cl = v[1]
        if not isinstance(cl, I.Closure):
            raise I.Unsupported("worker function")
        if w.idx is None or w.idx.init is None or I.simp(I.bv(w.idx.init, 64) == 0) is not True:
            if w.idx is None:
                raise I.Unsupported("no claim counter")
            stop(w, m2, "the claim counter starts at 0")
        env = {}
        for i, c in cl.env.items():
            if isinstance(c, AtomicCell) or not isinstance(c, Cell):
                env[i] = c
            elif any(c is x for x in w.vars):
                # captured by reference: the spawning loop goes on while the worker runs
                val = c.get()
                env[i] = Cell(z3.BitVec(m2.path.fresh("later"), val.size() if isinstance(val, z3.BitVecRef) else 32))
            elif getattr(c, "own", None) is cl:
                env[i] = c
            elif captured_copy(cl, i, c, m2, w):
                env[i] = c
            else:
                def bad(_, c=c):
                    stop(w, m2, "a variable shared by the workers is written by one")
                env[i] = FnRef(lambda c=c: c.get(), bad)
        save = (w.vars, w.events)
        w.vars, w.events = [], []
        w.worker = {"t": w.ts[-1] if w.ts else None}
        mode = m2.path.choose(2)
        if mode == 0:
            r = m2.call_value(I.Closure(cl.node, env, cl.this), [])
            # the worker has ended
            if w.sums:
                acc = [c for c in [r] if isinstance(c, R)]
                if not acc:
                    raise I.Unsupported("result of a worker")
                ok = len(r.t) == 1 and str(list(r.atoms())[0]).startswith("wacc") and not (r - R.atom(list(r.atoms())[0])).t
                if not ok:
                    stop(w, m2, "a worker returns the sum of its chunks", repr(r)[:200])
                w.pv.obls.append(check.Obl(w.lab + ": a worker returns the sum of its chunks", "discharged", "ring", 0))
            elif not w.worker.get("in"):
                stop(w, m2, "a worker does not work")
            raise I.PathEnd()
        w.worker = None
        w.vars, w.events = save
        return Future(w)
    st.f_async = f_async
    rules = w.rules
    m.loop_hook = rules.hook


def captured_copy(cl, i, c, m, w):
    """captured by value: the cell is not one of the spawning function's"""
    return not any(c is x for x in w.main_env())


C.assumptions = [
    "std::async workers, std::future and std::atomic behave as the C++ standard says; fetch-and-increment hands every value out once",
    "over all workers: values 0, 1, 2, ... are handed out, a worker stops only at a value past the end (proved), so every chunk index below the end has been claimed by exactly one worker when all have stopped; each claim visits exactly its chunk (proved)",
    "counted loops end; ranges begin + count stay below 2^62; the stride is a power of two (QRACK_PSTRIDEPOW), 2^0 to 2^40 tried one by one",
    "floating point is exact: a parallel sum equals the sequential one up to the rounding of another order of additions",
    "par_for_skip and par_for_mask start at 0 and end at a power of two above the skipped bits, masks are ascending powers of two (all callers)",
]
C.standins = ["the real class: visit counts per index for random ranges, strides, thread counts, skips and masks, and norms against a sequential sum (bounded)"]


def engine_obj(m, p, cores):
    return Obj(PF, {"pStride": Cell(z3.BitVecVal(1 << p, 64)), "numCores": Cell(cores), "dispatchThreshold": Cell(z3.BitVec("thr", 8))})


def prepare(cfg):
    prog = astload.Program(["src/common/parallel_for.cpp"], cfg)
    inc_df = prog.func(PF + "::par_for_inc")[0]
    norm_df = prog.func(PF + "::par_norm")[0]
    exact_df = prog.func(PF + "::par_norm_exact")[0]

    def one(df, name, p, kind):
        def fn(pv):
            memo = {}

            def run(m):
                count, begin, cores = BV("itemCount"), BV("begin"), BV("numCores", 32)
                m.path.assume(z3.And(ULT(count, 1 << 61), ULT(begin, 1 << 61), ULT(cores, 1 << 20)))
                thr = R.atom("thr") if kind == "norm" else None
                lab = "%s, stride 2^%d" % (name, p)
                w = World(pv, m, lab, count, begin if kind == "for" else z3.BitVecVal(0, 64), cores, kind != "for", thr)
                w.stride = 1 << p
                w.rules = Rules(w)
                w.rules.memo = memo
                frames = []
                w.main_env = lambda: [c for f in frames for c in f.values()]
                machine(m, w)
                o = engine_obj(m, p, cores)
                if kind == "for":
                    vals = [Cell(begin), Cell(count), Cell(w.inc_fn()), Cell(w.fn_fn())]
                elif kind == "norm":
                    vals = [Cell(count), Cell(Ptr(SVec(w), None)), Cell(thr)]
                else:
                    vals = [Cell(count), Cell(Ptr(SVec(w), None))]
                exact = []
                if kind == "norm":
                    def c_exact(m2, obj, refs, n):
                        exact.append([r.get() for r in refs])
                        return R.atom("EXACT")
                    m.contracts[PF + "::par_norm_exact"] = c_exact
                env = {}
                for q, v in zip(params_of(df), vals):
                    env[q["id"]] = v
                frames.append(env)
                r = m.run(df, env, o)
                if exact:
                    m.path.assume(r.z3() == r.z3())
                    pv.prove(m, lab + ": without a threshold above 0 every amplitude counts", thr.z3() <= 0)
                    ok = len(exact) == 1 and exact[0][0] is count and not (r - R.atom("EXACT")).t
                    if not ok:
                        stop(w, m, "the exact norm of the same vector is returned")
                    pv.obls.append(check.Obl(lab + ": the exact norm of the same vector is returned", "discharged", "execution", 0))
                    return
                x = BV("x")
                off = w.begin
                one_, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
                if w.idx is not None or w.nspawn is not None:
                    # parallel: the workers' contract visits everything, if there is one
                    if w.nspawn is None:
                        pv.prove(m, lab + ": at least one worker is started when there is work", count == 0)
                        return
                    pv.prove(m, lab + ": at least one worker is started", w.nspawn != 0)
                    if any(e[0] == "call" or e[0] == "read" or (e[0] == "range" and e[1] in ("call", "read")) for e in w.events):
                        stop(w, m, "the calling thread visits indices beside the workers")
                    got = w.times(x, w.events, "get")
                    pv.prove(m, lab + ": every worker is waited for, once", got == z3.If(ULT(x, w.nspawn), one_, zero))
                    if kind != "for":
                        want = R.const(0)
                        for e in w.events:
                            if e[0] == "range" and e[1] == "get":
                                want = want + R.atom(e[4])
                        pv.prove_eq_real(m, lab + ": the sum of the workers' sums is returned", r, want)
                    pv.cover("parallel")
                    return
                k = "call" if kind == "for" else "read"
                pv.prove(m, lab + ": every index is visited, each once, and no other (sequential)", w.times(x, w.events, k) == z3.If(ULT(x - off, count), one_, zero))
                if kind != "for":
                    want = R.const(0)
                    for e in w.events:
                        if e[0] == "range" and e[1] == "read":
                            want = want + R.atom(e[4])
                    pv.prove_eq_real(m, lab + ": the sum is returned", r, want)
                pv.cover("sequential")
            check.explore(prog, pv, run, {})
        C.task("%s 2^%d" % (name, p), fn, [df["_q"]])
    for p in (POWERS if check.TIER == "thorough" else POWERS[:24:1]):
        one(inc_df, "par_for_inc", p, "for")
    for p in ((0, 1, 5, 9, 11, 14, 20) if check.TIER != "thorough" else POWERS):
        one(norm_df, "par_norm", p, "norm")
        one(exact_df, "par_norm_exact", p, "exact")
    helpers(prog)


# ---- functions over par_for_inc's contract
class Arr2:
    """the caller's container of n values"""
    def __init__(self, name, n):
        self.name, self.n = name, n
        self.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(64))

    def clone(self):
        return self

    def lib_method(self, m, name, args, fr, n):
        if name == "size":
            return self.n
        if name in ("begin", "cbegin"):
            return Iter(self, z3.BitVecVal(0, 64))
        if name in ("operator[]", "at"):
            return Cell(self.f(b64(m.rv(args[0], fr))))
        raise I.Unsupported("container::%s" % name)


class Iter:
    def __init__(self, c, i):
        self.c, self.i = c, i

    def clone(self):
        return Iter(self.c, self.i)

    def lib_operator(self, m, name, refs, v):
        if name == "operator*":
            return Cell(self.c.f(self.i))
        if name == "operator+":
            return Iter(self.c, self.i + b64(v[1]))
        if name in ("operator+=",):
            self.i = self.i + b64(v[1])
            return refs[0]
        raise I.Unsupported("iterator %s" % name)


def helpers(prog):
    fnv = NativeFn(lambda *a: None, "fn")

    def setup(pv, m, log):
        def c_inc(m2, obj, refs, n):
            v = [r.get() if isinstance(r, I.Ref) else r for r in refs]
            log.append((b64(v[0]), b64(v[1]), v[2], v[3]))
            # the increment function is used while the call lasts: evaluate it here, at an arbitrary index
            k = BV("k")
            out = m2.call_value(v[2], [Cell(k)])
            log[-1] += (b64(out.get() if isinstance(out, I.Ref) else out),)
            if log[0] is log[-1]:
                m2.evalinc = lambda t: b64(deref(m2.call_value(v[2], [Cell(t)])))
                m2.inc_at = {}
                for t in m2.want_inc:
                    m2.inc_at[str(t)] = m2.evalinc(t)
            return None
        m.contracts[PF + "::par_for_inc"] = c_inc
        m.want_inc = []
        o = engine_obj(m, 11, BV("numCores", 32))

        def adv(m2, refs, v, n):
            it = refs[0].get()
            if not isinstance(it, Iter):
                raise I.Unsupported("advance")
            refs[0].set(Iter(it.c, it.i + b64(v[1])))
            return None
        m.std.f_advance = adv
        return o

    def deref(x):
        return x.get() if isinstance(x, I.Ref) else x

    def bij(pv, m, lab, log, member, collapse, desc):
        """{inc(begin + t) : t < count} is exactly {v : member(v)}, each once; collapse is the inverse"""
        if len(log) != 1 or log[0][3] is not fnv:
            if m.path.sat():
                pv.fail(lab + ": one loop over the specified indices with the caller's body", "%d loops" % len(log))
            return
        begin, count, inc, f, at_k = log[0]
        k, v = BV("k"), BV("v")
        m.path.assume(z3.And(ULE(begin, k), ULT(k - begin, count)))
        pv.prove(m, lab + ": every index visited is one of " + desc, member(at_k))
        pv.prove(m, lab + ": no index is visited twice", collapse(at_k) == k)

    def surj(pv, m, lab, log, member, v):
        begin, count, inc, f, at_k = log[0]
        m.path.assume(member(v))
        c = m.want_inc[0]
        pv.prove(m, lab + ": every specified index is in the range of the loop", z3.And(UGE(c, begin), ULT(c - begin, count)))
        pv.prove(m, lab + ": every specified index is visited", m.inc_at[str(c)] == v)

    def task(name, df, mk, desc):
        def fn(pv):
            for half in (0, 1):
                def run(m):
                    log = []
                    o = setup(pv, m, log)
                    vals, pre, member, collapse = mk(m)
                    m.path.assume(pre)
                    v = BV("v")
                    if half:
                        m.want_inc.append(z3.simplify(collapse(v)))
                        m.path.assume(member(v))
                    m.call_def(df, vals + [Cell(fnv)], o)
                    if half:
                        if len(log) == 1:
                            surj(pv, m, name, log, member, v)
                    else:
                        bij(pv, m, name, log, member, collapse, desc)
                    pv.cover(name)
                check.explore(prog, pv, run, {})
        C.task(name, fn, [df["_q"]])

    def m_for(m):
        b, e = BV("begin"), BV("end")
        return [Cell(b), Cell(e)], z3.And(ULE(b, e), ULT(e, 1 << 62)), lambda v: z3.And(ULE(b, v), ULT(v, e)), lambda v: v
    task("par_for", prog.func(PF + "::par_for")[0], m_for, "begin to end - 1")

    def m_skip(m):
        s, w, n = BV("s", 8), BV("w", 8), BV("n", 8)
        one = z3.BitVecVal(1, 64)
        S, W = one << z3.ZeroExt(56, s), z3.ZeroExt(56, w)
        end = one << z3.ZeroExt(56, n)
        pre = z3.And(ULE(n, 60), ULE(s, n), ULE(w, n), ULE(s + w, n))
        low = S - 1
        gap = low ^ ((S << W) - 1)
        return [Cell(z3.BitVecVal(0, 64)), Cell(end), Cell(S), Cell(w)], pre, lambda v: z3.And(ULT(v, end), (v & gap) == 0), lambda v: (v & low) | (z3.LShR(v, W) & ~low)
    task("par_for_skip", prog.func(PF + "::par_for_skip")[0], m_skip, "those below the end with the skipped bits 0")

    def m_mask(L):
        def mk(m):
            ms = [BV("m%d" % i) for i in range(L)]
            n = BV("n", 8)
            end = z3.BitVecVal(1, 64) << z3.ZeroExt(56, n)
            pre = [ULE(n, 60)]
            for i, x in enumerate(ms):
                pre += [x != 0, (x & (x - 1)) == 0, ULT(x, end)]
                if i:
                    pre.append(ULT(ms[i - 1], x))
            allm = z3.BitVecVal(0, 64)
            for x in ms:
                allm = allm | x

            def collapse(v):
                for x in reversed(ms):
                    v = (v & (x - 1)) | (z3.LShR(v & ~((x << 1) - 1), z3.BitVecVal(1, 64)))
                return v
            return [Cell(z3.BitVecVal(0, 64)), Cell(end), Cell(I.Vec(list(ms)))], z3.And(pre), lambda v: z3.And(ULT(v, end), (v & allm) == 0), collapse
        return mk
    for L in range(0, 5 if check.TIER != "thorough" else 7):
        task("par_for_mask %d" % L, prog.func(PF + "::par_for_mask")[0], m_mask(L), "those below the end with the mask bits 0")

    for k, df in enumerate(prog.func(PF + "::par_for_set")):
        def run_set(pv, df=df, k=k):
            def run(m):
                log = []
                o = setup(pv, m, log)
                a = Arr2("ELEM", BV("size"))
                m.path.assume(ULT(a.n, 1 << 60))
                m.call_def(df, [Cell(a), Cell(fnv)], o)
                lab = "par_for_set %d" % k
                if len(log) != 1 or log[0][3] is not fnv:
                    pv.fail(lab + ": one loop over the set with the caller's body", "%d loops" % len(log))
                    return
                b, c, _, _, at = log[0]
                pv.prove(m, lab + ": as many visits as elements", c == a.n)
                pv.prove(m, lab + ": visit k is element k", at == a.f(BV("k") - b))
                pv.prove(m, lab + ": from the first", b == 0)
            check.explore(prog, pv, run, {})
        C.task("par_for_set %d" % k, run_set, [df["_q"]])

    def run_sc(pv):
        df = prog.func(PF + "::par_for_sparse_compose")[0]

        def run(m):
            log = []
            o = setup(pv, m, log)
            lo, hi = Arr2("LOW", BV("nl")), Arr2("HIGH", BV("nh"))
            hs = BV("hs", 8)
            m.path.assume(z3.And(ULT(lo.n, 1 << 6), ULT(hi.n, 1 << 6), ULT(hs, 60), lo.n != 0))
            m.call_def(df, [Cell(lo), Cell(hi), Cell(hs), Cell(fnv)], o)
            lab = "par_for_sparse_compose"
            if len(log) != 1 or log[0][3] is not fnv:
                pv.fail(lab + ": one loop over the pairs with the caller's body", "%d loops" % len(log))
                return
            b, c, _, _, at = log[0]
            k = BV("k")
            pv.prove(m, lab + ": as many visits as pairs", c == lo.n * hi.n)
            pv.prove(m, lab + ": from the first", b == 0)
            pv.prove(m, lab + ": visit k is the pair (k mod size, k div size)", at == (lo.f(z3.URem(k, lo.n)) | (hi.f(z3.UDiv(k - z3.URem(k, lo.n), lo.n)) << z3.ZeroExt(56, hs))))
        check.explore(prog, pv, run, {})
    C.task("par_for_sparse_compose", run_sc, [PF + "::par_for_sparse_compose"])

    def run_scl(pv):
        df = prog.func(PF + "::SetConcurrencyLevel")[0]
        for p in range(0, 31, 3):
            def run(m):
                cores = BV("numCores", 32)
                o = engine_obj(m, p, cores)
                num = BV("num", 32)
                m.path.assume(z3.And(ULT(num, 1 << 20), cores != 0))
                m.contracts["Qrack::log2Ocl"] = lambda m2, ob, r, n: log2(m2, b64(deref(r[0])))
                m.call_def(df, [num], o)
                pv.prove(m, "SetConcurrencyLevel: the number of workers is the one given, at least 1", deref(o.f["numCores"]) == z3.If(num == 0, z3.BitVecVal(1, 32), num))
            check.explore(prog, pv, run, {})

    def log2(m, v):
        pvw = BV(m.path.fresh("log"), 8)
        m.path.assume(z3.Implies(v != 0, z3.And(ULT(pvw, 64), z3.LShR(v, z3.ZeroExt(56, pvw)) == 1)))
        return pvw
    C.task("SetConcurrencyLevel", run_scl, [PF + "::SetConcurrencyLevel"])


if __name__ == "__main__":
    C.run(prepare)
