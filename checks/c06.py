import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import astload, interp as I, check, loops
from dv.interp import Obj, Vec, Cell, Ptr, R
from dv.astload import params_of, qtype

C = check.Check("C06")
C.harness = "bigint.cpp"
CONFIGS = [(7, False), (7, True), (8, False), (8, True), (9, False), (9, True)]


def build(scratch):
    """the real sources compiled at every configuration, one executable each, run in turn"""
    import subprocess, re
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        pw, no128 = k
        d = os.path.join(scratch.dir, "hcfg_%d_%d" % (pw, no128))
        shutil.copytree(scratch.cfg, d)
        p = os.path.join(d, "common", "config.h")
        s = open(p).read()
        open(p, "w").write(re.sub(r"#define QBCAPPOW \d+", "#define QBCAPPOW %d" % pw, s))
        exe = os.path.join(scratch.dir, "h_%d_%d" % (pw, no128))
        cmd = ["g++", "-O1", "-g0", "-std=gnu++14", "-mrdrnd", "-w", "-DNDEBUG", "-DPARTS=%d" % len(CONFIGS)] + (["-U__SIZEOF_INT128__"] if no128 else [])
        cmd += ["-I" + d, "-I" + d + "/common", "-I" + check.REPO + "/include", "-I" + check.REPO + "/include/common", "-I" + os.path.join(check.VERIF, "replay"),
                os.path.join(check.VERIF, "replay", C.harness), check.REPO + "/src/common/functions.cpp", check.REPO + "/src/common/big_integer.cpp", "-o", exe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("harness build failed: " + r.stdout.decode("utf-8", "replace")[-2000:])
        return exe
    with ThreadPoolExecutor(6) as ex:
        exes = list(ex.map(one, CONFIGS))
    sh = os.path.join(scratch.dir, "h_all")
    open(sh, "w").write("#!/bin/sh\nrc=0\nfor e in %s; do \"$e\" \"$@\" || rc=$?; done\nexit $rc\n" % " ".join(exes))
    os.chmod(sh, 0o755)
    return sh


C.builder = build
C.harness_time = {"quick": 18, "thorough": 180}
QUICK = [("7/64", 7, True), ("8/128", 8, False), ("8/64", 8, True)]
THOROUGH = QUICK + [("9/128", 9, False), ("9/64", 9, True), ("10/128", 10, False)]


class Cfg:
    """One configuration of the type: width 2^pow bits in words of wb bits."""
    def __init__(self, name, pw, no128, cfg):
        self.name, self.w, self.wb = name, 1 << pw, 64 if no128 else 128
        self.n = self.w // self.wb
        self.hb = self.wb // 2
        d = os.path.join(C.scratch.dir, "cfg_%s" % name.replace("/", "_"))
        shutil.copytree(cfg, d)
        p = os.path.join(d, "common", "config.h")
        s = open(p).read()
        import re
        s2 = re.sub(r"#define QBCAPPOW \d+", "#define QBCAPPOW %d" % pw, s)
        open(p, "w").write(s2)
        self.dir = d
        self.extra = ("-U__SIZEOF_INT128__",) if no128 else ()
        self.prog = astload.Program(["src/common/big_integer.cpp"], d, filt=None, ns="", extra=self.extra)

    def num(self, name):
        """an arbitrary operand: (object, its value)"""
        ws = [z3.BitVec("%s%d" % (name, i), self.wb) for i in range(self.n)]
        return self.obj(ws), self.cat(ws)

    def obj(self, ws):
        return Obj("Qrack::BigInteger", {"bits": Cell(Vec(list(ws)))})

    def ofval(self, v):
        # kept as plain extracts of one term, so that reading all words back gives the term itself
        v = z3.simplify(v)
        f = z3.simplify if z3.is_bv_value(v) else (lambda x: x)
        return [f(z3.Extract(self.wb * (i + 1) - 1, self.wb * i, v)) for i in range(self.n)]

    def cat(self, ws):
        ws = [I.bv(x, self.wb) for x in ws]
        if all(z3.is_app_of(x, z3.Z3_OP_EXTRACT) and x.params() == [self.wb * (i + 1) - 1, self.wb * i] for i, x in enumerate(ws)):
            t = ws[0].arg(0)
            if t.size() == self.w and all(x.arg(0).eq(t) for x in ws):
                return t
        return z3.simplify(z3.Concat(*reversed(ws))) if len(ws) > 1 else ws[0]

    def val(self, o):
        if isinstance(o, I.Ref):
            o = o.get()
        if isinstance(o, Ptr):
            o = o.deref().get()
        return self.cat(o.f["bits"].get().a)

    def K(self, v):
        return z3.BitVecVal(v, self.w)

    def zx(self, v, w=None):
        w = w or self.w
        return v if v.size() == w else (z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v))

    def fn(self, name, *types):
        """definition of a function by name and parameter kinds: B big integer, W word, H half word, P pointer"""
        out = []
        for d in self.prog.func(name):
            ks = "".join(self.kind(qtype(p)) for p in params_of(d))
            if not types or ks == types[0]:
                out.append(d)
        if len(out) != 1:
            raise I.Unsupported("%d definitions of %s %s" % (len(out), name, types))
        return out[0]

    def kind(self, t):
        k = I.ctype(t)
        if k[0] == "ref":
            k = I.ctype(k[1])
        if k[0] == "ptr":
            b = I.ctype(k[1])
            return "P" if b[0] == "class" else "p"
        if k[0] == "class":
            return "B"
        if k[0] == "int":
            return "W" if k[1] == self.wb else ("H" if k[1] == self.hb else "i")
        return "?"


def chk(c, name, types, mk, post, contracts=None, specs=None, domain=None, label="", setup=None, funcs=None):
    """proof task for one function: mk(m) -> (args, ghosts); post(m, pv, result, args, ghosts)"""
    nm = "%s %s%s %s" % (name, types, label, c.name)

    def task(pv):
        df = c.fn(name, types)

        def run(m):
            m.MAXSYM = c.w + 2
            m.check_shift = True
            m.ubs = []
            if specs:
                loops.install(m, pv, specs(c), "")
            args, g = mk(m)
            if setup:
                setup(m, args, g)
            if domain:
                m.path.assume(domain(m, args, g))
            r = m.call_def(df, args)
            if isinstance(r, I.Ref):
                r = r.get()
            post(m, pv, r, args, g)
            if m.ubs:
                pv.fail(nm + ": no undefined arithmetic", "; ".join(m.ubs[:3]))
            else:
                pv.prove(m, nm + ": no undefined arithmetic", True)
        check.explore(c.prog, pv, run, contracts=contracts(c, pv) if contracts else None, max_paths=6000)
    C.task(nm, task, [name + " [" + types + "]"])


# ------------------------------------------------------------------ callee contracts (each proved by its own task)
def contracts(*names):
    def mk(c, pv):
        tab = {}

        def log2(m, obj, refs, n):
            v = c.val(refs[0])
            L = z3.BitVec(m.path.fresh("log2"), 32)
            m.path.assume(z3.And(L >= 0, L < c.w))
            m.path.assume(z3.If(v == 0, L == 0, z3.LShR(v, c.zx(L)) == 1))
            return L

        def shl(m, obj, refs, n):
            v, s = c.val(refs[0]), refs[1].get()
            if isinstance(s, int):
                if not 0 <= s < c.w:
                    raise I.Unsupported("shift by %d" % s)
                return c.obj(c.ofval(z3.simplify(v << c.K(s))))
            pv.prove(m, "operator<<: the shift count is below the width", z3.ULT(s, z3.BitVecVal(c.w, s.size())))
            return c.obj(c.ofval(v << c.zx(s)))

        def cmp(m, obj, refs, n):
            a, b = c.val(refs[0]), c.val(refs[1])
            return z3.simplify(z3.If(z3.UGT(a, b), z3.BitVecVal(1, 32), z3.If(z3.ULT(a, b), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32))))

        def cmp0(m, obj, refs, n):
            return z3.simplify(z3.If(c.val(refs[0]) == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))

        def setv(p, v):
            o = p.get().deref().get()
            o.f["bits"].set(Vec(c.ofval(z3.simplify(v))))

        def addip(m, obj, refs, n):
            setv(refs[0], c.val(refs[0]) + c.val(refs[1]))

        def subip(m, obj, refs, n):
            setv(refs[0], c.val(refs[0]) - c.val(refs[1]))

        def incr(m, obj, refs, n):
            setv(refs[0], c.val(refs[0]) + c.zx(I.bv(refs[1].get(), c.wb)))
        full = {"bi_log2": log2, "operator<<": shl, "bi_compare": cmp, "bi_compare_0": cmp0, "bi_add_ip": addip, "bi_sub_ip": subip,
                "bi_increment": incr}
        for k in names:
            tab[k] = full[k]
        return tab
    return mk


def two(c):
    def mk(m):
        a, va = c.num("a")
        b, vb = c.num("b")
        return [a, b], (va, vb)
    return mk


def ptrtwo(c):
    def mk(m):
        a, va = c.num("a")
        b, vb = c.num("b")
        return [Ptr(a), b], (va, vb, a)
    return mk


def register(c):
    W, wb, n = c.w, c.wb, c.n

    def const_args(pv, m, nm, pairs):
        for i, (o, v) in enumerate(pairs):
            pv.prove(m, nm + ": operand %d is not modified" % i, c.val(o) == v)

    def binop(name, f):
        def post(m, pv, r, args, g):
            pv.prove(m, "%s %s: result" % (name, c.name), c.val(r) == f(*g[:2]))
            const_args(pv, m, "%s %s" % (name, c.name), list(zip(args, g)))
        chk(c, name, "BB", two(c), post)
    binop("operator+", lambda a, b: a + b)
    binop("operator-", lambda a, b: a - b)
    binop("operator&", lambda a, b: a & b)
    binop("operator|", lambda a, b: a | b)
    binop("operator^", lambda a, b: a ^ b)

    def ipop(name, f):
        def post(m, pv, r, args, g):
            pv.prove(m, "%s %s: result" % (name, c.name), c.val(g[2]) == f(g[0], g[1]))
            const_args(pv, m, "%s %s" % (name, c.name), [(args[1], g[1])])
        chk(c, name, "PB", ptrtwo(c), post)
    ipop("bi_add_ip", lambda a, b: a + b)
    ipop("bi_sub_ip", lambda a, b: a - b)
    ipop("bi_and_ip", lambda a, b: a & b)
    ipop("bi_or_ip", lambda a, b: a | b)
    ipop("bi_xor_ip", lambda a, b: a ^ b)

    # unary
    def un(name, types, f):
        def mk(m):
            a, va = c.num("a")
            return [a if types == "B" else Ptr(a)], (va, a)

        def post(m, pv, r, args, g):
            out = r if types == "B" else g[1]
            pv.prove(m, "%s %s: result" % (name, c.name), c.val(out) == f(g[0]))
        chk(c, name, types, mk, post)
    un("operator~", "B", lambda a: ~a)
    un("bi_not_ip", "P", lambda a: ~a)
    un("bi_copy", "B", lambda a: a)
    un("bi_set_0", "P", lambda a: c.K(0))

    def pp(name, f):           # ++a, --a : returns the new value
        def mk(m):
            a, va = c.num("a")
            return [a], (va, a)

        def post(m, pv, r, args, g):
            pv.prove(m, "%s %s: returned value" % (name, c.name), c.val(r) == f(g[0]))
            pv.prove(m, "%s %s: new value" % (name, c.name), c.val(g[1]) == f(g[0]))
        chk(c, name, "B", mk, post)
    pp("operator++", lambda a: a + 1)
    pp("operator--", lambda a: a - 1)

    def mkw(name, f):          # bi_increment, bi_decrement
        def mk(m):
            a, va = c.num("a")
            v = z3.BitVec("v", wb)
            return [Ptr(a), v], (va, v, a)

        def post(m, pv, r, args, g):
            pv.prove(m, "%s %s: result" % (name, c.name), c.val(g[2]) == f(g[0], c.zx(g[1])))
        chk(c, name, "PW", mk, post)
    mkw("bi_increment", lambda a, b: a + b)
    mkw("bi_decrement", lambda a, b: a - b)

    # word shifts and bit shifts: every count below the width (a count of the width or more is outside the domain)
    def wsh(name, types, left):
        def mk(m):
            a, va = c.num("a")
            s = z3.BitVec("s", wb)
            m.path.assume(z3.ULT(s, n))
            for k in range(n - 1):       # case split on the word count
                if m.branch(s == k):
                    return [a if types == "BW" else Ptr(a), k], (va, c.K(k * wb), a)
            return [a if types == "BW" else Ptr(a), n - 1], (va, c.K((n - 1) * wb), a)

        def post(m, pv, r, args, g):
            out = r if types == "BW" else g[2]
            pv.prove(m, "%s %s: result" % (name, c.name), c.val(out) == (g[0] << g[1] if left else z3.LShR(g[0], g[1])))
            if types == "BW":
                pv.prove(m, "%s %s: operand is not modified" % (name, c.name), c.val(g[2]) == g[0])
        chk(c, name, types, mk, post)
    wsh("bi_lshift_word", "BW", True)
    wsh("bi_lshift_word_ip", "PW", True)
    wsh("bi_rshift_word", "BW", False)
    wsh("bi_rshift_word_ip", "PW", False)

    def sh(name, types, left):
        def mk(m):
            a, va = c.num("a")
            lo = z3.BitVec("s", wb)
            m.path.assume(z3.ULT(lo, wb))
            for k in range(n):
                if k == n - 1 or m.path.choose(2) == 0:
                    s = z3.simplify(lo + k * wb)
                    break
            # the bits above the word index are zero: keep that visible to the interpreter
            return [a if types == "BW" else Ptr(a), s], (va, s, a, k)

        def post(m, pv, r, args, g):
            out = r if types == "BW" else g[2]
            s = c.zx(g[1])
            pv.prove(m, "%s %s: result" % (name, c.name), c.val(out) == (g[0] << s if left else z3.LShR(g[0], s)))
            if types == "BW":
                pv.prove(m, "%s %s: operand is not modified" % (name, c.name), c.val(g[2]) == g[0])
        # word index and remainder are computed from the count: case split on the count's word index
        chk(c, name, types, mk, post, setup=None, contracts=None)
    sh("operator<<", "BW", True)
    sh("bi_lshift_ip", "PW", True)
    sh("operator>>", "BW", False)
    sh("bi_rshift_ip", "PW", False)

    # comparisons
    def cmpf(name, f, boolean=False):
        def post(m, pv, r, args, g):
            x = f(*g[:2])
            if boolean:
                pv.prove(m, "%s %s: result" % (name, c.name), I.to_bool(r) == x)
            else:
                pv.prove(m, "%s %s: result" % (name, c.name), I.bv(r, 32) == x)
        chk(c, name, "BB", two(c), post)
    three = lambda a, b: z3.If(z3.UGT(a, b), z3.BitVecVal(1, 32), z3.If(z3.ULT(a, b), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32)))
    cmpf("bi_compare", three)
    for nm, f in (("operator==", lambda a, b: a == b), ("operator<", z3.ULT), ("operator<=", z3.ULE), ("operator>", z3.UGT), ("operator>=", z3.UGE)):
        cmpf(nm, f, True)

    def one(m):
        a, va = c.num("a")
        return [a], (va,)

    def p0(m, pv, r, args, g):
        pv.prove(m, "bi_compare_0 %s: result" % c.name, I.bv(r, 32) == z3.If(g[0] == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
    chk(c, "bi_compare_0", "B", one, p0)

    def p1(m, pv, r, args, g):
        pv.prove(m, "bi_compare_1 %s: result" % c.name, I.bv(r, 32) == three(g[0], c.K(1)))
    chk(c, "bi_compare_1", "B", one, p1)

    def pa(m, pv, r, args, g):
        pv.prove(m, "bi_and_1 %s: result" % c.name, I.bv(r, 32) == z3.ZeroExt(31, z3.Extract(0, 0, g[0])))
    chk(c, "bi_and_1", "B", one, pa)

    # log2: invariant p == a >> (pw + 1)
    def slog(c):
        def havoc(env, g0, k):
            p = env.get("p")
            p.f["bits"].set(Vec([z3.BitVec(env.m.path.fresh("p"), wb) for _ in range(n)]))
            env.set("pw", z3.BitVec(env.m.path.fresh("pw"), 32))

        def inv(env, g, k):
            a = c.val(env.get("n"))
            pw = I.bv(env.get("pw"), 32)
            p = c.val(env.get("p"))
            return [("p is the operand shifted by pw + 1", z3.And(p == z3.LShR(z3.LShR(a, c.zx(pw)), 1), pw >= 0, pw < W, z3.Or(pw == 0, z3.LShR(a, c.zx(pw)) != 0)))]
        return [loops.LoopSpec("bi_log2", 0, havoc, inv)]

    def pl(m, pv, r, args, g):
        r = I.bv(r, 32)
        pv.prove(m, "bi_log2 %s: result" % c.name, z3.If(g[0] == 0, r == 0, z3.And(r >= 0, r < W, z3.LShR(g[0], c.zx(r)) == 1)))
    chk(c, "bi_log2", "B", one, pl, specs=slog)

    # conversion to double (real arithmetic: exact)
    def ptd(m, pv, r, args, g):
        pv.prove_eq_real(m, "bi_to_double %s: result" % c.name, r, g[1])

    def mktd(m):
        # the words are abstract naturals here: the claim is about the positional weights only
        a, va = c.num("a")
        s = R.const(0)
        for i, x in enumerate(a.f["bits"].get().a):
            s = s + m.std.int_to_float(x, ("int", wb, False)) * R.const(2 ** (wb * i))
        # a zero word may be skipped
        for x in a.f["bits"].get().a:
            at = m.std.int_to_float(x, ("int", wb, False))
            m.path.assume(z3.Implies(x == 0, at.z3() == 0))
        return [a], (va, s)
    chk(c, "bi_to_double", "B", mktd, ptd)

    # construction, copying, loading, conversion
    def ctor(pv):
        for df in c.prog.func("BigInteger::BigInteger") or c.prog.func("BigInteger::BigInteger"):
            ps = params_of(df)

            def run(m, df=df, ps=ps):
                o = Obj("Qrack::BigInteger", {"bits": Cell(Vec([z3.BitVec("junk%d" % i, wb) for i in range(n)]))})
                if not ps:
                    pv.prove(m, "default construction leaves the words unspecified", True)
                    return
                if c.kind(qtype(ps[0])) == "B":
                    a, va = c.num("a")
                    arg, want = a, va
                else:
                    v = z3.BitVec("v", wb)
                    arg, want = v, c.zx(v)
                m.run_ctor(o, df, [], None, [arg])
                pv.prove(m, "construction %s %s" % (df["type"]["qualType"], c.name), c.val(o) == want)
            check.explore(c.prog, pv, run)
        for q in [q for q in c.prog.tus[0].funcs if q.startswith("BigInteger::operator ")]:
            for df in c.prog.func(q):
                def run(m, df=df, q=q):
                    a, va = c.num("a")
                    r = m.call_def(df, [], a)
                    rt = I.ctype(df["type"]["qualType"].split("(")[0].strip())
                    w = {"unsigned __int128": 128, "uint64_t": 64, "unsigned long": 64, "uint32_t": 32, "unsigned int": 32}[q.split("operator ")[1]]
                    pv.prove(m, "conversion %s %s" % (q, c.name), I.bv(r, w) == z3.Extract(w - 1, 0, va))
                check.explore(c.prog, pv, run)
    C.task("construction and conversion " + c.name, ctor, ["BigInteger::BigInteger", "BigInteger::operator uint64_t"])

    def cpip(m):
        a, va = c.num("a")
        b, vb = c.num("b")
        return [a, Ptr(b)], (va, b)

    def pcp(m, pv, r, args, g):
        pv.prove(m, "bi_copy_ip %s: copy" % c.name, c.val(g[1]) == g[0])
        pv.prove(m, "bi_copy_ip %s: operand is not modified" % c.name, c.val(args[0]) == g[0])
    chk(c, "bi_copy_ip", "BP", cpip, pcp)

    # ---------------- product with a half word
    MUL = z3.Function("mulhalf", z3.BitVecSort(wb), z3.BitVecSort(wb), z3.BitVecSort(wb))
    H = c.hb

    def mulhook(m):
        def h(op, x, y, w, sg):
            if op == "*" and w == wb:
                # product of two half-range values: opaque, bounded by (2^h - 1)^2 (lemma)
                t = MUL(x, y)
                ok = z3.And(z3.LShR(x, H) == 0, z3.LShR(y, H) == 0)
                m.path.assume(z3.Implies(ok, z3.ULE(t, z3.BitVecVal((2 ** H - 1) ** 2, wb))))
                m.path.assume(z3.Implies(z3.Or(x == 0, y == 0), t == 0))
                return t
            return None
        m.std.arith_hook = h

    def mkh(m):
        mulhook(m)
        a, va = c.num("a")
        r = z3.BitVec("r", H)
        return [a, r], (va, r)

    def ph(m, pv, r, args, g):
        t = c.K(0)
        x = z3.ZeroExt(wb - H, g[1])
        for i in range(2 * n):
            hw = z3.simplify(z3.ZeroExt(wb - H, z3.Extract(H * (i + 1) - 1, H * i, g[0])))
            # mul is written with either operand order
            m.path.assume(MUL(x, hw) == MUL(hw, x))
            m.path.assume(z3.ULE(MUL(x, hw), z3.BitVecVal((2 ** H - 1) ** 2, wb)))
            t = t + (c.zx(MUL(x, hw)) << c.K(H * i))
        pv.prove(m, "operator* (half word) %s: sum of the partial products" % c.name, c.val(r) == z3.simplify(t))
        const_args(pv, m, "operator* (half word) %s" % c.name, [(args[0], g[0])])
    chk(c, "operator*", "BH", mkh, ph)

    # ---------------- full product: shift-and-add
    # SHL(v, s) is the value of operator<< (its contract); ACC(i) the sum of SHL(right, k) over the set bits k < i of left
    SHL = z3.Function("shl", z3.BitVecSort(W), z3.BitVecSort(32), z3.BitVecSort(W))
    ACC = z3.Function("acc", z3.BitVecSort(32), z3.BitVecSort(W))
    POW = z3.Function("pow2", z3.BitVecSort(32), z3.BitVecSort(W))
    EX = z3.Function("lossless", z3.BitVecSort(W), z3.BitVecSort(32), z3.BoolSort())

    def shl_abs(pv):
        def shl(m, obj, refs, nd):
            v, s = c.val(refs[0]), refs[1].get()
            s = I.bv(s, wb)
            pv.prove(m, "operator<<: the shift count is below the width", z3.ULT(s, z3.BitVecVal(W, wb)))
            s = z3.simplify(z3.Extract(31, 0, s))
            if z3.is_bv_value(v) and v.as_long() == 1:
                return c.obj(c.ofval(POW(s)))
            t = SHL(v, s)
            for k in range(1, n):        # lemma: a shift by k words or more leaves the low k words zero
                m.path.assume(z3.Implies(z3.UGE(s, z3.BitVecVal(k * wb, 32)), z3.Extract(k * wb - 1, 0, t) == 0))
            return c.obj(c.ofval(t))
        return shl

    def shl_lemmas(pv):
        m = I.Machine(c.prog)
        v, s = z3.BitVec("v", W), z3.BitVec("s", 32)
        for k in range(1, n):
            pv.prove(m, "lemma %s: a shift by %d words or more leaves the low words zero" % (c.name, k),
                     z3.Implies(z3.And(z3.UGE(s, z3.BitVecVal(k * wb, 32)), z3.ULT(s, z3.BitVecVal(W, 32))), z3.Extract(k * wb - 1, 0, v << c.zx(s)) == 0))
        i = z3.BitVec("i", 32)
        for k in range(n):
            w_ = z3.Extract(wb * (k + 1) - 1, wb * k, v)
            pv.prove(m, "lemma %s: bit i of the value is bit i %% word size of word %d" % (c.name, k), z3.Implies(
                z3.And(z3.UGE(i, z3.BitVecVal(k * wb, 32)), z3.ULT(i, z3.BitVecVal((k + 1) * wb, 32))),
                z3.Extract(0, 0, z3.LShR(v, c.zx(i))) == z3.Extract(0, 0, z3.LShR(w_, c.zx(i - k * wb, wb)))))
        p_, G = z3.BitVec("p", W), z3.BitVec("G", W)
        pv.prove(m, "lemma %s: subtracting a nonzero p <= G decreases" % c.name, z3.Implies(z3.And(z3.ULE(p_, G), p_ != 0), z3.ULT(G - p_, G)))
    C.task("shift lemmas " + c.name, shl_lemmas, [])
    BIT = z3.Function("bit_of_left", z3.BitVecSort(32), z3.BitVecSort(1))

    def smul(c):
        def havoc(env, g0, k):
            i = z3.BitVec(env.m.path.fresh("i"), 32)
            env.set("i", i)
            env.get("result").f["bits"].set(Vec(c.ofval(z3.BitVec(env.m.path.fresh("acc"), W))))
            env.m.mul_i = i
            return {"i": i}

        def inv(env, g, k):
            i = I.bv(env.get("i"), 32)
            v = c.val(env.get("result"))
            if g is not None and k == "after":
                return [("i advances by one and stays in range", z3.And(i == g["i"] + 1, i >= 0, i <= W))]
            out = [("i is a bit position", z3.And(i >= 0, i <= W))]
            if g is None:
                env.m.path.assume(ACC(z3.BitVecVal(0, 32)) == 0)
            else:
                # contract-level meaning of the words of left: bit i of the value (lemma above)
                a = c.val(env.get("left"))
                for k in range(n):
                    w_ = z3.Extract(wb * (k + 1) - 1, wb * k, a)
                    env.m.path.assume(z3.Implies(z3.And(z3.UGE(i, z3.BitVecVal(k * wb, 32)), z3.ULT(i, z3.BitVecVal((k + 1) * wb, 32))),
                                                 BIT(i) == z3.Extract(0, 0, z3.LShR(w_, c.zx(i - k * wb, wb)))))
            out.append(("result is the sum of the shifted copies of right so far", v == ACC(i)))
            return out

        def step(env, g, k):
            i = g["i"]
            b = c.val(env.get("right"))
            v = c.val(env.get("result"))
            nxt = ACC(i) + z3.If(BIT(i) == 1, SHL(b, i), c.K(0))
            env.m.path.assume(ACC(i + 1) == nxt)            # definition of ACC
            return [("result gains right << i exactly when bit i of left is set", v == nxt)]
        return [loops.LoopSpec("operator*", 0, havoc, inv, step)]

    def pm(m, pv, r, args, g):
        v = c.val(r)
        a, b = g[0], g[1]
        const_args(pv, m, "operator* %s" % c.name, list(zip(args, g)))
        i = getattr(m, "mul_i", None)
        if i is None:
            pv.prove(m, "operator* %s: shortcut" % c.name, z3.And(b == 1, v == a))
        else:
            pv.prove(m, "operator* %s: returns the accumulated sum" % c.name, v == ACC(i))
            pv.prove(m, "operator* %s: nothing is left to add where it stops" % c.name, z3.Or(i == W, SHL(b, i) == 0))

    def cmul(c, pv):
        t = contracts("bi_log2", "bi_compare_0")(c, pv)
        t["operator<<"] = shl_abs(pv)
        return t
    chk(c, "operator*", "BB", two(c), pm, contracts=cmul, specs=smul)

    # ---------------- division by a half word
    DIV = z3.Function("udiv_", z3.BitVecSort(wb), z3.BitVecSort(wb), z3.BitVecSort(wb))
    MOD = z3.Function("umod_", z3.BitVecSort(wb), z3.BitVecSort(wb), z3.BitVecSort(wb))

    def divhook(m):
        def h(op, x, y, w, sg):
            if op not in ("/", "%") or w != wb:
                return None
            # integer facts (lemma tasks): remainder below the divisor; quotient below 2^h when the high half is below the divisor
            m.path.assume(z3.ULT(MOD(x, y), y))
            m.path.assume(z3.Implies(z3.ULT(z3.LShR(x, H), y), z3.LShR(DIV(x, y), H) == 0))
            return DIV(x, y) if op == "/" else MOD(x, y)
        m.std.arith_hook = h

    def small(hasq, hasr):
        def mk(m):
            divhook(m)
            a, va = c.num("a")
            r = z3.BitVec("r", H)
            m.path.assume(r != 0)
            q, _ = c.num("qjunk")
            rem = Cell(z3.BitVec("remjunk", H))
            return [a, r, Ptr(q) if hasq else None, Ptr(rem) if hasr else None], (va, r, q, rem)

        def post(m, pv, r, args, g):
            x = z3.ZeroExt(wb - H, g[1])
            carry = z3.BitVecVal(0, wb)
            quo = c.K(0)
            for i in reversed(range(2 * n)):
                hw = z3.ZeroExt(wb - H, z3.Extract(H * (i + 1) - 1, H * i, g[0]))
                cur = z3.simplify((carry << H) | hw)
                quo = quo | (c.zx(DIV(cur, x)) << c.K(H * i))
                m.path.assume(z3.ULT(MOD(cur, x), x))
                m.path.assume(z3.Implies(z3.ULT(z3.LShR(cur, H), x), z3.LShR(DIV(cur, x), H) == 0))
                carry = MOD(cur, x)
            nm = "bi_div_mod_small %s (quotient %s, remainder %s)" % (c.name, hasq, hasr)
            if hasq:
                pv.prove(m, nm + ": digits of the long division", c.val(g[2]) == z3.simplify(quo))
            if hasr:
                pv.prove(m, nm + ": remainder of the long division", z3.ZeroExt(wb - H, g[3].get()) == carry)
            const_args(pv, m, nm, [(args[0], g[0])])
            if not hasq and not hasr:
                pv.prove(m, nm + ": nothing to return", True)
        chk(c, "bi_div_mod_small", "BHPp", mk, post, label=" q=%d r=%d" % (hasq, hasr))
    small(True, True)
    small(True, False)
    small(False, True)

    # ---------------- general division
    def division(hasq, hasr):
        M = z3.Function("timesright", z3.BitVecSort(W), z3.BitVecSort(W))      # M(q) = q * right mod 2^w

        def mk(m):
            a, va = c.num("a")
            b, vb = c.num("b")
            m.path.assume(vb != 0)
            q, _ = c.num("qjunk")
            rem, _ = c.num("remjunk")
            m.path.assume(M(c.K(0)) == 0)
            m.path.assume(M(c.K(1)) == vb)
            return [a, b, Ptr(q) if hasq else None, Ptr(rem) if hasr else None], (va, vb, q, rem)

        def cons(c, pv):
            t = contracts("bi_compare", "bi_sub_ip", "bi_add_ip", "bi_increment")(c, pv)
            t["operator<<"] = shl_abs(pv)

            def log2(m, obj, refs, nd):
                # 2^L <= v < 2^(L+1), over the integers
                v = c.val(refs[0])
                x = z3.BitVec(m.path.fresh("log2"), 32)
                m.path.assume(z3.And(x >= 0, x < W, z3.Implies(v != 0, z3.UGE(v, POW(x))),
                                     z3.Implies(z3.And(v != 0, x < W - 1), z3.ULE(v, POW(x + 1)))))
                return x
            t["bi_log2"] = log2

            def smalldiv(m, obj, refs, n):
                # contract of bi_div_mod_small: left == q * right + r, r < right (proved by its own task, with the long-division lemma)
                left, right = c.val(refs[0]), c.zx(I.bv(refs[1].get(), H))
                pv.prove(m, "bi_div_mod: divisor passed to the half-word division is nonzero", right != 0)
                q = z3.BitVec(m.path.fresh("sq"), W)
                r = z3.BitVec(m.path.fresh("sr"), H)
                m.path.assume(z3.ULT(c.zx(r), right))
                m.sd = (left, right, q, r)
                p = refs[2].get()
                if p is not None:
                    p.deref().get().f["bits"].set(Vec(c.ofval(q)))
                p = refs[3].get()
                if p is not None:
                    p.deref().set(r)
            t["bi_div_mod_small"] = smalldiv
            return t

        def specs(c):
            def havoc(env, g0, k):
                rem = z3.BitVec(env.m.path.fresh("rem"), W)
                env.get("rem").f["bits"].set(Vec(c.ofval(rem)))
                q = z3.BitVec(env.m.path.fresh("quo"), W)
                if hasq:
                    env.get("quotient").deref().get().f["bits"].set(Vec(c.ofval(q)))
                return {"rem": rem, "q": q}

            def cur(env):
                return c.val(env.get("rem")), (c.val(env.get("quotient")) if hasq else None)

            def inv(env, g, k):
                rem, q = cur(env)
                left = c.val(env.get("left"))
                out = [("the remainder does not exceed left", z3.ULE(rem, left))]
                if hasq:
                    if k == "after":
                        d = z3.BitVec(env.m.path.fresh("d"), W)
                        return out       # the product relation is proved by step()
                    out.append(("quotient * right + remainder == left", M(q) + rem == left))
                return out

            def step(env, g, k):
                rem, q = cur(env)
                right = c.val(env.get("right"))
                ld = I.bv(env.get("logDiff"), 32)
                shifted = not env.m.path.sat(z3.Not(ld > 0))
                if not shifted and env.m.path.sat(ld > 0):
                    raise I.Unsupported("bi_div_mod: the iteration does not decide the sign of logDiff")
                out = []
                if shifted:
                    kk = I.bv(env.get("rightLog2"), 32)
                    part, add = SHL(right, ld), POW(ld)
                    # lemma: v <= 2^k and k + s < w  =>  v << s is v * 2^s (no bit lost), at least v and at most 2^(k+s)
                    pre = z3.And(kk >= 0, kk <= W, z3.ULE(right, POW(kk)), kk < W, ld + kk < W)
                    env.m.path.assume(z3.Implies(pre, z3.And(EX(right, ld), z3.UGE(part, right), z3.ULE(part, POW(kk + ld)))))
                    out.append(("right << d loses no bit", EX(right, ld)))
                else:
                    part, add = right, c.K(1)
                out += [("one step subtracts right << d", g["rem"] - rem == part),
                        ("right << d does not exceed the remainder", z3.ULE(part, g["rem"])),
                        ("right << d is not 0 (the remainder decreases: termination)", part != 0)]
                # lemma (proved once): p <= G and p != 0  =>  G - p < G
                env.m.path.assume(z3.Implies(z3.And(z3.ULE(part, g["rem"]), part != 0, rem == g["rem"] - part), z3.ULT(rem, g["rem"])))
                if hasq:
                    out.append(("one step adds 2^d to the quotient", q == g["q"] + add))
                    # distributivity instance: (q + 2^d) * right == q * right + (right << d)   (mod 2^w)
                    env.m.path.assume(M(g["q"] + add) == M(g["q"]) + part)
                    # from the invariant, the two step relations (obligations above) and the instance: a consequence whatever the terms are
                    left = c.val(env.get("left"))
                    goal = M(q) + rem == left
                    if chain(W):
                        env.m.path.assume(z3.Implies(z3.And(M(g["q"]) + g["rem"] == left, q == g["q"] + add, g["rem"] - rem == part, M(g["q"] + add) == M(g["q"]) + part), goal))
                        goal = z3.And(q == g["q"] + add, g["rem"] - rem == part)
                    out.append(("quotient * right + remainder == left is preserved", goal))
                return out
            return [loops.LoopSpec("bi_div_mod", lambda nd, fr: nd["kind"] == "WhileStmt", havoc, inv, step)]

        def post(m, pv, r, args, g):
            nm = "bi_div_mod %s (quotient %s, remainder %s)" % (c.name, hasq, hasr)
            a, b = g[0], g[1]
            sd = getattr(m, "sd", None)
            if sd is not None:
                pv.prove(m, nm + ": half-word division is of the same operands", z3.And(sd[0] == a, sd[1] == b))
                if hasq:
                    pv.prove(m, nm + ": its quotient is returned", c.val(g[2]) == sd[2])
                if hasr:
                    pv.prove(m, nm + ": its remainder is returned", c.val(g[3]) == c.zx(sd[3]))
            else:
                rem = c.val(g[3]) if hasr else None
                if hasr:
                    pv.prove(m, nm + ": remainder is below the divisor", z3.ULT(rem, b))
                if hasq and hasr:
                    pv.prove(m, nm + ": quotient * right + remainder == left", M(c.val(g[2])) + rem == a)
                elif hasq:
                    pv.prove(m, nm + ": left - quotient * right is below right", z3.ULT(a - M(c.val(g[2])), b))
                elif hasr:
                    # without a quotient the loop only removes multiples of right from the remainder (step obligations)
                    pv.prove(m, nm + ": remainder does not exceed left", z3.ULE(rem, a))
            const_args(pv, m, nm, list(zip(args[:2], g[:2])))
        chk(c, "bi_div_mod", "BBPP", mk, post, contracts=cons, specs=specs, label=" q=%d r=%d" % (hasq, hasr))
    division(True, True)
    division(True, False)
    division(False, True)


def lemmas(pv):
    """Integer facts used by the contracts above, over the mathematical integers."""
    m = I.Machine(None)
    x, y, q, r, B, cc, h = z3.Ints("x y q r B c h")
    pv.prove(m, "lemma: a product of two values below B is at most (B-1)^2",
             z3.Implies(z3.And(x >= 0, y >= 0, x <= B - 1, y <= B - 1, B >= 1), x * y <= (B - 1) * (B - 1)))
    pv.prove(m, "lemma: long-division digit is below B (1)",
             z3.Implies(z3.And(cc >= 0, cc <= y - 1, h >= 0, h <= B - 1, y >= 1, B >= 1), cc * B + h <= y * B - 1))
    pv.prove(m, "lemma: long-division digit is below B (2)",
             z3.Implies(z3.And(y >= 1, B >= 1, q >= B), q * y >= B * y))
    # induction step of the long division: X = Q*y + c, next digit h: X*B + h = (Q*B + d)*y + c' where c*B + h = d*y + c'
    X, Q, d, c2 = z3.Ints("X Q d c2")
    pv.prove(m, "lemma: long-division step", z3.Implies(z3.And(X == Q * y + cc, cc * B + h == d * y + c2), X * B + h == (Q * B + d) * y + c2))
    # induction step of shift-and-add: (A + b*p) * R = A*R + b*(p*R)
    A, b, p, Rr = z3.Ints("A b p R")
    pv.prove(m, "lemma: shift-and-add step", (A + b * p) * Rr == A * Rr + b * (p * Rr))


    # v <= 2^k  =>  v * 2^s <= 2^(k+s), v * 2^s >= v     (with 2^(k+s) = 2^k * 2^s, 2^s >= 1)
    v, pk, ps = z3.Ints("v pk ps")
    pv.prove(m, "lemma: shifting a value of at most 2^k by s", z3.Implies(z3.And(v >= 0, v <= pk, ps >= 1, pk >= 1), z3.And(v * ps <= pk * ps, v * ps >= v)))


def prepare(cfg):
    from concurrent.futures import ThreadPoolExecutor
    todo = THOROUGH if check.TIER == "thorough" else QUICK
    for name, pw, no128 in todo:
        register(Cfg(name, pw, no128, cfg))
    C.task("lemmas", lemmas, [])
    native(cfg)


def native(cfg):
    """the default configuration: bitCapInt is the compiler's unsigned __int128 behind the same function names"""
    prog = astload.Program(["src/common/functions.cpp"], cfg)
    w = 128
    B = lambda n: z3.BitVec(n, w)
    three = lambda a, b: z3.If(z3.UGT(a, b), z3.BitVecVal(1, 32), z3.If(z3.ULT(a, b), z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32)))

    def reg(name, shape, f, domain=None):
        """shape: v value argument, p in/out pointer, s shift count, w small divisor, o output pointer, h output half pointer"""
        nm = "%s %s native" % (name, shape)

        def task(pv):
            df = prog.aux_func(name, None)
            if df is None:
                raise I.Unsupported("no single definition of %s" % name)

            def run(m):
                m.check_shift = True
                m.ubs = []
                args, vals, outs = [], [], []
                for i, k in enumerate(shape):
                    if k == "v":
                        vals.append(B("a%d" % i)); args.append(vals[-1])
                    elif k == "p":
                        vals.append(B("a%d" % i)); cell = Cell(vals[-1]); outs.append(cell); args.append(Ptr(cell))
                    elif k == "s":
                        vals.append(B("s%d" % i)); m.path.assume(z3.ULT(vals[-1], w)); args.append(vals[-1])
                    elif k == "w":
                        vals.append(z3.BitVec("r", 64)); args.append(vals[-1])
                    elif k in "oh":
                        cell = Cell(z3.BitVec("junk%d" % i, w if k == "o" else 64)); outs.append(cell); args.append(Ptr(cell))
                    elif k == "0":
                        args.append(None); outs.append(None)
                if domain is not None:
                    m.path.assume(domain(*vals))
                r = m.call_def(df, args)
                if isinstance(r, I.Ref):
                    r = r.get()
                want = f(*vals)
                if not isinstance(want, tuple):
                    want = (want,)
                got = [r] if not outs else [o.get() if o is not None else None for o in outs]
                for i, (x, y) in enumerate(zip(got, want)):
                    if x is None:
                        continue
                    if isinstance(x, (bool, z3.BoolRef)):
                        x = I.bv(x, 32)
                    pv.prove(m, "%s: result %d" % (nm, i), I.bv(x, y.size()) == y)
                for i, u in enumerate(m.ubs):
                    pv.fail(nm + ": no undefined arithmetic", u)
            check.explore(prog, pv, run)
        C.task(nm, task, [name + " (native)"])
    reg("bi_not_ip", "p", lambda a: ~a)
    reg("bi_and_ip", "pv", lambda a, b: a & b)
    reg("bi_or_ip", "pv", lambda a, b: a | b)
    reg("bi_xor_ip", "pv", lambda a, b: a ^ b)
    reg("bi_add_ip", "pv", lambda a, b: a + b)
    reg("bi_sub_ip", "pv", lambda a, b: a - b)
    reg("bi_increment", "pv", lambda a, b: a + b)
    reg("bi_decrement", "pv", lambda a, b: a - b)
    reg("bi_lshift_ip", "ps", lambda a, s: a << s)
    reg("bi_rshift_ip", "ps", lambda a, s: z3.LShR(a, s))
    reg("bi_and_1", "v", lambda a: z3.ZeroExt(31, z3.Extract(0, 0, a)))
    reg("bi_compare", "vv", three)
    reg("bi_compare_0", "v", lambda a: z3.If(a == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
    reg("bi_compare_1", "v", lambda a: three(a, z3.BitVecVal(1, w)))
    nz = lambda a, b: b != 0
    for sh in ("vvoo", "vvo0", "vv0o"):
        reg("bi_div_mod", sh, lambda a, b: (z3.UDiv(a, b), z3.URem(a, b)), nz)
    z64 = lambda a, b: (z3.UDiv(a, z3.ZeroExt(64, b)), z3.Extract(63, 0, z3.URem(a, z3.ZeroExt(64, b))))
    for sh in ("vwoh", "vwo0", "vw0h"):
        reg("bi_div_mod_small", sh, z64, nz)


C.assumptions = [
    "operands and results do not overlap (no caller passes the same object as operand and result)",
    "the divisor is not 0, and shift counts are below the width",
    "the product is established as the sum over the bits of one operand of the shifted other operand, and division by its step relation; that these sums are the product and the quotient is the induction whose steps are the lemma obligations (products by the divisor are an uninterpreted function with distributivity instances)",
    "bi_to_double is exact over the reals: rounding of double arithmetic is not modelled",
]
_chain = {}


def chain(W):
    """M(q) + r == l, q' == q + a, r - r' == p and M(q + a) == M(q) + p imply M(q') + r' == l, for all words (checked by z3 over variables)"""
    if W not in _chain:
        b = z3.BitVecSort(W)
        M = z3.Function("M", b, b)
        q, q1, a, p, r, r1, l = z3.Consts("q q1 a p r r1 l", b)
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(M(q) + r == l, q1 == q + a, r - r1 == p, M(q + a) == M(q) + p, M(q1) + r1 != l)
        _chain[W] = s.check() == z3.unsat
    return _chain[W]


C.standins = ["differential test of every operation against a bit-by-bit reference on random and boundary operands, real code compiled at widths 128 (64-bit words), 256 and 512 (both word sizes)"]

if __name__ == "__main__":
    C.run(prepare)
