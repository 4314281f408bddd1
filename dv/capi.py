"""Registry verifier: symbolic execution of the functions of one translation unit over the tables (std::vector, std::map) of
shared handles it keeps at namespace scope.

What is exact: the tables (sizes, handles, reservation flags, error codes: SMT arrays of unbounded size), handles (addresses,
null included), integers, the control flow that depends on them, and every function of the translation unit itself, which is
executed in place.  Everything else (quantum states, streams, containers of qubit numbers, floating point) is opaque: it may
have any value, every branch on it goes both ways, and every call on a handle may throw.  Loops are cut with an invariant that
is checked: an arbitrary iteration starts with the variables it assigns at any value and must leave every other variable and
every table as it found them (error codes and qubit maps the contract lets the function change excepted)."""
import z3
from . import interp as I, slicing
from .astload import body_of, has_body, params_of, qtype
from .check import Obl


class Opq:
    __slots__ = ("why", "t")

    def __init__(self, t=""):
        self.t = t

    def __repr__(self):
        return "opaque"


class Handle:
    """shared or raw pointer to an object of one of the tables"""
    __slots__ = ("fam", "a")

    def __init__(self, fam, a):
        self.fam, self.a = fam, a


class Thing:
    """the object a handle points to"""
    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h


class Table:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Map:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Iter:
    __slots__ = ("name", "i")

    def __init__(self, name, i):
        self.name, self.i = name, i


class Loc:
    def get(self):
        raise NotImplementedError


class Var(Loc):
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Elem(Loc):
    """element of a table"""
    def __init__(self, x, name, i):
        self.x, self.name, self.i = x, name, i

    def get(self):
        return self.x.load(self.name, self.i)

    def set(self, v):
        self.x.store(self.name, self.i, v)


class MapElem(Loc):
    def __init__(self, name, key):
        self.name, self.key = name, key

    def get(self):
        return Opq()

    def set(self, v):
        pass


class Method:
    __slots__ = ("obj", "name", "loc", "n")

    def __init__(self, obj, name, loc, n):
        self.obj, self.name, self.loc, self.n = obj, name, loc, n


class Throw(Exception):
    def __init__(self, what="std::exception"):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


W = 64
SIZES = {"bool": 1, "char": 8, "unsigned char": 8, "signed char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
         "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


def width(t):
    t = t.replace("const ", "").replace("volatile ", "").replace("&", "").strip()
    if t in SIZES:
        return SIZES[t], not (t.startswith("unsigned") or t in ("bool",))
    return None


def skip(n):
    while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
        n = n["inner"][0]
    return n


class Exec:
    FAMS = {"simulators": ("QInterface",), "neurons": ("QNeuron",), "circuits": ("QCircuit",)}

    def __init__(self, prog, pv, path, label):
        self.prog, self.pv, self.path, self.label = prog, pv, path, label
        self.tu = prog.tus[0]
        self.g = {}
        self.size, self.arr = {}, {}
        self.kinds = {}              # table -> "handle" | "bool" | "int" | "opaque"
        self.fam = {}                # table -> family
        self.may = None              # handles the call may touch (list of terms), None: any
        self.freshes = []
        self.mapkeys = []            # (map, how, key)
        self.touched = []
        self.stored = []             # (table, index)
        self.depth = 0
        self.contracts = {}
        self.on_index = None
        self.functions = {}

    # ---- obligations
    def prove(self, name, goal, hint=None):
        return self.pv.prove(self, self.label + ": " + name, goal, hint)

    def fail(self, name, detail):
        if self.path.sat():
            self.pv.fail(self.label + ": " + name, detail)
        raise I.PathEnd()

    def fresh(self, what, w=W):
        return z3.BitVec(self.path.fresh(what), w)

    # ---- tables
    def add_table(self, name, kind, fam):
        self.kinds[name], self.fam[name] = kind, fam
        self.size[name] = z3.BitVec("size_" + fam, W)
        if kind == "handle":
            self.arr[name] = z3.Array(name, z3.BitVecSort(W), z3.BitVecSort(W))
        elif kind == "bool":
            self.arr[name] = z3.Array(name, z3.BitVecSort(W), z3.BoolSort())
        else:
            self.arr[name] = z3.Array(name, z3.BitVecSort(W), z3.BitVecSort(32))

    def index(self, name, i):
        i = self.num(i, W)
        self.prove("the index into %s is in range" % name, z3.ULT(i, self.size[name]))
        self.path.assume(z3.ULT(i, self.size[name]))
        if self.on_index:
            self.on_index(name, i)
        return Elem(self, name, i)

    def load(self, name, i):
        v = z3.Select(self.arr[name], i)
        if self.kinds[name] == "handle":
            return Handle(self.fam[name], v)
        if self.kinds[name] == "opaque":
            return Opq()
        return v

    def store(self, name, i, v):
        k = self.kinds[name]
        if k == "handle":
            if not isinstance(v, Handle):
                raise I.Unsupported("stored into %s: %r" % (name, v))
            v = v.a
        elif k == "bool":
            v = self.cond(v)
            v = v if z3.is_expr(v) else z3.BoolVal(v)
        elif k == "int":
            v = self.num(v, 32)
        else:
            v = self.fresh("val", 32)
        self.stored.append((name, i))
        self.arr[name] = z3.Store(self.arr[name], i, v)

    # ---- scalars
    def num(self, v, w):
        if isinstance(v, bool):
            return z3.BitVecVal(int(v), w)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, Opq) or v is None:
            return self.fresh("any", w)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_bv(v):
            s = v.size()
            return v if s == w else (z3.Extract(w - 1, 0, v) if s > w else z3.ZeroExt(w - s, v))
        raise I.Unsupported("number from %r" % (v,))

    def to_width(self, v, st, dt):
        """integral conversion"""
        a, b = width(st), width(dt)
        if b is None or not z3.is_expr(v):
            return v if not isinstance(v, (bool, int)) else v
        if b[0] == 1:
            return self.cond(v)
        if z3.is_bool(v):
            return self.num(v, b[0])
        s = v.size()
        if s == b[0]:
            return v
        if s > b[0]:
            return z3.Extract(b[0] - 1, 0, v)
        return (z3.SignExt if a and a[1] else z3.ZeroExt)(b[0] - s, v)

    def cond(self, v):
        """truth of a value as a formula or bool"""
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Handle):
            return v.a != 0
        if isinstance(v, Opq) or v is None:
            return z3.Bool(self.path.fresh("any"))
        if z3.is_bool(v):
            return v
        if z3.is_bv(v):
            return v != 0
        raise I.Unsupported("condition on %r" % (v,))

    def branch(self, v):
        if isinstance(v, Opq):
            return self.path.choose(2) == 0
        return self.path.branch(self.cond(v))

    # ---- handles
    def touch(self, h, what):
        self.prove("%s is not called on a null pointer" % what, h.a != 0)
        self.path.assume(h.a != 0)
        self.touched.append((h, what))
        if self.may is not None:
            ok = [h.a == a for a in self.may.get(h.fam, [])] + [h.a == a for f, a in self.freshes if f == h.fam]
            self.prove("%s is called on an object the call names, and on no other" % what, z3.Or(ok) if ok else z3.BoolVal(False))

    def new(self, fam):
        a = self.fresh("new_" + fam)
        self.path.assume(a != 0)
        self.path.assume(z3.And([a != x for f, x in self.freshes] or [z3.BoolVal(True)]))
        self.freshes.append((fam, a))
        if self.on_new:
            self.on_new(fam, a)
        return Handle(fam, a)
    on_new = None

    def key(self, name, how, v):
        if isinstance(v, Handle):
            k = (v.fam, v.a)
        elif isinstance(v, Opq):
            k = (None, None)
        else:
            k = (None, None)
        self.mapkeys.append((name, how, k))
        if self.on_key:
            self.on_key(name, how, k)
    on_key = None

    def handle_fam(self, t):
        """family of a (shared) pointer type"""
        t = t.replace("const ", "").replace("Qrack::", "").replace("&", "").strip()
        if "<" in t and not (t.startswith("std::shared_ptr<") or t.startswith("shared_ptr<")):
            return None
        for f, ns in self.FAMS.items():
            for c in ns:
                if t in ("std::shared_ptr<%s>" % c, "shared_ptr<%s>" % c, c + "Ptr", c + " *", c + "*"):
                    return f
        return None

    # ---- calls
    def call(self, df, vals, name):
        if self.depth > 12:
            raise I.Unsupported("call depth at %s" % name)
        q = df.get("_q", name)
        self.functions[q] = self.functions.get(q, 0) + 1
        env = {}
        for p, v in zip(params_of(df), vals):
            t = qtype(p)
            if isinstance(v, Loc):
                env[p["id"]] = v if t.rstrip().endswith("&") else Var(self.val(v))
            else:
                env[p["id"]] = Var(v)
        self.depth += 1
        old = getattr(self, "env", None)
        self.env = env
        try:
            self.ex(body_of(df))
            return None
        except Ret as r:
            return r.v
        finally:
            self.env = old
            self.depth -= 1

    def val(self, v):
        while isinstance(v, Loc):
            v = v.get()
        return v

    # ---- statements
    def ex(self, n):
        k = n.get("kind")
        if k is None or k == "NullStmt":
            return
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get("inner", ()):
            self.ex(c)

    def s_DeclStmt(self, n):
        for c in n.get("inner", ()):
            if c["kind"] != "VarDecl":
                continue
            t = qtype(c)
            init = [x for x in c.get("inner", ()) if x.get("kind", "").endswith(("Expr", "Literal", "Cleanups", "Operator"))]
            if c.get("storageClass") == "static":
                raise I.Unsupported("static local")
            if not init:
                f = self.handle_fam(t)
                self.env[c["id"]] = Var(Handle(f, z3.BitVecVal(0, W)) if f and "*" not in t else Opq(t))
                continue
            v = self.ev(init[0])
            if t.rstrip().endswith("&") or t.rstrip().endswith("&&"):
                self.env[c["id"]] = v if isinstance(v, Loc) else Var(v)
            else:
                self.env[c["id"]] = Var(self.fit(self.val(v), t))

    def fit(self, v, t):
        w = width(t)
        if w is not None and w[0] > 1 and (isinstance(v, (int, bool)) or isinstance(v, Opq)):
            return self.num(v, w[0])
        return v

    def s_IfStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0))
        if n.get("hasVar"):
            self.ex(inner.pop(0))
        c = self.val(self.ev(inner[0]))
        if self.branch(c):
            self.ex(inner[1])
        elif len(inner) > 2:
            self.ex(inner[2])

    def s_ReturnStmt(self, n):
        v = None
        if n.get("inner"):
            v = self.val(self.ev(n["inner"][0]))
        raise Ret(v)

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_SwitchStmt(self, n):
        inner = [c for c in n["inner"]]
        self.ev(inner[-2])
        body = inner[-1].get("inner", [])
        starts = [i for i, c in enumerate(body) if c.get("kind") in ("CaseStmt", "DefaultStmt")]
        has_def = any(body[i]["kind"] == "DefaultStmt" for i in starts)
        w = self.path.choose(len(starts) + (0 if has_def else 1))
        if w >= len(starts):
            return
        try:
            for c in body[starts[w]:]:
                while c.get("kind") in ("CaseStmt", "DefaultStmt"):
                    c = c["inner"][-1]
                self.ex(c)
        except Brk:
            pass

    def s_CXXTryStmt(self, n):
        try:
            self.ex(n["inner"][0])
        except Throw as e:
            for c in n["inner"][1:]:
                var = next((x for x in c["inner"] if x.get("kind") == "VarDecl"), None)
                t = qtype(var) if var else ""
                if var is None or "std::exception" in t or t.replace("const ", "").replace("&", "").strip().endswith(e.what.split("::")[-1]):
                    if var is not None:
                        self.env[var["id"]] = Var(Opq())
                    self.ex(c["inner"][-1])
                    return
            raise

    # ---- loops
    def assigned(self, n, out, live=True):
        """declarations the loop may assign on a path that goes round again"""
        k = n.get("kind")
        if k == "CompoundStmt":
            inner = n.get("inner", [])
            if inner and inner[-1].get("kind") in ("BreakStmt", "ReturnStmt", "CXXThrowExpr") and not self.has(n, "ContinueStmt"):
                return
        if k == "LambdaExpr":
            return
        if k == "DeclRefExpr":
            out.add(n["referencedDecl"]["id"])
            return
        if k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue":
            c = skip(n["inner"][0])
            if c["kind"] == "DeclRefExpr":
                return
        for c in n.get("inner", ()):
            if isinstance(c, dict):
                self.assigned(c, out)

    def has(self, n, kind):
        return n.get("kind") == kind or any(self.has(c, kind) for c in n.get("inner", ()) if isinstance(c, dict))

    def loop(self, n, cond, inc, body, first=False):
        ids = set()
        for p in (cond, inc, body):
            if p is not None and p.get("kind"):
                self.assigned(p, ids)
        keep = {}
        for i, loc in list(self.env.items()):
            if type(loc) is not Var:
                continue
            v = loc.v
            if z3.is_expr(v) if not isinstance(v, (Handle, Opq, int, bool, type(None))) else False:
                if i in ids:
                    loc.v = z3.Bool(self.path.fresh("any")) if z3.is_bool(v) else self.fresh("any", v.size())
                    continue
            elif isinstance(v, (int, bool)) and i in ids:
                loc.v = Opq()
                continue
            keep[i] = v
        for t in self.soft:
            if t in self.arr:
                self.soft[t](t)
        if self.meta_free:
            self.g["metaError"].v = self.fresh("metaError", 32)
        arrs = dict(self.arr), dict(self.size)
        me = self.g["metaError"].v
        if first is False:
            c = self.val(self.ev(cond)) if cond is not None and cond.get("kind") else True
        else:
            c = Opq()
        more = self.path.choose(2) == 0
        cf = self.cond(c)
        if not more:
            self.path.assume(z3.Not(cf) if z3.is_expr(cf) else (not cf))
            if isinstance(cf, bool) and cf:
                raise I.PathEnd()
            return
        self.path.assume(cf)
        if not self.path.sat():
            raise I.PathEnd()
        try:
            self.ex(body)
        except Brk:
            return
        except Cont:
            pass
        if inc is not None and inc.get("kind"):
            self.ev(inc)
        for i, v in keep.items():
            w = self.env[i].v
            if w is v or (isinstance(w, Handle) and isinstance(v, Handle) and I.simp(w.a == v.a) is True) or isinstance(v, Opq):
                continue
            if z3.is_expr(w) and z3.is_expr(v) and w.eq(v):
                continue
            raise I.Unsupported("loop assigns a variable in a way the loop rule does not follow")
        for t in self.arr:
            if not self.arr[t].eq(arrs[0][t]):
                j = z3.BitVec("loop_j", W)
                eq = z3.Select(self.arr[t], j) == z3.Select(arrs[0][t], j)
                self.prove("a loop that goes round leaves %s as it is" % t, z3.Implies(self.soft_free(t, j), eq) if t in self.soft else eq)
            if not self.size[t].eq(arrs[1][t]):
                self.prove("a loop that goes round leaves the size of %s as it is" % t, self.size[t] == arrs[1][t])
        w = self.g["metaError"].v
        if not (w is me or (z3.is_expr(w) and z3.is_expr(me) and w.eq(me))) and not self.meta_free:
            self.prove("a loop that goes round leaves metaError as it is", self.num(w, 32) == self.num(me, 32))
        raise I.PathEnd()
    soft = {}
    soft_free = None
    meta_free = False
    strict = False

    def s_ForStmt(self, n):
        init, var, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.ex(init)
        self.loop(n, cond, inc, body)

    def s_WhileStmt(self, n):
        self.loop(n, n["inner"][-2], None, n["inner"][-1])

    def s_DoStmt(self, n):
        self.loop(n, n["inner"][1], None, n["inner"][0], True)

    def s_CXXForRangeStmt(self, n):
        inner = n["inner"]
        body = inner[-1]
        rng = inner[1]
        v = None
        for c in rng.get("inner", ()):
            for x in c.get("inner", ()):
                v = self.val(self.ev(x))
        if isinstance(v, (Table, Map)):
            raise I.Unsupported("range-based loop over a table")
        var = inner[-2]
        for c in var.get("inner", ()):
            if c["kind"] == "VarDecl":
                self.env[c["id"]] = Var(Opq(qtype(c)))
        self.loop(n, None, None, {"kind": "CompoundStmt", "inner": [body]}, True)

    # ---- expressions
    def ev(self, n):
        k = n.get("kind")
        if k is None:
            return Opq()
        f = getattr(self, "e_" + k, None)
        if f is not None:
            return f(n)
        for c in n.get("inner", ()):
            if isinstance(c, dict) and c.get("kind"):
                self.guard(self.val(self.ev(c)), k)
        return Opq(qtype(n))

    def guard(self, v, where):
        if isinstance(v, (Table, Map, Iter)):
            raise I.Unsupported("%s used as a whole in %s" % (v.name, where))
        return v

    def passthru(self, n):
        return self.ev(n["inner"][0])
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_CXXStdInitializerListExpr = passthru

    def e_IntegerLiteral(self, n):
        w = width(qtype(n))
        return z3.BitVecVal(int(n["value"]), w[0] if w else W)

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n["value"])

    def e_CXXNullPtrLiteralExpr(self, n):
        return Handle(None, z3.BitVecVal(0, W))

    def e_CXXDefaultArgExpr(self, n):
        return Opq(qtype(n))

    def e_LambdaExpr(self, n):
        def w(x):
            if x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("name") in self.g:
                raise I.Unsupported("a lambda over the tables")
            if x.get("kind") == "DeclRefExpr":
                l = self.env.get(x["referencedDecl"]["id"])
                if l is not None and isinstance(self.val(l), Handle):
                    raise I.Unsupported("a lambda over a handle")
            for c in x.get("inner", ()):
                if isinstance(c, dict):
                    w(c)
        w(n)
        return Opq()

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        i = d["id"]
        if i in self.env:
            return self.env[i]
        if d["kind"] == "VarDecl" and d["name"] in self.g:
            return self.g[d["name"]]
        return Opq(qtype(n))

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        v = self.ev(n["inner"][0])
        if ck == "LValueToRValue":
            return self.val(v)
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "FunctionToPointerDecay", "ArrayToPointerDecay", "UserDefinedConversion"):
            return v
        v = self.val(v)
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            if isinstance(v, bool):
                w = width(qtype(n))
                return self.num(v, w[0]) if w else v
            if isinstance(v, Opq):
                return Opq(qtype(n))
            return self.to_width(v, qtype(n["inner"][0]), qtype(n)) if z3.is_expr(v) else v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return v if isinstance(v, Opq) else self.cond(v)
        if ck == "NullToPointer":
            return Handle(None, z3.BitVecVal(0, W))
        if ck in ("BitCast", "ToVoid"):
            return v
        return Opq(qtype(n))
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, n):
        self.guard(self.val(self.ev(n["inner"][0])), "a cast")
        return Opq(qtype(n))

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        l = self.ev(n["inner"][0])
        if op == "!":
            v = self.val(l)
            if isinstance(v, Opq):
                return Opq("bool")
            c = self.cond(v)
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if op in ("++", "--"):
            v = self.val(l)
            if isinstance(l, Loc) and z3.is_expr(v) and z3.is_bv(v):
                nv = v + 1 if op == "++" else v - 1
                l.set(nv)
                return v if n.get("isPostfix") else l
            if isinstance(l, Loc):
                l.set(Opq(qtype(n)))
            return Opq(qtype(n))
        if op == "&":
            v = self.val(l)
            if isinstance(v, Thing):
                return v.h
            self.guard(v, "an address")
            if isinstance(l, Var) and not isinstance(v, Opq):
                raise I.Unsupported("address of a variable")
            return Opq(qtype(n))
        if op == "*":
            v = self.val(l)
            if isinstance(v, Handle):
                self.prove("a null pointer is not dereferenced", v.a != 0)
                self.path.assume(v.a != 0)
                return Thing(v)
            return Opq(qtype(n))
        v = self.val(l)
        if op == "-" and z3.is_expr(v) and z3.is_bv(v):
            return -v
        if op == "~" and z3.is_expr(v) and z3.is_bv(v):
            return ~v
        if op == "+":
            return v
        return Opq(qtype(n))

    def e_ConditionalOperator(self, n):
        if self.branch(self.val(self.ev(n["inner"][0]))):
            return self.ev(n["inner"][1])
        return self.ev(n["inner"][2])

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            r = self.val(self.ev(b))
            l = self.ev(a)
            self.assign(l, r, qtype(a))
            return l
        if op in ("&&", "||"):
            x = self.val(self.ev(a))
            if isinstance(x, Opq):
                x = self.path.choose(2) == 0
            else:
                x = self.path.branch(self.cond(x))
            if op == "&&" and not x:
                return False
            if op == "||" and x:
                return True
            y = self.val(self.ev(b))
            return Opq("bool") if isinstance(y, Opq) else self.cond(y)
        if op == ",":
            self.ev(a)
            return self.ev(b)
        x, y = self.val(self.ev(a)), self.val(self.ev(b))
        return self.arith(op, x, y, qtype(a), qtype(n))

    def arith(self, op, x, y, ta, tr):
        if isinstance(x, Handle) or isinstance(y, Handle):
            if op in ("==", "!=") and isinstance(x, Handle) and isinstance(y, Handle):
                return x.a == y.a if op == "==" else x.a != y.a
            return Opq(tr)
        if isinstance(x, Iter) and isinstance(y, Iter) and x.name == y.name:
            if op == "==":
                return x.i == y.i
            if op == "!=":
                return x.i != y.i
            if op == "-":
                return x.i - y.i
        self.guard(x, op), self.guard(y, op)
        if isinstance(x, Opq) or isinstance(y, Opq):
            return Opq(tr)
        if op in ("==", "!=") and (isinstance(x, bool) or isinstance(y, bool) or z3.is_bool(x) or z3.is_bool(y)):
            x, y = self.cond(x), self.cond(y)
            x = x if z3.is_expr(x) else z3.BoolVal(x)
            y = y if z3.is_expr(y) else z3.BoolVal(y)
            return x == y if op == "==" else x != y
        w = width(ta)
        if w is None:
            return Opq(tr)
        x, y = self.num(x, max(w[0], 8)), self.num(y, max(w[0], 8))
        sg = w[1]
        if op in ("<", ">", "<=", ">="):
            return {"<": (lambda: x < y if sg else z3.ULT(x, y)), ">": (lambda: x > y if sg else z3.UGT(x, y)),
                    "<=": (lambda: x <= y if sg else z3.ULE(x, y)), ">=": (lambda: x >= y if sg else z3.UGE(x, y))}[op]()
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        if op in ("+", "-", "*", "&", "|", "^"):
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
        return Opq(tr)

    def e_CompoundAssignOperator(self, n):
        a, b = n["inner"]
        r = self.val(self.ev(b))
        l = self.ev(a)
        self.assign(l, self.arith(n["opcode"][:-1], self.val(l), r, qtype(a), qtype(n)), qtype(a))
        return l

    def assign(self, l, r, t):
        self.guard(r, "an assignment")
        if isinstance(l, Loc):
            old = self.val(l)
            if isinstance(old, Handle) and isinstance(r, Handle) and r.fam is None:
                r = Handle(old.fam, r.a)
            if isinstance(old, Handle) and not isinstance(r, Handle):
                raise I.Unsupported("a handle from %r" % (r,))
            l.set(self.fit(r, t))
        elif isinstance(l, (Table, Map)):
            raise I.Unsupported("a whole table is assigned")

    def e_ArraySubscriptExpr(self, n):
        for c in n["inner"]:
            self.guard(self.val(self.ev(c)), "a subscript")
        f = self.handle_fam(qtype(n))
        if f:
            raise I.Unsupported("an array of handles")
        return Opq(qtype(n))

    def e_MemberExpr(self, n):
        b = self.ev(n["inner"][0])
        v = self.val(b)
        if isinstance(v, (Table, Map, Iter)) or isinstance(v, Handle) or isinstance(v, Thing):
            return Method(v, n.get("name", ""), b, n)
        if isinstance(b, Loc) and (z3.is_expr(v) or isinstance(v, bool)):
            return Method(v, n.get("name", ""), b, n)
        return Method(v, n.get("name", ""), b, n) if qtype(n).startswith("<bound") else Opq(qtype(n))

    def result(self, n):
        """an unknown result of a library or simulator call"""
        t = qtype(n)
        f = self.handle_fam(t)
        if f and "*" not in t:
            return self.new(f)
        if f:
            raise I.Unsupported("raw pointer from a call")
        w = width(t)
        if w and w[0] > 1:
            return self.fresh("any", w[0])
        return Opq(t)

    def e_CXXMemberCallExpr(self, n):
        c = n["inner"][0]
        while c["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            c = c["inner"][0]
        m = self.ev(c)
        args = n["inner"][1:]
        if not isinstance(m, Method):
            for a in args:
                self.guard(self.val(self.ev(a)), "a call")
            return self.result(n) if not isinstance(m, Opq) or self.handle_fam(qtype(n)) is None else self.result(n)
        o, name = m.obj, m.name
        if isinstance(o, Table):
            return self.table_call(o, name, args, n)
        if isinstance(o, Map):
            return self.map_call(o, name, args, n)
        if isinstance(o, Handle) and not m.n.get("isArrow"):
            # member of the shared pointer itself
            if name == "get":
                return Handle(o.fam, o.a)
            if name == "operator bool":
                return o.a != 0
            if name == "reset" and not args:
                m.loc.set(Handle(o.fam, z3.BitVecVal(0, W)))
                return None
            if name == "use_count":
                return Opq()
            raise I.Unsupported("shared_ptr::%s" % name)
        if isinstance(o, (Handle, Thing)):
            h = o if isinstance(o, Handle) else o.h
            for a in args:
                self.guard(self.val(self.ev(a)), "a call")
            self.touch(h, name)
            if self.path.choose(2) == 1:
                raise Throw()
            return self.result(n)
        if z3.is_expr(o) or isinstance(o, bool):
            if name == "operator bool":
                return self.cond(o)
            raise I.Unsupported("member %s of a scalar" % name)
        for a in args:
            self.guard(self.val(self.ev(a)), "a call")
        return self.result(n)

    def table_call(self, t, name, args, n):
        if name == "size":
            return self.size[t.name]
        if name == "empty":
            return self.size[t.name] == 0
        if name in ("begin", "cbegin"):
            return Iter(t.name, z3.BitVecVal(0, W))
        if name in ("end", "cend"):
            return Iter(t.name, self.size[t.name])
        if name in ("push_back", "emplace_back"):
            v = self.val(self.ev(args[0])) if args else Opq()
            i = self.size[t.name]
            self.size[t.name] = i + 1
            self.store(t.name, i, v)
            return None
        if name == "at":
            i = self.num(self.val(self.ev(args[0])), W)
            if not self.path.branch(z3.ULT(i, self.size[t.name])):
                raise Throw("std::out_of_range")
            return self.index(t.name, i)
        raise I.Unsupported("%s.%s" % (t.name, name))

    def map_call(self, o, name, args, n):
        vals = [self.val(self.ev(a)) for a in args]
        if name in ("find", "erase", "count", "at") and len(vals) == 1:
            self.key(o.name, name, vals[0])
            return Opq(qtype(n))
        if name in ("end", "begin", "cend", "size", "empty"):
            return Opq(qtype(n))
        raise I.Unsupported("%s.%s" % (o.name, name))

    def e_CXXOperatorCallExpr(self, n):
        d = skip(n["inner"][0])["referencedDecl"]
        name = d["name"]
        args = n["inner"][1:]
        op = name.replace("operator", "")
        if op == "=":
            r = self.val(self.ev(args[1]))
            l = self.ev(args[0])
            if isinstance(l, Loc) and isinstance(self.val(l), Handle) and isinstance(r, Opq):
                raise I.Unsupported("a handle from an opaque value")
            self.assign(l, r, qtype(args[0]))
            return l
        a = self.ev(args[0])
        v = self.val(a)
        if op == "[]":
            if isinstance(v, Table):
                return self.index(v.name, self.val(self.ev(args[1])))
            k = self.val(self.ev(args[1]))
            if isinstance(v, Map):
                self.key(v.name, "[]", k)
                if v.name == "neuronSimulators":
                    return Var(Handle("simulators", self.fresh("neuron's simulator")))
                return MapElem(v.name, k)
            self.guard(k, "a subscript")
            return Opq(qtype(n))
        if op == "->" and isinstance(v, Handle):
            return v
        if op == "*" and isinstance(v, Handle) and len(args) == 1:
            self.prove("a null pointer is not dereferenced", v.a != 0)
            self.path.assume(v.a != 0)
            return Thing(v)
        if op in ("==", "!=") and len(args) == 2:
            w = self.val(self.ev(args[1]))
            return self.arith(op, v, w, qtype(args[0]), "bool")
        if op in ("++", "--") and isinstance(a, Loc) and not isinstance(v, Opq):
            raise I.Unsupported("iterator arithmetic")
        if op == "*" and isinstance(v, Iter):
            return self.index(v.name, v.i)
        if op == "-" and isinstance(v, Iter) and len(args) == 2:
            return self.arith("-", v, self.val(self.ev(args[1])), "", "")
        if op == "()":
            return self.apply(d, n, args)
        self.guard(v, "operator" + op)
        vals = [v] + [self.guard(self.val(self.ev(x)), "operator" + op) for x in args[1:]]
        for x in vals:
            if isinstance(x, Handle) and op in ("<<", ">>") and "ostream" not in qtype(n) and "istream" not in qtype(n):
                raise I.Unsupported("operator on a handle")
        hs = [x for x in vals if isinstance(x, Handle)]
        for h in hs:
            self.touch(h, "operator" + op)
        return Opq(qtype(n))

    def apply(self, d, n, args):
        node = self.tu.byid.get(d["id"])
        for a in args:
            self.guard(self.val(self.ev(a)), "a call")
        return self.result(n)

    def e_CallExpr(self, n):
        c = skip(n["inner"][0])
        args = n["inner"][1:]
        if c["kind"] != "DeclRefExpr" or c["referencedDecl"]["kind"] not in ("FunctionDecl", "CXXMethodDecl"):
            for a in [c] + args:
                self.guard(self.val(self.ev(a)), "a call")
            return self.result(n)
        d = c["referencedDecl"]
        name = d["name"]
        node = self.tu.byid.get(d["id"])
        if node is not None:
            df = self.prog.find_def(node)
            if df is not None and has_body(df) and (df.get("_file") or "").endswith(self.source):
                ps = params_of(df)
                vals = []
                for i, p in enumerate(ps):
                    if i < len(args) and args[i]["kind"] != "CXXDefaultArgExpr":
                        v = self.ev(args[i])
                        vals.append(v if qtype(p).rstrip().endswith("&") else self.fit(self.val(v), qtype(p)))
                    else:
                        dv = [x for x in p.get("inner", ()) if x.get("kind")]
                        vals.append(self.val(self.ev(dv[0])) if dv else Opq(qtype(p)))
                if name in self.contracts:
                    return self.contracts[name](self, vals)
                return self.call(df, vals, name)
        vals = [self.val(self.ev(a)) for a in args]
        if name == "find" and len(vals) == 3 and isinstance(vals[0], Iter) and isinstance(vals[1], Iter):
            return self.find(vals[0], vals[1], vals[2])
        if name == "distance" and len(vals) == 2 and isinstance(vals[0], Iter) and isinstance(vals[1], Iter):
            return vals[1].i - vals[0].i
        if name in ("dynamic_pointer_cast", "static_pointer_cast") and isinstance(vals[0], Handle):
            return vals[0]           # the same object (a failed cast is out of scope here)
        if name in ("move", "forward", "ref"):
            return vals[0]
        for v in vals:
            self.guard(v, name)
        if name == "CreateQuantumInterface" or (name == "make_shared" and self.handle_fam(qtype(n))):
            if self.path.choose(2) == 1:
                raise Throw()
        return self.result(n)

    def find(self, b, e, v):
        if b.name != e.name or I.simp(b.i == 0) is not True or I.simp(e.i == self.size[e.name]) is not True:
            raise I.Unsupported("std::find over part of a table")
        i = self.fresh("found")
        k = self.kinds[b.name]
        x = v.a if k == "handle" else v if z3.is_expr(v) else self.cond(v) if k == "bool" else None
        if x is None:
            raise I.Unsupported("std::find of %r" % (v,))
        self.path.assume(z3.Or(i == self.size[b.name], z3.And(z3.ULT(i, self.size[b.name]), z3.Select(self.arr[b.name], i) == x)))
        for j in self.watch:
            self.path.assume(z3.Implies(z3.And(z3.ULT(j, self.size[b.name]), z3.Select(self.arr[b.name], j) == x), z3.ULE(i, j)))
        if self.on_index:
            self.on_index(b.name, i)
        return Iter(b.name, i)
    watch = ()
    source = "pinvoke_api.cpp"

    def e_CXXConstructExpr(self, n):
        t = qtype(n)
        f = self.handle_fam(t)
        args = [a for a in n.get("inner", []) if a.get("kind") and a["kind"] != "CXXDefaultArgExpr"]
        if f:
            if not args:
                return Handle(f, z3.BitVecVal(0, W))
            v = self.val(self.ev(args[0]))
            if isinstance(v, Handle):
                return Handle(f, v.a)
            raise I.Unsupported("a handle made from something else")
        vals = [self.val(self.ev(a)) for a in args]
        if "lock_guard" in t or "unique_lock" in t:
            return Opq(t)
        if len(vals) == 1 and isinstance(vals[0], Iter):
            return vals[0]
        for v in vals:
            self.guard(v, "a construction")
        if len(vals) == 1 and isinstance(vals[0], Handle) and "shared_ptr" in t:
            return vals[0]
        return Opq(t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        inner = [c for c in n.get("inner", ()) if c.get("kind")]
        if len(inner) == 1:
            return self.ev(inner[0])
        for c in inner:
            self.guard(self.val(self.ev(c)), "a list")
        return Opq(qtype(n))

    def e_CXXThrowExpr(self, n):
        raise Throw()


def explore(prog, pv, label, run, max_paths=20000, timeout=20000):
    work = [[]]
    n = 0
    while work:
        path = I.Path(work.pop(), timeout)
        x = Exec(prog, pv, path, label)
        try:
            run(x)
        except I.PathEnd:
            pass
        for q, k in x.functions.items():
            pv.functions[q] = pv.functions.get(q, 0) + k
        work.extend(path.alts)
        n += 1
        if n > max_paths:
            raise I.TooMany("more than %d paths" % max_paths)
    pv.paths += n
    return n
