"""Symbolic interpreter over clang's AST: generates the proof obligations of a function under contract.

Every path through the function body is explored (decisions are replayed from the start, so no state is copied);
calls are interpreted by the callee's contract when one is registered, by the callee's own body when it is repository
code without one, and by stdmodel for the C++ standard library.  A construct outside the supported subset raises
Unsupported: the function is then reported as not brought within reach, never as proved.
"""
import time, z3, sys
from fractions import Fraction
from .astload import params_of, body_of, has_body, qtype, text_of, canon_class
from .real import R, Cx, toR, toCx, PI, R2, axioms as real_axioms
from . import slicing

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, tname, val=None):
        Exception.__init__(self, tname)
        self.tname, self.val = tname, val


class PathEnd(Exception):
    pass


class TooMany(Unsupported):
    pass


# ---------------------------------------------------------------- types
_ints = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
         "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
         "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
         "__int128": (128, True), "unsigned __int128": (128, False), "size_t": (64, False), "uint64_t": (64, False),
         "int64_t": (64, True), "uint32_t": (32, False), "int32_t": (32, True), "uint8_t": (8, False), "int8_t": (8, True),
         "uint16_t": (16, False), "int16_t": (16, True), "std::size_t": (64, False), "unsigned": (32, False),
         "difference_type": (64, True), "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True), "intptr_t": (64, True),
         "bitLenInt": (8, False), "bitCapIntOcl": (64, False), "quid": (64, False), "uintq": (64, False),
         "Qrack::bitLenInt": (8, False), "Qrack::bitCapIntOcl": (64, False), "wchar_t": (32, True)}
_reals = {"float", "double", "long double", "real1", "real1_f", "real1_s", "Qrack::real1", "Qrack::real1_f"}
_tc = {}


def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "struct ", "class ", "enum "):
            if t.startswith(p):
                t = t[len(p):].strip()
                ch = True
        for p in (" const", "*const", " volatile"):
            if t.endswith(p):
                t = t[:-len(p)].strip() if p != "*const" else t[:-5].strip()
                ch = True
    return t


def ctype(t):
    r = _tc.get(t)
    if r is not None:
        return r
    s = strip_cv(t)
    if s.endswith("&&"):
        r = ("ref", s[:-2].strip())
    elif s.endswith("&"):
        r = ("ref", s[:-1].strip())
    elif s in _ints:
        w, sg = _ints[s]
        r = ("bool", 1, False) if s == "bool" else ("int", w, sg)
    elif s in _reals:
        r = ("real",)
    elif s.endswith("*"):
        r = ("ptr", s[:-1].strip())
    elif s == "void":
        r = ("void",)
    elif s in ("std::complex<float>", "std::complex<double>", "complex", "Qrack::complex", "complex<float>"):
        r = ("complex",)
    elif s.endswith("]"):
        r = ("array", s)
    elif "(*)" in s:
        r = ("fptr", s)
    else:
        r = ("class", s)
    _tc[t] = r
    return r


def wrap(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return v


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    if isinstance(v, z3.BitVecRef):
        return v
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    raise Unsupported("integer value expected, got %r" % (v,))


def simp(v):
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def intval(v, sg):
    """concrete z3 numeral -> python int"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_signed_long() if sg else v.as_long()
    return v


def to_bool(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, int):
        return v != 0
    if isinstance(v, z3.BitVecRef):
        return simp(v != 0)
    if v is None:
        return False
    if isinstance(v, R):
        if v.is_const():
            return v.cval() != 0
        return z3.Not(v.z3() == 0)
    if isinstance(v, (Ptr, Closure, NativeFn)):
        return True
    raise Unsupported("truth value of %r" % (v,))


# ---------------------------------------------------------------- storage
class Ref:
    def get(self):
        raise NotImplementedError

    def set(self, v):
        raise NotImplementedError


class Cell(Ref):
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class ElemRef(Ref):
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def get(self):
        return self.c.load(self.i)

    def set(self, v):
        self.c.store(self.i, v)


class FnRef(Ref):
    """A reference whose accesses are interpreted by two functions."""
    def __init__(self, g, s=None):
        self._g, self._s = g, s

    def get(self):
        return self._g()

    def set(self, v):
        if self._s is None:
            raise Unsupported("write through a read-only reference")
        self._s(v)


class Obj:
    """Instance of a class."""
    __slots__ = ("cls", "f", "tag")

    def __init__(self, cls, f=None, tag=None):
        self.cls, self.f, self.tag = cls, f if f is not None else {}, tag

    def field(self, name):
        c = self.f.get(name)
        if c is None:
            raise Unsupported("field %s of %s has no specified value" % (name, self.cls))
        return c

    def clone(self):
        return Obj(self.cls, {k: Cell(copyval(c.get())) for k, c in self.f.items()}, self.tag)


class Vec:
    """std::vector / C array with a concrete number of elements."""
    __slots__ = ("a", "et", "tag")

    def __init__(self, a=None, et=None, tag=None):
        self.a = a if a is not None else []
        self.et, self.tag = et, tag

    def load(self, i):
        if not isinstance(i, int):
            raise Unsupported("symbolic index into a concrete vector")
        if not 0 <= i < len(self.a):
            raise OutOfBounds("index %d of %d" % (i, len(self.a)))
        return self.a[i]

    def store(self, i, v):
        if not isinstance(i, int):
            raise Unsupported("symbolic index into a concrete vector")
        if not 0 <= i < len(self.a):
            raise OutOfBounds("index %d of %d" % (i, len(self.a)))
        self.a[i] = v

    def clone(self):
        return Vec([copyval(x) for x in self.a], self.et)

    def size(self):
        return len(self.a)


class OutOfBounds(Exception):
    pass


class Ptr:
    """Non-null pointer / smart pointer: to an object (Obj or other native container), to a Ref, or into a Vec."""
    __slots__ = ("to", "i")

    def __init__(self, to, i=None):
        self.to, self.i = to, i

    def deref(self):
        if self.i is not None:
            return ElemRef(self.to, self.i)
        if isinstance(self.to, Ref):
            return self.to
        return ObjRef(self.to)

    def same(self, o):
        return isinstance(o, Ptr) and self.to is o.to and self.i == o.i


class ObjRef(Ref):
    """The object a pointer points to: assignment replaces its value in place."""
    __slots__ = ("to",)

    def __init__(self, to):
        self.to = to

    def get(self):
        return self.to

    def set(self, v):
        t = self.to
        if v is t:
            return
        if isinstance(t, Obj) and isinstance(v, Obj):
            v = v.clone()
            t.cls, t.f, t.tag = v.cls, v.f, v.tag
        elif isinstance(t, Vec) and isinstance(v, Vec):
            t.a = v.clone().a
        elif hasattr(t, "__slots__") and type(t) is type(v):
            for k in t.__slots__:
                setattr(t, k, getattr(v, k))
        else:
            raise Unsupported("assignment to the target of a pointer to %s" % type(t).__name__)


class Closure:
    __slots__ = ("node", "env", "this", "m")

    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class NativeFn:
    def __init__(self, fn, name="native"):
        self.fn, self.name = fn, name


class Pair:
    __slots__ = ("first", "second")

    def __init__(self, a, b):
        self.first, self.second = a, b

    def clone(self):
        return Pair(copyval(self.first), copyval(self.second))


def copyval(v):
    c = getattr(v, "clone", None)
    if c is not None and not isinstance(v, (Ptr, Closure)):
        return c()
    return v


class Frame:
    __slots__ = ("env", "this", "node", "cls")

    def __init__(self, env, this, node, cls=None):
        self.env, self.this, self.node, self.cls = env, this, node, cls


class BoundMethod:
    __slots__ = ("obj", "node", "name", "nonvirtual", "expr")

    def __init__(self, obj, node, name, nonvirtual, expr):
        self.obj, self.node, self.name, self.nonvirtual, self.expr = obj, node, name, nonvirtual, expr


# ---------------------------------------------------------------- paths and obligations
class Path:
    def __init__(self, decisions, timeout_ms=20000):
        self.dec = list(decisions)
        self.pos = 0
        self.alts = []            # decision prefixes still to explore
        self.pc = []
        self.timeout = timeout_ms
        self.new = []
        self.n = 0
        self.notes = []

    def fresh(self, pre):
        self.n += 1
        return "%s!%d" % (pre, self.n)

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        self.new.append(c)

    def feasible(self):
        """the assumptions made since the last branch must be consistent with the path"""
        if self.new:
            c = z3.And(self.new) if len(self.new) > 1 else self.new[0]
            self.new = []
            if slicing.query(self.pc, c, self.timeout) == z3.unsat:
                raise PathEnd()

    def sat(self, c=None):
        if c is None:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            s.add(*self.pc)
            return s.check() != z3.unsat
        return slicing.query(self.pc, c, self.timeout) != z3.unsat

    def branch(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            self.feasible()
            t = self.sat(c)
            f = self.sat(z3.Not(c)) if t else True
            if t and f:
                self.alts.append(self.dec[:self.pos] + [False])
                d = True
            elif t:
                d = True          # forced: recorded too, so that a replay consumes one decision per branch
            elif f:
                d = False
            else:
                raise PathEnd()
            self.dec.append(d)
        self.pos += 1
        k = c if d else z3.Not(c)
        self.pc.append(k)
        return d

    def choose(self, n):
        """A finite case split made by a contract (n alternatives)."""
        for i in range(n - 1):
            if self.pos < len(self.dec):
                d = self.dec[self.pos]
            else:
                self.alts.append(self.dec[:self.pos] + [False])
                d = True
                self.dec.append(d)
            self.pos += 1
            if d:
                return i
        return n - 1


class Machine:
    MAXLOOP = 600

    def __init__(self, prog, contracts=None, std=None, path=None):
        self.prog = prog
        self.path = path or Path([])
        self.contracts = contracts or {}
        from . import stdmodel
        self.std = stdmodel.Std(self)
        self.globals = {}
        self.depth = 0
        self.calls = {}           # functions interpreted (for evidence)
        self.loop_hook = None
        self.branch_hook = None
        self.overrides = {}       # contracts keyed by qualified name
        self.steps = 0
        self.max_steps = 3000000
        self.init_static = {}
        self.global_over = {}

    # -- helpers
    def branch(self, c):
        return self.path.branch(c)

    def truth(self, v):
        c = to_bool(v)
        if isinstance(c, bool):
            return c
        if self.branch_hook is not None:
            r = self.branch_hook(c)
            if r is not None:
                return r
        return self.path.branch(c)

    def rv(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, Ref):
            return v.get()
        return v

    def lv(self, n, fr):
        v = self.ev(n, fr)
        if isinstance(v, Ref):
            return v
        return Cell(v)

    def ev(self, n, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooMany("step limit")
        m = getattr(self, "e_" + n["kind"], None)
        if m is None:
            raise Unsupported("expression %s" % n["kind"])
        return m(n, fr)

    # -- literals
    def e_IntegerLiteral(self, n, fr):
        return int(n["value"])

    def e_CharacterLiteral(self, n, fr):
        return int(n["value"])

    def e_FloatingLiteral(self, n, fr):
        return self.real_literal(n["value"])

    def real_literal(self, s):
        v = float(s)
        for c, r in ((3.141592653589793, PI), (1.5707963267948966, PI * R.const(Fraction(1, 2))), (0.7853981633974483, PI * R.const(Fraction(1, 4))),
                     (6.283185307179586, PI * 2), (0.7071067811865476, R2), (1.4142135623730951, R2 * 2)):
            if v and abs(v - c) < 2e-7 * c:
                return r
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite literal")
        return R.const(Fraction(s) if "x" not in s else Fraction(v))

    def e_CXXBoolLiteralExpr(self, n, fr):
        return bool(n["value"])

    def e_CXXNullPtrLiteralExpr(self, n, fr):
        return None

    def e_GNUNullExpr(self, n, fr):
        return None

    def e_StringLiteral(self, n, fr):
        return n.get("value", "")

    # -- wrappers
    def _inner(self, n, fr):
        return self.ev(n["inner"][0], fr)
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_FullExpr = _inner
    e_SubstNonTypeTemplateParmExpr = _inner

    def e_CXXDefaultInitExpr(self, n, fr):
        raise Unsupported("default member initialiser expression")

    def e_CXXThisExpr(self, n, fr):
        return Ptr(fr.this)

    def e_DeclRefExpr(self, n, fr):
        d = n["referencedDecl"]
        i = d["id"]
        e = fr.env.get(i)
        if e is not None:
            return e
        return self.global_ref(n, d, fr)

    def global_ref(self, n, d, fr):
        k = d["kind"]
        tu = fr.node["_tu"]
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return FnName(d, n)
        if k == "EnumConstantDecl":
            return self.enum_value(d, tu)
        key = (tu.path, d["id"])
        if key in self.globals:
            return self.globals[key]
        name = d.get("name", "")
        if name in self.global_over:
            v = self.global_over[name]
            c = v if isinstance(v, Ref) else Cell(v)
            self.globals[key] = c
            return c
        node = tu.byid.get(d["id"])
        if node is None:
            c = self.std.global_var(name, d)
            self.globals[key] = c
            return c
        if k == "VarDecl":
            init = self.var_init(node)
            if init is None:
                q = tu.qn.get(d["id"])
                for t in self.prog.tus:
                    nd = t.vars.get(q)
                    if nd is not None and self.var_init(nd) is not None:
                        node, init = nd, self.var_init(nd)
                        break
            if init is None:
                raise Unsupported("global %s has no initialiser" % name)
            f2 = Frame({}, None, {"_tu": node["_tu"], "kind": "global"})
            v = self.init_value(init, f2, qtype(node))
            c = v if isinstance(v, Ref) else Cell(v)
            self.globals[key] = c
            return c
        raise Unsupported("reference to %s %s" % (k, name))

    def var_init(self, node):
        if "init" not in node:
            return None
        for c in reversed(node.get("inner", ())):
            if isinstance(c, dict) and c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")) or c.get("kind") == "InitListExpr":
                return c
        return None

    def enum_value(self, d, tu):
        node = tu.byid.get(d["id"])
        if node is None:
            return self.std.enum_const(d)
        q = tu.parent.get(d["id"])
        en = tu.byid[q]
        v = -1
        for c in en["inner"]:
            if c.get("kind") != "EnumConstantDecl":
                continue
            if c.get("inner"):
                e = [x for x in c["inner"] if x.get("kind") in ("ConstantExpr", "ImplicitCastExpr", "IntegerLiteral", "UnaryOperator", "BinaryOperator")]
                if e:
                    v = self.rv(e[0], Frame({}, None, {"_tu": tu}))
                else:
                    v += 1
            else:
                v += 1
            if c["id"] == d["id"]:
                return v
        raise Unsupported("enum constant")

    # -- member access
    def e_MemberExpr(self, n, fr):
        base = n["inner"][0]
        mid = n["referencedMemberDecl"]
        name = n["name"]
        tu = fr.node["_tu"]
        decl = tu.byid.get(mid)
        b = self.ev(base, fr)
        if isinstance(b, Ref):
            b = b.get()
        if n.get("isArrow"):
            if b is None:
                raise NullDeref("-> on a null pointer (member %s)" % name)
            if isinstance(b, Ptr):
                r = b.deref()
                b = r.get() if isinstance(r, Ref) else r
        tname = (n.get("type") or {}).get("qualType", "")
        if tname == "<bound member function type>":
            nonvirt = "::" in text_of(n)
            return BoundMethod(b, decl, name, nonvirt, n)
        if decl is not None and decl.get("kind") == "VarDecl":
            return self.global_ref(n, {"kind": "VarDecl", "id": mid, "name": name}, fr)
        if isinstance(b, Obj):
            if not name:     # anonymous union / struct
                return Cell(b)
            if name == "f" and b.cls == "Qrack::complex2":      # union of a SIMD vector and its lanes
                return Cell(simd.LaneView(b.field("c2")))
            return b.field(name)
        return self.std.member(b, name, n)

    def e_ArraySubscriptExpr(self, n, fr):
        a = self.ev(n["inner"][0], fr)
        i = self.rv(n["inner"][1], fr)
        if isinstance(a, Ref):
            a = a.get()
        if isinstance(i, (Ptr, Vec)):
            a, i = i, a
        return self.index(a, i)

    def index(self, a, i):
        if a is None:
            raise NullDeref("[] on a null pointer")
        if isinstance(a, Ptr):
            if a.i is None:
                if isinstance(i, int) and i == 0:
                    return a.deref()
                raise Unsupported("[] on a non-array pointer")
            j = a.i + i if isinstance(i, int) and isinstance(a.i, int) else (i if (isinstance(a.i, int) and a.i == 0) else bv(a.i, 64) + bv(i, 64))
            return self.index(a.to, j)
        h = getattr(a, "elem", None)
        if h is not None:
            return h(self, i)
        if isinstance(a, Vec):
            if is_sym(i):
                i = simp(i)
                i = intval(i, False)
            if is_sym(i):
                w = i.size()
                for k in range(len(a.a)):
                    if k == len(a.a) - 1 and not self.path.sat(i != k):
                        return ElemRef(a, k)
                    if self.branch(i == z3.BitVecVal(k, w)):
                        return ElemRef(a, k)
                raise OutOfBounds("symbolic index of %d elements" % len(a.a))
            if not 0 <= i < len(a.a):
                raise OutOfBounds("index %d of %d" % (i, len(a.a)))
            return ElemRef(a, i)
        raise Unsupported("[] on %s" % type(a).__name__)

    # -- casts
    def e_ImplicitCastExpr(self, n, fr):
        return self.cast(n, fr)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def cast(self, n, fr):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.ev(sub, fr)
            return v.get() if isinstance(v, Ref) else v
        if ck in ("NoOp", "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion", "BuiltinFnToFnPtr",
                  "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueBitCast"):
            return self.ev(sub, fr)
        if ck == "ArrayToPointerDecay":
            v = self.ev(sub, fr)
            if isinstance(v, Ref):
                v = v.get()
            return Ptr(v, 0) if not isinstance(v, str) else v
        if ck == "NullToPointer":
            return None
        if ck == "ToVoid":
            self.ev(sub, fr)
            return None
        v = self.rv(sub, fr)
        st, dt = ctype(qtype(sub)), ctype(qtype(n))
        return self.convert(v, st, dt, ck)

    def convert(self, v, st, dt, ck=None):
        if ck == "BitCast":
            if isinstance(v, Ptr) and hasattr(v.to, "recast") and dt[0] == "ptr":
                t = ctype(dt[1]) if isinstance(dt[1], str) else dt[1]
                if t[0] == "int":
                    return Ptr(v.to.recast(t[1] // 8), v.i)
            return v
        if dt[0] == "bool":
            if isinstance(v, R):
                return (v.cval() != 0) if v.is_const() else z3.Not(v.z3() == 0)
            return to_bool(v)
        if dt[0] == "int":
            w, sg = dt[1], dt[2]
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if isinstance(v, int):
                return wrap(v, w, sg)
            if isinstance(v, z3.BitVecRef):
                o = v.size()
                if o == w:
                    return v
                if o > w:
                    return z3.simplify(z3.Extract(w - 1, 0, v))
                return z3.simplify(z3.SignExt(w - o, v) if (st[0] == "int" and st[2]) else z3.ZeroExt(w - o, v))
            if isinstance(v, R):
                if v.is_const():
                    q = v.cval()
                    t = int(q)        # truncation toward zero
                    return wrap(t, w, sg)
                return self.std.float_to_int(v, w, sg)
            if st[0] == "ptr":
                raise Unsupported("pointer to integer cast")
            h = getattr(v, "to_int", None)
            if h:
                return h(w, sg)
            raise Unsupported("conversion of %r to integer" % (type(v).__name__,))
        if dt[0] == "real":
            if isinstance(v, bool):
                return R.const(int(v))
            if isinstance(v, int):
                return R.const(v)
            if isinstance(v, R):
                return v
            if isinstance(v, (z3.BitVecRef, z3.BoolRef)):
                return self.std.int_to_float(v, st)
            return v
        if dt[0] == "class" and isinstance(v, int):
            return v                    # enumeration
        return v

    # -- operators
    def e_UnaryOperator(self, n, fr):
        op = n["opcode"]
        sub = n["inner"][0]
        if op == "&":
            v = self.ev(sub, fr)
            if isinstance(v, ElemRef):
                return Ptr(v.c, v.i)
            if isinstance(v, Ref):
                g = None
                if isinstance(v, Cell):
                    g = v.get()
                if isinstance(g, (Obj,)):
                    return Ptr(g)
                return Ptr(v)
            if isinstance(v, FnName):
                return v
            return Ptr(Cell(v))
        if op == "*":
            v = self.rv(sub, fr)
            if v is None:
                raise NullDeref("* on a null pointer")
            if isinstance(v, Ptr):
                return v.deref()
            raise Unsupported("unary * on %s" % type(v).__name__)
        if op in ("++", "--"):
            ref = self.lv(sub, fr)
            old = ref.get()
            if isinstance(old, Ptr):
                new = Ptr(old.to, old.i + (1 if op == "++" else -1))
            else:
                t = ctype(qtype(sub))
                if t[0] == "real":
                    new = old + (1 if op == "++" else -1)
                else:
                    new = self.arith("+" if op == "++" else "-", old, 1, t)
            ref.set(new)
            return old if n.get("isPostfix") else ref
        v = self.rv(sub, fr)
        if op == "!":
            c = to_bool(v)
            if isinstance(c, bool):
                return not c
            return simp(z3.Not(c))
        if op == "+":
            return v
        if op == "__extension__":
            return v
        t = ctype(qtype(n))
        if op == "-":
            if isinstance(v, (R, Cx)):
                return -v
            if isinstance(v, int):
                return wrap(-v, t[1], t[2])
            return -v
        if op == "~":
            if isinstance(v, int):
                return wrap(~v, t[1], t[2])
            return ~v
        raise Unsupported("unary %s" % op)

    def e_BinaryOperator(self, n, fr):
        op = n["opcode"]
        a, b = n["inner"]
        if op == ",":
            self.ev(a, fr)
            return self.ev(b, fr)
        if op == "=":
            r = self.rv(b, fr)
            l = self.lv(a, fr)
            l.set(copyval(r))
            return l
        if op == "&&":
            x = to_bool(self.rv(a, fr))
            if x is False:
                return False
            if x is not True and not self.truth(x):
                return False
            return to_bool(self.rv(b, fr))
        if op == "||":
            x = to_bool(self.rv(a, fr))
            if x is True:
                return True
            if x is not False and self.truth(x):
                return True
            return to_bool(self.rv(b, fr))
        x = self.rv(a, fr)
        y = self.rv(b, fr)
        ta = ctype(qtype(a))
        return self.binop(op, x, y, ta, ctype(qtype(n)), ctype(qtype(b)))

    def binop(self, op, x, y, ta, tr, tb=None):
        if isinstance(x, (Ptr, str)) or isinstance(y, (Ptr, str)) or x is None or y is None:
            return self.ptr_op(op, x, y)
        if ta[0] == "real" or isinstance(x, R) or isinstance(y, R):
            return self.real_op(op, x, y)
        if ta[0] == "bool":
            ta = ("int", 32, True)
        if ta[0] == "class":            # enum
            ta = ("int", 32, True)
        if ta[0] == "int":
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.icmp(op, x, y, ta)
            return self.arith(op, x, y, ta, tb)
        raise Unsupported("binary %s on %s" % (op, ta))

    def ptr_op(self, op, x, y):
        if op in ("==", "!="):
            if x is None or y is None:
                r = x is None and y is None
            else:
                r = isinstance(x, Ptr) and x.same(y)
            return r if op == "==" else not r
        if op in ("+", "-") and isinstance(x, Ptr) and not isinstance(y, Ptr):
            if x.i is None:
                raise Unsupported("pointer arithmetic on an object pointer")
            if isinstance(y, int) and isinstance(x.i, int):
                return Ptr(x.to, x.i + (y if op == "+" else -y))
            yy = bv(y, 64)
            return Ptr(x.to, simp(bv(x.i, 64) + yy if op == "+" else bv(x.i, 64) - yy))
        if op == "+" and isinstance(y, Ptr):
            return self.ptr_op("+", y, x)
        if op == "-" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.to is y.to:
            return x.i - y.i
        if op in ("<", ">", "<=", ">=") and isinstance(x, Ptr) and isinstance(y, Ptr) and x.to is y.to:
            return {"<": x.i < y.i, ">": x.i > y.i, "<=": x.i <= y.i, ">=": x.i >= y.i}[op]
        raise Unsupported("pointer operation %s" % op)

    def real_op(self, op, x, y):
        if isinstance(x, (int, bool)):
            x = R.const(int(x))
        if isinstance(y, (int, bool)):
            y = R.const(int(y))
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if isinstance(y, R) and not y.t:
                raise DivZero("real division by zero")
            return x / y
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.std.real_cmp(op, x, y)
        raise Unsupported("real %s" % op)

    def icmp(self, op, x, y, t):
        w, sg = t[1], t[2]
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            x, y = int(x), int(y)
            return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        if isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef):
            if op in ("==", "!="):
                if isinstance(x, (int, bool)):
                    x = z3.BoolVal(bool(x)) if x in (0, 1) else x
                if isinstance(y, (int, bool)):
                    y = z3.BoolVal(bool(y)) if y in (0, 1) else y
                if isinstance(x, z3.BoolRef) and isinstance(y, z3.BoolRef):
                    return simp(x == y) if op == "==" else simp(x != y)
        x, y = bv(x, w), bv(y, w)
        if op == "==":
            r = x == y
        elif op == "!=":
            r = x != y
        elif sg:
            r = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        else:
            r = {"<": z3.ULT(x, y), ">": z3.UGT(x, y), "<=": z3.ULE(x, y), ">=": z3.UGE(x, y)}[op]
        return simp(r)

    def arith(self, op, x, y, t, tb=None):
        w, sg = t[1], t[2]
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, int) and isinstance(y, int):
            if op == "+":
                v = x + y
            elif op == "-":
                v = x - y
            elif op == "*":
                v = x * y
            elif op in ("/", "%"):
                if y == 0:
                    raise DivZero("integer division by zero")
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                v = q if op == "/" else x - q * y
            elif op == "&":
                v = x & y
            elif op == "|":
                v = x | y
            elif op == "^":
                v = x ^ y
            elif op in ("<<", ">>"):
                if y < 0 or y >= w:
                    self.ub("shift of a %d-bit value by %d" % (w, y))
                    y &= (w - 1)
                v = x << y if op == "<<" else x >> y
            else:
                raise Unsupported("arith " + op)
            if sg and op in ("+", "-", "*") and wrap(v, w, sg) != v:
                self.ub("signed overflow")
            return wrap(v, w, sg)
        if isinstance(x, int) and op in ("&", "*") and x == 0:
            return 0
        if isinstance(y, int) and op in ("&", "*") and y == 0:
            return 0
        if isinstance(y, int) and op in ("+", "-", "|", "^", "<<", ">>") and y == 0:
            return x if is_sym(x) and isinstance(x, z3.BitVecRef) else bv(x, w)
        if isinstance(x, int) and op in ("<<", ">>") and x == 0:
            return 0
        x = bv(x, w)
        y0 = y
        if op in ("<<", ">>"):
            if isinstance(y, z3.BitVecRef) and y.size() != w:
                if y.size() < w:
                    y = z3.ZeroExt(w - y.size(), y)
                else:
                    # the amount is compared at its own width
                    y = z3.If(z3.UGE(y, z3.BitVecVal(w, y.size())), z3.BitVecVal(w, w), z3.Extract(w - 1, 0, y))
            y = bv(y, w)
            self.shift_check(y, w)
            if op == "<<":
                return z3.simplify(x << y)
            return z3.simplify((x >> y) if sg else z3.LShR(x, y))
        y = bv(y, w)
        if op in ("/", "%"):
            if self.branch(y == 0):
                raise DivZero("integer division by zero")
        h = self.std.arith_hook
        if h is not None:
            r = h(op, x, y, w, sg)
            if r is not None:
                return r
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
             "^": lambda: x ^ y, "/": lambda: (x / y if sg else z3.UDiv(x, y)),
             "%": lambda: (z3.SRem(x, y) if sg else z3.URem(x, y))}[op]()
        return z3.simplify(r)

    ubs = None
    check_shift = False

    def ub(self, what):
        if self.ubs is not None:
            self.ubs.append(what)

    def shift_check(self, y, w):
        if self.check_shift and self.branch(z3.UGE(y, z3.BitVecVal(w, w))):
            raise UndefinedShift("shift amount reaches the operand width (%d bits): %s" % (w, str(y)[:300]))

    def e_CompoundAssignOperator(self, n, fr):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.rv(b, fr)
        l = self.lv(a, fr)
        x = l.get()
        ta = ctype(qtype(a))
        if isinstance(x, Ptr):
            l.set(self.ptr_op(op, x, y))
            return l
        ct = n.get("computeLHSType", {})
        tc = ctype(ct.get("desugaredQualType", ct.get("qualType", qtype(a))))
        x2 = self.convert(x, ta, tc) if tc[0] in ("int", "real", "bool") else x
        v = self.binop(op, x2, y, tc, tc, ctype(qtype(b)))
        if tc[0] == "bool":
            tc = ("int", 32, True)
        v = self.convert(v, tc, ta)
        l.set(v)
        return l

    def e_ConditionalOperator(self, n, fr):
        c, a, b = n["inner"]
        if self.truth(self.rv(c, fr)):
            return self.ev(a, fr)
        return self.ev(b, fr)

    def e_UnaryExprOrTypeTraitExpr(self, n, fr):
        t = n.get("argType", {})
        t = t.get("desugaredQualType", t.get("qualType")) if t else None
        if t is None:
            t = qtype(n["inner"][0])
        k = ctype(t)
        if n.get("name") == "sizeof":
            if k[0] == "int":
                return k[1] // 8
            if k[0] == "bool":
                return 1
            if k[0] == "real":
                return {"float": 4, "double": 8}.get(strip_cv(t), 4)
            if k[0] == "complex":
                return 8
        raise Unsupported("sizeof %s" % t)

    def e_InitListExpr(self, n, fr):
        t = ctype(qtype(n))
        items = n.get("inner") or n.get("array_filler") or []
        if "array_filler" in n:
            items = [x for x in n["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
        if t[0] == "array":
            k = int(t[1][t[1].rindex("[") + 1:-1])
            et = t[1][:t[1].rindex("[")].strip()
            vals = [self.init_value(c, fr, et) for c in items]
            vals = [copyval(v.get() if isinstance(v, Ref) else v) for v in vals]
            while len(vals) < k:
                vals.append(self.zero(et))
            return Vec(vals, et)
        if t[0] in ("int", "real", "bool", "ptr"):
            if not items:
                return self.zero(qtype(n))
            return self.rv(items[0], fr)
        if t[0] == "class":
            return self.std.init_list(self, t[1], items, fr, n)
        if t[0] == "complex":
            v = [self.rv(c, fr) for c in items]
            return Cx(*v) if v else Cx()
        raise Unsupported("initialiser list of %s" % qtype(n))

    def e_CXXStdInitializerListExpr(self, n, fr):
        return self.ev(n["inner"][0], fr)

    def e_ImplicitValueInitExpr(self, n, fr):
        return self.zero(qtype(n))

    def e_CXXScalarValueInitExpr(self, n, fr):
        return self.zero(qtype(n))

    def zero(self, t):
        k = ctype(t)
        if k[0] == "int":
            return 0
        if k[0] == "bool":
            return False
        if k[0] == "real":
            return R.const(0)
        if k[0] == "complex":
            return Cx()
        if k[0] == "ptr":
            return None
        if k[0] == "array":
            s = k[1]
            # outermost dimension first: T[a][b]
            i = s.index("[")
            et, dims = s[:i].strip(), s[i:]
            j = dims.index("]")
            m = int(dims[1:j])
            return Vec([self.zero(et + dims[j + 1:]) for _ in range(m)], et + dims[j + 1:])
        if k[0] == "class":
            return self.std.default_construct(k[1])
        raise Unsupported("zero value of %s" % t)

    def e_CXXThrowExpr(self, n, fr):
        if not n.get("inner"):
            raise CppThrow("rethrow")
        raise CppThrow(strip_cv(qtype(n["inner"][0])), None)

    def e_LambdaExpr(self, n, fr):
        rec = n["inner"][0]
        fields = [c for c in rec["inner"] if c.get("kind") == "FieldDecl"]
        inits = [c for c in n["inner"][1:] if c.get("kind") != "CompoundStmt"]
        env = dict(fr.env)      # constants of the enclosing scope need no capture
        this = fr.this
        for f, ini in zip(fields, inits):
            dr = find_declref(ini)
            if dr is None:
                continue        # this
            t = f["type"].get("qualType", "")
            i = dr["referencedDecl"]["id"]
            if t.endswith("&"):
                env[i] = self.lv(dr, fr)
            else:
                v = self.rv(ini, fr)
                env[i] = Cell(copyval(v))
        m = next(c for c in walk_methods(rec) if c.get("name") == "operator()")
        m.setdefault("_tu", fr.node["_tu"])
        m["_q"] = (fr.node.get("_q") or "?") + "::lambda"
        return Closure(m, env, this)

    def e_CXXDefaultArgExpr(self, n, fr):
        raise Unsupported("default argument outside a call")

    # -- construction
    def e_CXXConstructExpr(self, n, fr):
        t = qtype(n)
        return self.construct(t, n.get("inner", []), fr, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, args, fr, n):
        k = ctype(t)
        if k[0] == "complex":
            v = [self.rv(a, fr) for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if len(v) == 1 and isinstance(v[0], Cx):
                return v[0]
            return Cx(*v)
        if k[0] == "array":
            return self.zero(t)
        if k[0] != "class":
            raise Unsupported("construction of %s" % t)
        cls = canon_class(k[1])
        rec = self.find_record(cls)
        if rec is not None:
            return self.construct_repo(cls, rec, args, fr, n)
        return self.std.construct(self, k[1], args, fr, n)

    def find_record(self, cls):
        for tu in self.prog.tus:
            r = tu.records.get(cls)
            if r is None and cls.startswith("Qrack::"):
                r = tu.records.get(cls[7:])
            if r is not None:
                return r
        return None

    def construct_repo(self, cls, rec, args, fr, n):
        ct = n.get("ctorType", {}).get("qualType", "")
        # copy / move construction
        if len(args) == 1 and ("const %s &" % cls.split("::")[-1] in ct or "%s &&" % cls.split("::")[-1] in ct):
            v = self.rv(args[0], fr)
            ctor0 = self.find_ctor(cls, ct)
            if ctor0 is None or not has_body(ctor0):
                return copyval(v)
        ctor = self.find_ctor(cls, ct)
        argv = None
        if cls in self.contracts:
            vals = [self.rv(a, fr) if a["kind"] != "CXXDefaultArgExpr" else None for a in args]
            return self.contracts[cls](self, cls, vals, n)
        obj = Obj(cls)
        self.default_fields(obj, cls)
        if ctor is None:
            return obj
        self.run_ctor(obj, ctor, args, fr)
        return obj

    def default_fields(self, obj, cls):
        for b in self.prog.bases.get(cls, ()):
            self.default_fields(obj, b)
        rec = self.find_record(cls)
        if rec is None:
            return
        self._fields(obj, rec)

    def _fields(self, obj, rec):
        for c in rec.get("inner", ()):
            if c.get("kind") == "FieldDecl" and c.get("name"):
                t = qtype(c)
                try:
                    ini = [x for x in c.get("inner", ()) if x.get("kind", "").endswith(("Expr", "Literal", "Cleanups", "Operator"))] if c.get("hasInClassInitializer") else []
                    if ini:
                        v = self.init_value(ini[0], Frame({}, obj, {"_tu": rec["_tu"]}), t)
                        v = v.get() if isinstance(v, Ref) else v
                    else:
                        v = self.zero(t)
                    obj.f[c["name"]] = Cell(v)
                except Unsupported:
                    pass
            elif c.get("kind") in ("CXXRecordDecl",) and not c.get("name") and c.get("tagUsed") == "union":
                self._fields(obj, c)

    def find_ctor(self, cls, ct):
        for tu in self.prog.tus:
            for q in (cls + "::" + cls.split("::")[-1],):
                for c in tu.funcs.get(q, ()) or tu.funcs.get(q.replace("Qrack::", "", 1), ()):
                    if c["kind"] == "CXXConstructorDecl" and norm_sig(c["type"]["qualType"]) == norm_sig(ct):
                        d = self.prog.find_def(c)
                        if d is not None:
                            return d
        return None

    def run_ctor(self, obj, ctor, args, fr, vals=None):
        q = ctor.get("_q")
        self.calls[q] = self.calls.get(q, 0) + 1
        env = {}
        if vals is None:
            self.bind_args(ctor, args, fr, env)
        else:
            for p, v in zip(params_of(ctor), vals):
                env[p["id"]] = Cell(v)
        f2 = Frame(env, obj, ctor, q.rsplit("::", 1)[0] if q else None)
        for c in ctor.get("inner", ()):
            if c.get("kind") != "CXXCtorInitializer":
                continue
            if "anyInit" in c:
                nm = c["anyInit"].get("name")
                if c["inner"] and c["inner"][0]["kind"] == "CXXDefaultInitExpr":
                    continue
                t = c["anyInit"].get("type", {})
                v = self.init_value(c["inner"][0], f2, t.get("desugaredQualType", t.get("qualType", "")))
                if isinstance(v, Ref) and not t.get("qualType", "").endswith("&"):
                    v = copyval(v.get())
                if nm:
                    obj.f[nm] = v if isinstance(v, Ref) else Cell(v)
            elif "baseInit" in c:
                e = c["inner"][0]
                while e["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr"):
                    e = e["inner"][0]
                bcls = canon_class(c["baseInit"].get("desugaredQualType", c["baseInit"]["qualType"]))
                if e["kind"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr"):
                    if self.find_record(bcls) is None:
                        continue
                    if bcls in self.contracts:
                        self.contracts[bcls](self, obj, [self.rv(a, f2) if a["kind"] != "CXXDefaultArgExpr" else None for a in e.get("inner", [])], e)
                        continue
                    bc = self.find_ctor(bcls, e.get("ctorType", {}).get("qualType", ""))
                    if bc is not None:
                        self.run_ctor(obj, bc, e.get("inner", []), f2)
                else:
                    raise Unsupported("base initialiser %s" % e["kind"])
            else:
                e = c["inner"][0]
                while e["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                    e = e["inner"][0]
                # delegating constructor
                bc = self.find_ctor(obj.cls, e.get("ctorType", {}).get("qualType", ""))
                if bc is None:
                    raise Unsupported("delegating constructor")
                self.run_ctor(obj, bc, e.get("inner", []), f2)
        b = body_of(ctor)
        if b is not None:
            self.ex(b, f2)

    def init_value(self, init, fr, t):
        """Value (or Ref when the declared type is a reference) initialising a variable of type t."""
        k = ctype(t)
        v = self.ev(init, fr)
        if k[0] == "ref":
            return v if isinstance(v, Ref) else Cell(v)
        if isinstance(v, Ref):
            v = v.get()
        return copyval(v)

    def e_CXXNewExpr(self, n, fr):
        t = ctype(qtype(n))[1]
        inner = n.get("inner", [])
        if n.get("isArray"):
            size = self.rv(inner[0], fr)
            q = qtype(n).strip()
            if "(*)" in q:        # array of arrays
                t = q.replace("(*)", "").strip()
            return Ptr(self.std.new_array(self, t, size, n), 0)
        for c in inner:
            if c["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                o = self.ev(c, fr)
                return Ptr(o)
            v = self.rv(c, fr)
            return Ptr(Cell(v))
        return Ptr(Cell(self.zero(t)))

    def e_CXXDeleteExpr(self, n, fr):
        self.ev(n["inner"][0], fr)
        return None

    # -- calls
    def bind_args(self, fn, args, fr, env):
        ps = params_of(fn)
        if len(args) < len(ps):
            pass
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else {"kind": "CXXDefaultArgExpr"}
            t = qtype(p)
            if a["kind"] == "CXXDefaultArgExpr":
                v = self.default_arg(fn, i)
                if ctype(t)[0] == "ref":
                    v = v if isinstance(v, Ref) else Cell(v)
                    env[p["id"]] = v
                else:
                    env[p["id"]] = Cell(copyval(v.get() if isinstance(v, Ref) else v))
                continue
            if ctype(t)[0] == "ref":
                v = self.ev(a, fr)
                env[p["id"]] = v if isinstance(v, Ref) else Cell(v)
            else:
                env[p["id"]] = Cell(copyval(self.rv(a, fr)))

    def default_arg(self, fn, i):
        for g in [fn] + list(fn.get("_group", ())):
            ps = params_of(g)
            if i < len(ps):
                p = ps[i]
                ini = [x for x in p.get("inner", ()) if isinstance(x, dict) and x.get("kind", "").endswith(("Expr", "Literal", "Cleanups", "Operator"))]
                if ini:
                    return self.ev(ini[0], Frame({}, None, {"_tu": g["_tu"]}))
        raise Unsupported("default argument %d of %s" % (i, fn.get("_q")))

    def e_CallExpr(self, n, fr):
        callee = n["inner"][0]
        args = n["inner"][1:]
        c = callee
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if c["kind"] == "DeclRefExpr" and c["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            d = c["referencedDecl"]
            return self.call_named(d, args, fr, n)
        f = self.rv(callee, fr)
        if isinstance(f, Ptr):
            f = f.deref().get()
        return self.call_value(f, [self.lv(a, fr) for a in args])

    def call_named(self, d, args, fr, n):
        tu = fr.node["_tu"]
        node = tu.byid.get(d["id"])
        name = d["name"]
        if node is not None:
            q = tu.qn.get(d["id"], name)
            ct = self.contracts.get(q)
            if ct is not None:
                r = ct(self, None, self.arg_refs(node, args, fr), n)
                if r is not NotImplemented:
                    return r
            df = self.prog.find_def(node)
            if df is not None and has_body(df):
                return self.call_fn(df, args, fr, None)
            r = self.std.repo_function(self, q, args, fr, n)
            if r is not NotImplemented:
                return r
            raise Unsupported("no body and no contract for %s" % q)
        return self.std.call(self, name, args, fr, n, d)

    def arg_refs(self, node, args, fr):
        out = []
        ps = params_of(node)
        for i, a in enumerate(args):
            if a["kind"] == "CXXDefaultArgExpr":
                v = self.default_arg(node, i)
                out.append(v if isinstance(v, Ref) else Cell(v))
            elif i < len(ps) and ctype(qtype(ps[i]))[0] == "ref":
                out.append(self.lv(a, fr))
            else:
                out.append(Cell(copyval(self.rv(a, fr))))
        for i in range(len(args), len(ps)):
            v = self.default_arg(node, i)
            out.append(v if isinstance(v, Ref) else Cell(v))
        return out

    def call_fn(self, df, args, fr, this):
        env = {}
        self.bind_args(df, args, fr, env)
        return self.run(df, env, this)

    def run(self, df, env, this):
        q = df.get("_q")
        self.calls[q] = self.calls.get(q, 0) + 1
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("recursion depth")
        f2 = Frame(env, this, df)
        b = body_of(df)
        try:
            r = self.ex(b, f2)
        finally:
            self.depth -= 1
        if isinstance(r, tuple):
            v = r[1]
            rt = df["type"]["qualType"].split("(")[0].strip()
            if isinstance(v, Ref) and not rt.endswith("&"):
                v = v.get()
            return v
        return None

    def call_def(self, df, vals, this=None):
        """Run a definition on already evaluated values (Refs are bound to reference parameters)."""
        env = {}
        ps = params_of(df)
        for i, p in enumerate(ps):
            if i < len(vals):
                v = vals[i]
            else:
                v = self.default_arg(df, i)
            if ctype(qtype(p))[0] == "ref":
                env[p["id"]] = v if isinstance(v, Ref) else Cell(v)
            else:
                env[p["id"]] = Cell(copyval(v.get() if isinstance(v, Ref) else v))
        return self.run(df, env, this)

    def call_value(self, f, vals):
        if isinstance(f, Ref):
            f = f.get()
        if isinstance(f, NativeFn):
            return f.fn(*vals)
        if isinstance(f, Closure):
            env = dict(f.env)
            for p, v in zip(params_of(f.node), vals):
                if ctype(qtype(p))[0] == "ref":
                    env[p["id"]] = v if isinstance(v, Ref) else Cell(v)
                else:
                    env[p["id"]] = Cell(copyval(v.get() if isinstance(v, Ref) else v))
            self.depth += 1
            f2 = Frame(env, f.this, f.node)
            try:
                r = self.ex(body_of(f.node), f2)
            finally:
                self.depth -= 1
            if isinstance(r, tuple):
                v = r[1]
                return v
            return None
        if isinstance(f, FnName):
            tu = f.expr["_tu"] if "_tu" in f.expr else None
            for t in self.prog.tus:
                node = t.byid.get(f.d["id"])
                if node is not None and node.get("name") == f.d["name"]:
                    df = self.prog.find_def(node)
                    if df is not None:
                        return self.call_def(df, vals)
            return self.std.call_native(self, f.d["name"], vals)
        if f is None:
            raise NullDeref("call of an empty function object")
        raise Unsupported("call of %s" % type(f).__name__)

    def e_CXXMemberCallExpr(self, n, fr):
        callee = n["inner"][0]
        while callee["kind"] == "ParenExpr":
            callee = callee["inner"][0]
        bm = self.ev(callee, fr)
        if not isinstance(bm, BoundMethod):
            raise Unsupported("member call through %s" % type(bm).__name__)
        return self.call_method(bm, n["inner"][1:], fr, n)

    def call_method(self, bm, args, fr, n):
        o = bm.obj
        node = bm.node
        h = getattr(o, "method", None)
        if h is not None:               # specification object standing for a repository or library object
            r = h(self, bm, args, fr, n)
            if r is not NotImplemented:
                return r
        if node is None:
            return self.std.method(self, o, bm.name, args, fr, n)
        target = node
        if isinstance(o, Obj) and not bm.nonvirtual:
            t = self.resolve_virtual(o.cls, node)
            if t is not None:
                target = t
        q = target.get("_q") or fr.node["_tu"].qn.get(target["id"])
        ct = self.contracts.get(q)
        if ct is not None:
            r = ct(self, o, self.arg_refs(target, args, fr), n)
            if r is not NotImplemented:
                return r
        df = self.prog.find_def(target)
        if df is None or not has_body(df):
            raise Unsupported("no body and no contract for %s" % q)
        return self.call_fn(df, args, fr, o)

    def resolve_virtual(self, cls, node):
        name = node.get("name")
        sig = norm_sig(node["type"]["qualType"])
        for c in self.prog.linear_bases(cls):
            for tu in self.prog.tus:
                for m in tu.funcs.get(c + "::" + (name or ""), ()):
                    if norm_sig(m["type"]["qualType"]) == sig:
                        return m
        return None

    def invoke(self, obj, name, vals, sig=None, cls=None):
        """Call a method of a repository object by name on evaluated values (used by the specifications)."""
        for c in self.prog.linear_bases(cls or obj.cls):
            for tu in self.prog.tus:
                cand = [m for m in tu.funcs.get(c + "::" + name, ()) if m["kind"] == "CXXMethodDecl"]
                cand = [m for m in cand if len(params_of(m)) >= len(vals)]
                if sig is not None:
                    cand = [m for m in cand if sig(m)]
                for m in cand:
                    d = self.prog.find_def(m)
                    if d is not None and has_body(d):
                        return self.call_def(d, vals, obj)
        raise Unsupported("no method %s::%s with a body" % (obj.cls, name))

    def e_CXXOperatorCallExpr(self, n, fr):
        callee = n["inner"][0]
        c = callee
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        d = c["referencedDecl"]
        args = n["inner"][1:]
        tu = fr.node["_tu"]
        node = tu.byid.get(d["id"])
        if d["name"] == "operator()":
            f = self.rv(args[0], fr)
            if isinstance(f, (Closure, NativeFn)) or f is None:
                return self.call_value(f, [self.lv(a, fr) for a in args[1:]])
        if node is not None:
            if d["kind"] == "CXXMethodDecl":
                o = self.lv(args[0], fr)
                ov = o.get()
                if node.get("name") == "operator=" and (node.get("isImplicit") or not has_body(self.prog.find_def(node) or {})):
                    o.set(copyval(self.rv(args[1], fr)))
                    return o
                h = getattr(ov, "method", None)
                if h is not None:
                    r = h(self, BoundMethod(ov, node, d["name"], False, n), args[1:], fr, n)
                    if r is not NotImplemented:
                        return r
                q = tu.qn.get(d["id"])
                ct = self.contracts.get(q)
                if ct is not None:
                    r = ct(self, ov, self.arg_refs(node, args[1:], fr), n)
                    if r is not NotImplemented:
                        return r
                df = self.prog.find_def(node)
                if df is not None and has_body(df):
                    return self.call_fn(df, args[1:], fr, ov)
                raise Unsupported("operator %s without a body" % q)
            return self.call_named(d, args, fr, n)
        return self.std.operator(self, d["name"], args, fr, n)

    # ---------------------------------------------------------------- statements
    def ex(self, n, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooMany("step limit")
        k = n.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if m is not None:
            return m(n, fr)
        if k is None:
            return None
        self.ev(n, fr)
        return None

    scoped = False      # objects with a scope_exit method (locks) are released at the end of their block

    def s_CompoundStmt(self, n, fr):
        if self.scoped:
            try:
                r = self.block(n, fr)
            except CppThrow:
                self.leave(n, fr)
                raise
            self.leave(n, fr)
            return r
        return self.block(n, fr)

    def leave(self, n, fr):
        for c in reversed(n.get("inner", [])):
            if c.get("kind") == "DeclStmt":
                for d in reversed(c.get("inner", [])):
                    r = fr.env.pop(d.get("id"), None) if d.get("kind") == "VarDecl" else None
                    v = r.v if isinstance(r, Cell) else None
                    if hasattr(v, "scope_exit"):
                        v.scope_exit()

    def block(self, n, fr):
        for c in n.get("inner", ()):
            r = self.ex(c, fr)
            if r is not None:
                return r
        return None

    def s_NullStmt(self, n, fr):
        return None

    def s_DeclStmt(self, n, fr):
        for c in n.get("inner", ()):
            if c["kind"] == "VarDecl":
                self.declare(c, fr)
            elif c["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported("declaration %s" % c["kind"])

    def declare(self, c, fr):
        t = qtype(c)
        init = self.var_init(c)
        if c.get("storageClass") == "static":
            key = ("static", c["id"])
            if key in self.globals:
                fr.env[c["id"]] = self.globals[key]
                return
        if init is None:
            k = ctype(t)
            if k[0] in ("int", "bool", "real", "ptr"):
                cell = Cell(UNINIT)
            else:
                cell = Cell(self.zero(t))
        else:
            v = self.init_value(init, fr, t)
            cell = v if isinstance(v, Ref) else Cell(v)
        fr.env[c["id"]] = cell
        if c.get("storageClass") == "static":
            self.globals[("static", c["id"])] = cell

    def s_IfStmt(self, n, fr):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0), fr)
        if n.get("hasVar"):
            self.ex(inner.pop(0), fr)
        if self.truth(self.rv(inner[0], fr)):
            return self.ex(inner[1], fr)
        if len(inner) > 2:
            return self.ex(inner[2], fr)
        return None

    def s_ReturnStmt(self, n, fr):
        if n.get("inner"):
            v = self.ev(n["inner"][0], fr)
            if isinstance(v, Ref):
                # by-value returns are copied by run()
                rt = fr.node["type"]["qualType"].split("(")[0].strip() if "type" in fr.node else ""
                if not rt.endswith("&") and "auto" not in rt:
                    v = copyval(v.get())
            return ("ret", v)
        return ("ret", None)

    def s_BreakStmt(self, n, fr):
        return "brk"

    def s_ContinueStmt(self, n, fr):
        return "cont"

    def s_ForStmt(self, n, fr):
        init, var, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.ex(init, fr)
        return self.loop(n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, fr)

    def s_WhileStmt(self, n, fr):
        inner = n["inner"]
        return self.loop(n, inner[-2], None, inner[-1], fr)

    do_hook = None

    def s_DoStmt(self, n, fr):
        body, cond = n["inner"]
        if self.do_hook is not None:
            r = self.do_hook(self, n, cond, body, fr)
            if r is not NotImplemented:
                return r
        for it in range(self.MAXLOOP):
            r = self.ex(body, fr)
            if r == "brk":
                return None
            if isinstance(r, tuple):
                return r
            if not self.truth(self.rv(cond, fr)):
                return None
        raise TooMany("loop bound")

    def loop(self, n, cond, inc, body, fr):
        if self.loop_hook is not None:
            r = self.loop_hook(self, n, cond, inc, body, fr)
            if r is not NotImplemented:
                return r
        for it in range(self.MAXLOOP):
            if cond is not None:
                c = to_bool(self.rv(cond, fr))
                if c is False:
                    return None
                if c is not True:
                    if it > self.MAXSYM:
                        raise TooMany("loop with a symbolic bound")
                    if not self.truth(c):
                        return None
            r = self.ex(body, fr)
            if r == "brk":
                return None
            if isinstance(r, tuple):
                return r
            if inc is not None:
                self.ev(inc, fr)
        raise TooMany("loop bound")
    MAXSYM = 70

    def s_CXXForRangeStmt(self, n, fr):
        inner = [c for c in n["inner"]]
        rng = next(c for c in inner if c.get("kind") == "DeclStmt")
        body = inner[-1]
        var = inner[-2]["inner"][0]
        self.s_DeclStmt(rng, fr)
        r = fr.env[rng["inner"][0]["id"]].get()
        t = qtype(var)
        isref = ctype(t)[0] == "ref"
        if self.loop_hook is not None and hasattr(r, "elem") and hasattr(r, "n"):
            # symbolic container: an index loop over a hidden counter, under a loop contract
            ix = fr.env[("range", n["id"])] = Cell(z3.BitVecVal(0, 64))

            def cond(_m=self):
                return simp(z3.ULT(ix.get(), r.n))

            def inc():
                ix.set(simp(ix.get() + 1))

            def bodyf():
                ref = r.elem(self, ix.get())
                fr.env[var["id"]] = ref if isref else Cell(copyval(ref.get()))
                return self.ex(body, fr)
            x = self.loop_hook(self, n, cond, inc, bodyf, fr)
            if x is not NotImplemented:
                return x
        for ref in self.std.iterate(self, r):
            if isref:
                fr.env[var["id"]] = ref
            else:
                fr.env[var["id"]] = Cell(copyval(ref.get()))
            x = self.ex(body, fr)
            if x == "brk":
                return None
            if isinstance(x, tuple):
                return x
        return None

    def s_SwitchStmt(self, n, fr):
        inner = n["inner"]
        v = self.rv(inner[-2], fr)
        body = inner[-1]
        # flatten the labels
        flat = []

        def add(c):
            if c["kind"] == "CaseStmt":
                flat.append(("case", c["inner"][0]))
                add(c["inner"][-1])
            elif c["kind"] == "DefaultStmt":
                flat.append(("default", None))
                add(c["inner"][-1])
            else:
                flat.append(("stmt", c))
        for c in body.get("inner", ()):
            add(c)
        start = None
        for i, (k, c) in enumerate(flat):
            if k == "case":
                cv = self.rv(c, fr)
                if is_sym(v):
                    hit = self.branch(v == bv(cv, v.size()))
                else:
                    hit = cv == v
                if hit:
                    start = i
                    break
        if start is None:
            start = next((i for i, (k, c) in enumerate(flat) if k == "default"), None)
        if start is None:
            return None
        for k, c in flat[start:]:
            if k == "stmt":
                r = self.ex(c, fr)
                if r == "brk":
                    return None
                if r is not None:
                    return r
        return None

    def s_CXXTryStmt(self, n, fr):
        try:
            return self.ex(n["inner"][0], fr)
        except CppThrow as e:
            for c in n["inner"][1:]:
                var = next((x for x in c["inner"] if x.get("kind") == "VarDecl"), None)
                body = c["inner"][-1]
                if var is None or self.catches(qtype(var), e.tname):
                    if var is not None:
                        fr.env[var["id"]] = Cell(e)
                    try:
                        return self.ex(body, fr)
                    except CppThrow as e2:
                        if e2.tname == "rethrow":
                            raise e
                        raise
            raise

    def catches(self, t, tn):
        t = strip_cv(t).replace("&", "").strip()
        if t == tn or t.split("::")[-1] == tn.split("::")[-1]:
            return True
        h = {"exception": ("logic_error", "runtime_error", "domain_error", "invalid_argument", "out_of_range", "length_error", "bad_alloc", "bad_function_call"),
             "logic_error": ("domain_error", "invalid_argument", "out_of_range", "length_error")}
        return tn.split("::")[-1] in h.get(t.split("::")[-1], ())


class Uninit:
    def __repr__(self):
        return "<uninitialised>"


UNINIT = Uninit()


class NullDeref(Exception):
    pass


class DivZero(Exception):
    pass


class UndefinedShift(Exception):
    pass


class FnName:
    __slots__ = ("d", "expr")

    def __init__(self, d, expr):
        self.d, self.expr = d, expr


def find_declref(n):
    if n.get("kind") == "DeclRefExpr":
        return n
    if n.get("kind") == "CXXThisExpr":
        return None
    for c in n.get("inner", ()):
        r = find_declref(c)
        if r is not None:
            return r
    return None


def walk_methods(rec):
    for c in rec.get("inner", ()):
        if c.get("kind") == "CXXMethodDecl":
            yield c
        elif c.get("kind") == "FunctionTemplateDecl":
            for x in c.get("inner", ()):
                if x.get("kind") == "CXXMethodDecl":
                    yield x


_ns = {}


def norm_sig(s):
    r = _ns.get(s)
    if r is None:
        r = s.replace("Qrack::", "").replace("std::", "").replace(" const", "").replace("const ", "").replace(" noexcept", "").replace(" override", "")
        i = r.find("(")
        r = r[i:] if i >= 0 else r
        for a, b in (("bitLenInt", "uint8_t"), ("bitCapInt", "unsigned __int128"), ("unsigned char", "uint8_t"), ("real1_f", "float"), ("real1", "float"),
                     ("std::complex<float>", "complex"), ("unsigned __int128Ocl", "bitCapIntOcl")):
            r = r.replace(a, b)
        r = r.replace(" ", "")
        _ns[s] = r
    return r

from . import simd      # (at the end: simd uses the classes above)
