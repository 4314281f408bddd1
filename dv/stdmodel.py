"""Contracts (assumed, trusted) of the C++ standard library and of compiler intrinsics used by the verified code."""
import z3
from fractions import Fraction
from .astload import qtype, canon_class
from .real import zlin, R, Cx, toR, toCx, R2, PI, SQ, AX, INV, NegZero, axioms as real_axioms
from . import real as realmod


def _i():
    from . import interp
    return interp


SORTED = {}


def sorted_by_contract(m, ins):
    """std::sort by its contract: an ascending rearrangement (strictly ascending if the elements differ)"""
    w = ins[0].size()
    ins = [z3.simplify(x) for x in ins]
    outs = [z3.BitVec(m.path.fresh("sorted"), w) for _ in ins]
    adj = list(zip(outs, outs[1:]))
    diff = z3.And([x != y for k, x in enumerate(ins) for y in ins[:k]])
    f = [z3.ULE(x, y) for x, y in adj]
    f.append(diff == z3.And([z3.ULT(x, y) for x, y in adj]))
    f += [z3.Or([x == y for y in ins]) for x in outs] + [z3.Or([x == y for x in outs]) for y in ins]

    def fold(l):
        r = l[0]
        for x in l[1:]:
            r = r | x
        return r
    f.append(fold(outs) == fold(ins))
    m.path.assume(z3.And(f))
    SORTED[tuple(x.get_id() for x in outs)] = (outs, ins)
    return outs


class It:
    """Iterator into a Vec (also a plain pointer range)."""
    __slots__ = ("c", "i", "rev")

    def __init__(self, c, i):
        self.c, self.i, self.rev = c, i, False

    def clone(self):
        return It(self.c, self.i)


class PyMap:
    """std::map / std::set with concrete (hashable) keys, kept in key order on iteration."""
    __slots__ = ("d", "kind")

    def __init__(self, kind="map"):
        self.d, self.kind = {}, kind

    def clone(self):
        m = PyMap(self.kind)
        from .interp import copyval
        m.d = {k: copyval(v) for k, v in self.d.items()}
        return m


class Tup:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


def cre(x):
    return x.re if isinstance(x, Cx) else toR(x)


class Std:
    def __init__(self, m):
        self.m = m
        self.arith_hook = None
        self.sort_contract = False
        self.used = set()
        self.zero_tol = ("FP_NORM_EPSILON", "REAL1_EPSILON", "TRYDECOMPOSE_EPSILON", "FP_NORM_EPSILON_F", "QRACK_EPS")
        self.exact_tol = True

    # ---- reals
    def real_cmp(self, op, x, y):
        d = toR(x) - toR(y)
        if d.is_const():
            c = d.cval()
            return {"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
        ats = d.atoms()
        # numeric evaluation when every atom is one of the closed constants
        if ats <= {"r2", "pi"}:
            import math
            v = 0.0
            for m_, c in d.t.items():
                p = float(c)
                for a, e in m_:
                    p *= {"r2": math.sqrt(0.5), "pi": math.pi}[a] ** e
                v += p
            if abs(v) > 1e-9:
                return {"==": False, "!=": True, "<": v < 0, ">": v > 0, "<=": v < 0, ">=": v > 0}[op]
        if getattr(self, "lin", False):
            e = zlin(d)
            # a monomial of squares is not negative
            for m_, _ in d.t.items():
                if m_ and not (len(m_) == 1 and m_[0][1] == 1) and all(x % 2 == 0 for _, x in m_):
                    self.m.path.assume(z3.Real("mon<%s>" % (m_,)) >= 0)
        else:
            self.add_axioms(ats)
            e = d.z3()
        return {"==": e == 0, "!=": e != 0, "<": e < 0, ">": e > 0, "<=": e <= 0, ">=": e >= 0}[op]

    def add_axioms(self, ats):
        todo = [a for a in ats if ("ax", a) not in self.m.globals]
        while todo:
            a = todo.pop()
            if ("ax", a) in self.m.globals:
                continue
            self.m.globals[("ax", a)] = True
            if a in INV:
                todo += list(INV[a].atoms())
            for c in real_axioms({a}):
                self.m.path.assume(c)

    def int_to_float(self, v, st):
        n = "i2f<%s>" % (v.sexpr(),)
        return R.atom(n)

    def float_to_int(self, v, w, sg):
        raise _i().Unsupported("float to integer conversion of a symbolic real")

    # ---- globals
    def global_var(self, name, d):
        t = (d.get("type") or {}).get("qualType", "")
        if name in ("cout", "cerr", "clog", "endl"):
            return _i().Cell(Stream())
        raise _i().Unsupported("external variable %s" % name)

    def enum_const(self, d):
        return {"ready": 0, "deferred": 2, "timeout": 1, "async": 1}.get(d["name"], 0)

    def new_array(self, m, t, size, n):
        I = _i()
        if not isinstance(size, int):
            raise I.Unsupported("array of symbolic size")
        if size > 4096:
            raise I.Unsupported("large array")
        return I.Vec([m.zero(t) for _ in range(size)], t)

    # ---- construction
    def default_construct(self, t):
        I = _i()
        b = base_name(t)
        if b in ("vector", "array", "deque", "list", "initializer_list", "basic_string", "string"):
            if b in ("basic_string", "string"):
                return ""
            if b == "array":
                return I.Vec([self.m.zero(targ(t, 0)) for _ in range(int(targ(t, 1)))], targ(t, 0))
            return I.Vec([], targ(t, 0))
        if b in ("shared_ptr", "unique_ptr", "function", "weak_ptr"):
            return None
        if b in ("map", "unordered_map"):
            return PyMap("map")
        if b in ("set", "unordered_set"):
            return PyMap("set")
        if b == "complex":
            return Cx()
        if b in ("pair",):
            return I.Pair(self.m.zero(targ(t, 0)), self.m.zero(targ(t, 1)))
        if b in ("mutex", "recursive_mutex", "lock_guard", "unique_lock", "random_device", "condition_variable", "atomic", "future"):
            return Opaque(b)
        cls = canon_class(t)
        rec = self.m.find_record(cls)
        if rec is not None:
            o = I.Obj(cls)
            self.m.default_fields(o, cls)
            return o
        return Opaque(b)

    def construct(self, m, t, args, fr, n):
        I = _i()
        b = base_name(t)
        vals = None
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if b in ("domain_error", "invalid_argument", "out_of_range", "runtime_error", "logic_error", "bad_alloc", "exception", "length_error"):
            return Opaque(b)
        if b in ("vector", "deque", "list", "initializer_list"):
            vals = [m.ev(a, fr) for a in args]
            vals = [v.get() if isinstance(v, I.Ref) else v for v in vals]
            et = targ(t, 0)
            if not vals:
                return I.Vec([], et)
            v0 = vals[0]
            if len(vals) == 1 and hasattr(v0, "clone") and not isinstance(v0, It):
                return v0.clone()
            if isinstance(v0, It) and len(vals) >= 2:
                return self.range_vec(v0, vals[1], et)
            if isinstance(v0, I.Ptr) and len(vals) >= 2 and isinstance(vals[1], I.Ptr):
                return I.Vec([I.copyval(v0.to.load(k)) for k in range(v0.i, vals[1].i)], et)
            if isinstance(v0, int):
                fill = vals[1] if len(vals) > 1 else m.zero(et)
                return I.Vec([I.copyval(fill) for _ in range(v0)], et)
            h = getattr(self, "vector_of", None)
            if h:
                return h(m, t, vals)
            raise I.Unsupported("vector construction from %s" % type(v0).__name__)
        if b in ("shared_ptr", "unique_ptr", "weak_ptr"):
            if not args:
                return None
            v = m.rv(args[0], fr)
            return v
        if b == "function":
            if not args:
                return None
            return m.rv(args[0], fr)
        if b in ("basic_string", "string"):
            return m.rv(args[0], fr) if args else ""
        if b == "pair":
            vals = [m.rv(a, fr) for a in args]
            if len(vals) == 1:
                return I.copyval(vals[0])
            if not vals:
                return self.default_construct(t)
            return I.Pair(I.copyval(vals[0]), I.copyval(vals[1]))
        if b in ("map", "set", "unordered_map", "unordered_set"):
            if not args:
                return PyMap(b)
            v = m.rv(args[0], fr)
            if isinstance(v, PyMap):
                return v.clone()
            if isinstance(v, It):
                e = m.rv(args[1], fr)
                p = PyMap(b)
                for k in range(v.i, e.i):
                    self.map_put(p, I.copyval(v.c.load(k)))
                return p
            raise I.Unsupported("construct " + t)
        if b in ("lock_guard", "unique_lock", "mutex", "recursive_mutex", "uniform_real_distribution", "random_device"):
            return Opaque(b)
        if b == "complex":
            vals = [m.rv(a, fr) for a in args]
            return Cx(*vals) if not (len(vals) == 1 and isinstance(vals[0], Cx)) else vals[0]
        if "iterator" in b or "iter" in b:
            return m.rv(args[0], fr)
        if t.startswith("(lambda"):
            return m.rv(args[0], fr)
        if b == "_Bit_reference":
            return m.ev(args[0], fr)
        if b == "tuple":
            return Tup([m.rv(a, fr) for a in args])
        if len(args) == 1:
            return I.copyval(m.rv(args[0], fr))
        if not args:
            return self.default_construct(t)
        raise I.Unsupported("construction of %s" % t)

    def range_vec(self, b, e, et):
        I = _i()
        if b.c is not e.c or not isinstance(b.i, int) or not isinstance(e.i, int):
            raise I.Unsupported("iterator range")
        return I.Vec([I.copyval(b.c.load(k)) for k in range(b.i, e.i)], et)

    def map_put(self, p, v):
        I = _i()
        if p.kind.endswith("set"):
            p.d.setdefault(key_of(v), v)
        else:
            p.d.setdefault(key_of(v.first), v.second)

    def init_list(self, m, t, items, fr, n):
        I = _i()
        b = base_name(t)
        if b in ("vector", "initializer_list", "array"):
            if b == "array" and len(items) == 1 and items[0]["kind"] == "InitListExpr":
                return m.ev(items[0], fr)
            vals = [I.copyval(m.rv(c, fr)) for c in items]
            return I.Vec(vals, targ(t, 0))
        cls = canon_class(t)
        rec = m.find_record(cls)
        if rec is not None:
            o = I.Obj(cls)
            fs = [c for c in rec["inner"] if c.get("kind") == "FieldDecl"]
            for f, c in zip(fs, items):
                o.f[f["name"]] = I.Cell(I.copyval(m.rv(c, fr)))
            for f in fs[len(items):]:
                o.f[f["name"]] = I.Cell(m.zero(qtype(f)))
            return o
        if len(items) == 1:
            return m.rv(items[0], fr)
        raise I.Unsupported("initialiser list of %s" % t)

    # ---- iteration
    def iterate(self, m, c):
        I = _i()
        if isinstance(c, I.Vec):
            for k in range(len(c.a)):
                yield I.ElemRef(c, k)
            return
        if isinstance(c, PyMap):
            for k in sorted(c.d, key=lambda z: z[1] if isinstance(z, tuple) and len(z) == 2 and not hasattr(z[1], 'sexpr') else repr(z)):
                if c.kind.endswith("set"):
                    yield I.Cell(c.d[k])
                else:
                    yield I.Cell(MapEntry(c, k))
            return
        h = getattr(c, "iterate", None)
        if h:
            yield from h(m)
            return
        raise I.Unsupported("iteration over %s" % type(c).__name__)

    # ---- members of library objects
    def member(self, b, name, n):
        I = _i()
        if isinstance(b, MapEntry):
            return b.ref(name)
        if isinstance(b, I.Pair):
            p = b
            return I.FnRef(lambda: getattr(p, name), lambda v: setattr(p, name, v))
        h = getattr(b, "member", None)
        if h:
            return h(name)
        raise I.Unsupported("member %s of %s" % (name, type(b).__name__))

    def method(self, m, o, name, args, fr, n):
        I = _i()
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if isinstance(o, I.Ref):
            o = o.get()
        if isinstance(o, I.Vec):
            return self.vec_method(m, o, name, args, fr, n)
        if isinstance(o, Cx):
            if name in ("real", "imag") and not args:
                return o.re if name == "real" else o.im
        if isinstance(o, PyMap):
            return self.map_method(m, o, name, args, fr, n)
        if name in ("operator bool",):
            if isinstance(o, (bool, z3.BoolRef)):          # vector<bool>::reference
                return o
            return False if o is None else m_true(o)
        if name in ("get",) and (o is None or isinstance(o, (I.Ptr,))):
            return o
        if name == "use_count":
            return 2
        if name in ("reset",):
            ref = self.obj_ref(m, n, fr)
            ref.set(m.rv(args[0], fr) if args else None)
            return None
        if name == "release":
            ref = self.obj_ref(m, n, fr)
            v = ref.get()
            ref.set(None)
            return v
        if name == "swap":
            ref = self.obj_ref(m, n, fr)
            r2 = m.lv(args[0], fr)
            a, b = ref.get(), r2.get()
            ref.set(b)
            r2.set(a)
            return None
        if isinstance(o, (bool, z3.BoolRef)) and name == "flip":
            raise I.Unsupported("flip")
        if isinstance(o, Opaque):
            return o.call(name, [m.rv(a, fr) for a in args])
        h = getattr(o, "lib_method", None)
        if h:
            return h(m, name, args, fr, n)
        if isinstance(o, str):
            if name in ("c_str", "str"):
                return o
            if name in ("size", "length"):
                return len(o)
            if name == "empty":
                return not o
        raise I.Unsupported("method %s of %s" % (name, type(o).__name__))

    def obj_ref(self, m, n, fr):
        """The Ref the method is applied to (needed where the method rebinds a handle)."""
        c = n["inner"][0]
        while c["kind"] == "ParenExpr":
            c = c["inner"][0]
        return m.lv(c["inner"][0], fr)

    def vec_method(self, m, o, name, args, fr, n):
        I = _i()
        a = o.a
        if name == "size":
            return len(a)
        if name == "empty":
            return not a
        if name in ("begin", "cbegin"):
            return It(o, 0)
        if name in ("end", "cend"):
            return It(o, len(a))
        if name in ("rbegin", "rend"):
            raise I.Unsupported("reverse iterator")
        if name in ("push_back", "emplace_back"):
            if name == "emplace_back" and len(args) != 1:
                raise I.Unsupported("emplace_back with %d arguments" % len(args))
            a.append(I.copyval(m.rv(args[0], fr)))
            return None
        if name == "pop_back":
            if not a:
                raise I.OutOfBounds("pop_back on empty")
            a.pop()
            return None
        if name in ("back", "front"):
            if not a:
                raise I.OutOfBounds(name + " on empty")
            return I.ElemRef(o, len(a) - 1 if name == "back" else 0)
        if name in ("clear",):
            a.clear()
            return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "data":
            return I.Ptr(o, 0)
        if name == "at":
            i = m.rv(args[0], fr)
            return m.index(o, i)
        if name == "resize":
            k = m.rv(args[0], fr)
            if not isinstance(k, int):
                raise I.Unsupported("resize to a symbolic size")
            f = m.rv(args[1], fr) if len(args) > 1 else None
            while len(a) > k:
                a.pop()
            while len(a) < k:
                a.append(I.copyval(f) if f is not None else m.zero(o.et))
            return None
        if name == "assign":
            v = [m.rv(x, fr) for x in args]
            if isinstance(v[0], It):
                a[:] = self.range_vec(v[0], v[1], o.et).a
            else:
                a[:] = [I.copyval(v[1]) for _ in range(v[0])]
            return None
        if name == "erase":
            v = [m.rv(x, fr) for x in args]
            if len(v) == 1:
                if not 0 <= v[0].i < len(a):
                    raise I.OutOfBounds("erase")
                del a[v[0].i]
            else:
                if not 0 <= v[0].i <= v[1].i <= len(a):
                    raise I.OutOfBounds("erase range")
                del a[v[0].i:v[1].i]
            return It(o, v[0].i)
        if name == "insert":
            v = [m.rv(x, fr) for x in args]
            p = v[0].i
            if not isinstance(p, int):
                raise I.Unsupported("insert at a symbolic position")
            if not 0 <= p <= len(a):
                raise I.OutOfBounds("insert position")
            if len(v) == 2:
                a.insert(p, I.copyval(v[1]))
            elif isinstance(v[1], It):
                a[p:p] = self.range_vec(v[1], v[2], o.et).a
            elif isinstance(v[1], I.Ptr):
                a[p:p] = [I.copyval(v[1].to.load(k)) for k in range(v[1].i, v[2].i)]
            else:
                a[p:p] = [I.copyval(v[2]) for _ in range(v[1])]
            return It(o, p)
        if name == "swap":
            o2 = m.rv(args[0], fr)
            o.a, o2.a = o2.a, o.a
            return None
        if name == "get":
            return I.Ptr(o, 0)
        raise I.Unsupported("vector::%s" % name)

    def map_method(self, m, o, name, args, fr, n):
        I = _i()
        if name == "size":
            return len(o.d)
        if name == "empty":
            return not o.d
        if name == "clear":
            o.d.clear()
            return None
        if name in ("find", "count", "erase"):
            v = m.rv(args[0], fr)
            if isinstance(v, MapIt):
                if name == "erase":
                    del o.d[v.k]
                    return None
            k = key_of(v)
            if name == "find":
                return MapIt(o, k if k in o.d else None)
            if name == "count":
                return int(k in o.d)
            return int(o.d.pop(k, None) is not None)
        if name == "end":
            return MapIt(o, None)
        if name == "begin":
            ks = sorted(o.d, key=lambda z: z[1] if isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], (int, float)) else repr(z))
            return MapIt(o, ks[0] if ks else None)
        if name == "insert":
            v = I.copyval(m.rv(args[0], fr))
            self.map_put(o, v)
            return None
        if name == "emplace":
            v = [I.copyval(m.rv(a, fr)) for a in args]
            self.map_put(o, v[0] if o.kind.endswith("set") else I.Pair(*v))
            return None
        raise I.Unsupported("map::%s" % name)

    # ---- operators on library types
    def operator(self, m, name, args, fr, n):
        I = _i()
        if name == "operator=":
            ref = m.lv(args[0], fr)
            v = m.rv(args[1], fr)
            cur = None
            ref.set(I.copyval(v) if not isinstance(v, (It,)) else v.clone())
            return ref
        if name == "operator[]":
            o = m.rv(args[0], fr)
            if isinstance(o, PyMap):
                k = m.rv(args[1], fr)
                kk = key_of(k)
                if kk not in o.d:
                    t = qtype(n)
                    o.d[kk] = m.zero(t.replace("&", "").strip())
                return MapEntry(o, kk).ref("second")
            i = m.rv(args[1], fr)
            return m.index(o, i)
        vals = [m.ev(a, fr) for a in args]
        v = [x.get() if isinstance(x, I.Ref) else x for x in vals]
        a = v[0]
        b = v[1] if len(v) > 1 else None
        h = getattr(a, "lib_operator", None) or getattr(b, "lib_operator", None)
        if h:
            return h(m, name, vals, v)
        if isinstance(a, Stream):
            return vals[0]
        if isinstance(a, Cx) or isinstance(b, Cx):
            if name in ("operator+", "operator-", "operator*", "operator/"):
                if len(v) == 1:
                    return -a if name == "operator-" else a
                if name == "operator+":
                    return toCx(a) + b
                if name == "operator-":
                    return toCx(a) - toCx(b)
                if name == "operator*":
                    return toCx(a) * b
                try:
                    return toCx(a) / b
                except ZeroDivisionError:
                    raise I.DivZero("complex division by zero")
            if name in ("operator+=", "operator-=", "operator*=", "operator/="):
                try:
                    r = {"+": lambda: a + b, "-": lambda: a - toCx(b), "*": lambda: a * b, "/": lambda: a / b}[name[8]]()
                except ZeroDivisionError:
                    raise I.DivZero("complex division by zero")
                vals[0].set(r)
                return vals[0]
            if name in ("operator==", "operator!="):
                x, y = toCx(a), toCx(b)
                c1, c2 = self.real_cmp("==", x.re, y.re), self.real_cmp("==", x.im, y.im)
                if c1 is False or c2 is False:
                    r = False
                else:
                    r = I.simp(z3.And(c1 if c1 is not True else z3.BoolVal(True), c2 if c2 is not True else z3.BoolVal(True)))
                if name == "operator==":
                    return r
                return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(a, It):
            if name in ("operator++", "operator--"):
                d = 1 if name == "operator++" else -1
                if len(v) > 1:
                    o = a.clone()
                    vals[0].set(It(a.c, a.i + d))
                    return o
                vals[0].set(It(a.c, a.i + d))
                return vals[0]
            if name in ("operator==", "operator!="):
                r = a.c is b.c and a.i == b.i
                return r if name == "operator==" else not r
            if name == "operator*":
                return m.index(a.c, a.i)
            if name == "operator->":
                return I.Ptr(m.index(a.c, a.i))
            if name in ("operator+", "operator-"):
                if isinstance(b, It):
                    return a.i - b.i
                if not isinstance(b, int) and isinstance(I.simp(b), z3.BitVecNumRef):
                    b = I.simp(b).as_long()
                if not isinstance(b, int):
                    bb = I.bv(b, 64)
                    return It(a.c, I.simp(I.bv(a.i, 64) + bb if name == "operator+" else I.bv(a.i, 64) - bb))
                return It(a.c, a.i + b if name == "operator+" else a.i - b)
            if name in ("operator+=", "operator-="):
                vals[0].set(It(a.c, a.i + b if name == "operator+=" else a.i - b))
                return vals[0]
            if name in ("operator<", "operator>"):
                return a.i < b.i if name == "operator<" else a.i > b.i
        if isinstance(a, MapIt):
            if name in ("operator==", "operator!="):
                r = a.k == b.k and a.o is b.o
                return r if name == "operator==" else not r
            if name == "operator->":
                return I.Ptr(I.Cell(MapEntry(a.o, a.k)))
            if name == "operator*":
                if a.o.kind.endswith("set"):
                    return I.Cell(a.o.d[a.k])
                return I.Cell(MapEntry(a.o, a.k))
        if name in ("operator->", "operator*") and len(v) == 1:
            if a is None:
                raise I.NullDeref("%s on a null pointer" % name)
            if name == "operator->":
                return a
            return a.deref()
        isb = lambda t: isinstance(t, (bool, z3.BoolRef))
        if name in ("operator==", "operator!=", "operator<") and isb(a) and isb(b):      # vector<bool>::reference
            x, y = [z3.BoolVal(t) if isinstance(t, bool) else t for t in (a, b)]
            return I.simp({"operator==": x == y, "operator!=": x != y, "operator<": z3.And(z3.Not(x), y)}[name])
        if name in ("operator==", "operator!="):
            if isinstance(a, I.Vec) and isinstance(b, I.Vec):
                if len(a.a) != len(b.a):
                    r = False
                else:
                    r = all(m.truth(m.icmp("==", p, q, ("int", 64, False)) if not isinstance(p, (Cx, R)) else p == q) for p, q in zip(a.a, b.a))
                return r if name == "operator==" else not r
            return m.ptr_op(name[8:], a, b)
        if name == "operator<<" or name == "operator>>":
            raise I.Unsupported("stream operator")
        if name in ("operator|=", "operator&=", "operator^=") and isinstance(a, (bool, z3.BoolRef)):
            x, y = I.to_bool(a), I.to_bool(b)
            f = {"|": z3.Or, "&": z3.And, "^": z3.Xor}[name[8]]
            r = I.simp(f(z3.BoolVal(x) if isinstance(x, bool) else x, z3.BoolVal(y) if isinstance(y, bool) else y))
            vals[0].set(r)
            return vals[0]
        if name == "operator+" and isinstance(a, str):
            return a + (b if isinstance(b, str) else "?")
        raise I.Unsupported("operator %s on %s" % (name, type(a).__name__))

    # ---- free functions
    def repo_function(self, m, q, args, fr, n):
        return NotImplemented

    def call_native(self, m, name, vals):
        return self.apply(m, name, vals, None)

    def call(self, m, name, args, fr, n, d):
        I = _i()
        if name == "forward" or name == "move":
            return m.ev(args[0], fr)
        if name in ("make_shared", "make_unique"):
            t = qtype(n)
            inner = targ(t, 0)
            if inner.startswith("_NonArray<") or inner.startswith("std::_NonArray<"):
                inner = targ(inner, 0)
            cls = canon_class(inner)
            if cls in m.contracts:
                return m.contracts[cls](m, cls, [m.rv(a, fr) for a in args], n)
            rec = m.find_record(cls)
            if rec is not None:
                o = I.Obj(cls)
                vals = [m.rv(a, fr) for a in args]
                h = m.contracts.get("new " + cls)
                if h:
                    return h(m, cls, vals, n)
                m.default_fields(o, cls)
                ctor = self.pick_ctor(m, cls, vals)
                if ctor is not None:
                    full = list(vals)
                    from .astload import params_of
                    for i in range(len(vals), len(params_of(ctor))):
                        v = m.default_arg(ctor, i)
                        full.append(v.get() if isinstance(v, I.Ref) else v)
                    m.run_ctor(o, ctor, [], fr, full)
                return I.Ptr(o)
            b = base_name(inner)
            vals = [m.rv(a, fr) for a in args]
            if b == "vector":
                if not vals:
                    return I.Ptr(I.Cell(I.Vec([], targ(inner, 0))))
                return I.Ptr(I.Cell(I.copyval(vals[0])))
            if b in ("complex",):
                return I.Ptr(I.Cell(Cx(*vals)))
            raise I.Unsupported("make_shared<%s>" % inner)
        vals = [m.ev(a, fr) for a in args if a["kind"] != "CXXDefaultArgExpr"]
        return self.apply(m, name, vals, n)

    def pick_ctor(self, m, cls, vals):
        from .astload import params_of
        I = _i()
        best = None
        for tu in m.prog.tus:
            for c in tu.funcs.get(cls + "::" + cls.split("::")[-1], ()):
                if c["kind"] != "CXXConstructorDecl":
                    continue
                d = m.prog.find_def(c)
                if d is None or len(params_of(d)) < len(vals):
                    continue
                sc = 0
                for p, v in zip(params_of(d), vals):
                    k = I.ctype(qtype(p))
                    if k[0] == "ref":
                        k = I.ctype(k[1])
                    ok = {"int": isinstance(v, (int, z3.BitVecRef)), "bool": isinstance(v, (bool, z3.BoolRef)), "real": isinstance(v, (R, int)),
                          "complex": isinstance(v, Cx), "ptr": v is None or isinstance(v, I.Ptr), "class": not isinstance(v, (bool, R, Cx, z3.ExprRef)) and not (isinstance(v, int))}.get(k[0], True)
                    if k[0] == "class" and isinstance(v, I.Vec) and base_name(k[1]) not in ("vector",):
                        ok = False
                    if k[0] == "class" and not isinstance(v, I.Vec) and base_name(k[1]) == "vector":
                        ok = False
                    sc += 1 if ok else -10
                sc -= 0.01 * (len(params_of(d)) - len(vals))
                if best is None or sc > best[0]:
                    best = (sc, d)
        return best[1] if best else None

    def apply(self, m, name, vals, n):
        I = _i()
        v = [x.get() if isinstance(x, I.Ref) else x for x in vals]
        self.used.add(name)
        f = getattr(self, "f_" + name, None)
        if f is not None:
            return f(m, vals, v, n)
        f = I.simd.TABLE.get(name)
        if f is not None:
            return f(m, vals, v, n)
        df = m.prog.aux_func(name, n)
        if df is not None:
            return m.call_def(df, vals)
        raise I.Unsupported("library function %s" % name)

    # pointers
    def f_dynamic_pointer_cast(self, m, refs, v, n):
        I = _i()
        p = v[0]
        if p is None:
            return None
        t = canon_class(targ(qtype(n), 0))
        o = p.to
        cls = getattr(o, "cls", None)
        if cls is None:
            raise I.Unsupported("dynamic_pointer_cast of %s" % type(o).__name__)
        return p if m.prog.is_sub(cls, t) else None

    def f_static_pointer_cast(self, m, refs, v, n):
        return v[0]

    # algorithms
    def f_swap(self, m, refs, v, n):
        refs[0].set(v[1])
        refs[1].set(v[0])

    def f_min(self, m, refs, v, n):
        t = _i().ctype(qtype(n).replace("&", "").strip())
        if t[0] == "real":
            return v[1] if m.truth(self.real_cmp("<", v[1], v[0])) else v[0]
        return v[1] if m.truth(m.icmp("<", v[1], v[0], t)) else v[0]

    def f_max(self, m, refs, v, n):
        t = _i().ctype(qtype(n).replace("&", "").strip())
        if t[0] == "real":
            return v[1] if m.truth(self.real_cmp("<", v[0], v[1])) else v[0]
        return v[1] if m.truth(m.icmp("<", v[0], v[1], t)) else v[0]

    def rng(self, m, a, b):
        I = _i()
        if isinstance(a, I.Ptr):
            return a.to, a.i, b.i
        if isinstance(a, It):
            return a.c, a.i, b.i
        raise I.Unsupported("iterator range of %s" % type(a).__name__)

    def f_fill(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        h = getattr(c, "fill_range", None)
        if h:
            return h(m, i, j, v[2])
        if not isinstance(j, int) or not isinstance(i, int):
            raise I.Unsupported("fill of a symbolic range")
        if i < 0 or j > c.size():
            raise I.OutOfBounds("fill")
        for k in range(i, j):
            c.store(k, I.copyval(v[2]))

    def f_copy(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        d = v[2]
        dc, di = (d.to, d.i) if isinstance(d, I.Ptr) else (d.c, d.i)
        h = getattr(dc, "copy_range", None) or getattr(c, "copy_range", None)
        if h:
            return h(m, c, i, j, dc, di)
        if not isinstance(i, int) or not isinstance(j, int) or not isinstance(di, int):
            raise I.Unsupported("copy of a symbolic range")
        vals = [I.copyval(c.load(k)) for k in range(i, j)]
        for k, x in enumerate(vals):
            dc.store(di + k, x)
        return It(dc, di + (j - i)) if isinstance(d, It) else I.Ptr(dc, di + (j - i))

    def f_reverse(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        h = getattr(c, "reverse_range", None)
        if h:
            return h(m, i, j)
        if not isinstance(c, I.Vec) or not isinstance(i, int) or not isinstance(j, int):
            raise I.Unsupported("reverse of a symbolic range")
        c.a[i:j] = c.a[i:j][::-1]

    def f_sort(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        h = getattr(c, "sort_range", None)
        if h:
            return h(m, i, j)
        if len(v) > 2:
            raise I.Unsupported("sort with a comparator")
        a = c.a[i:j]
        if all(isinstance(x, int) for x in a):
            c.a[i:j] = sorted(a)
            return
        t = I.ctype(c.et or "unsigned long")
        if self.sort_contract and len(a) > 1 and not t[2] and all(isinstance(x, (int, z3.BitVecRef)) for x in a):
            c.a[i:j] = sorted_by_contract(m, [I.bv(x, t[1]) for x in a])
            return
        # insertion sort with symbolic comparisons (sound: any comparison sort yields the sorted permutation)
        out = []
        for x in a:
            k = len(out)
            while k > 0 and m.truth(m.icmp("<", x, out[k - 1], t)):
                k -= 1
            out.insert(k, x)
        c.a[i:j] = out

    def f_find(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        for k in range(i, j):
            x = c.load(k)
            t = I.ctype(c.et or "unsigned long")
            if m.truth(m.icmp("==", x, v[2], t)):
                return It(c, k) if isinstance(v[0], It) else I.Ptr(c, k)
        return It(c, j) if isinstance(v[0], It) else I.Ptr(c, j)

    def f_unique(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        out = []
        for x in c.a[i:j]:
            if not out or not (isinstance(x, int) and x == out[-1]):
                out.append(x)
        c.a[i:i + len(out)] = out
        return It(c, i + len(out))

    def f_distance(self, m, refs, v, n):
        return v[1].i - v[0].i

    def f_max_element(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        if i == j:
            return It(c, j)
        b = i
        t = I.ctype(c.et or "unsigned long")
        for k in range(i + 1, j):
            if m.truth(m.icmp("<", c.load(b), c.load(k), t)):
                b = k
        return It(c, b)

    def f_min_element(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        b = i
        t = I.ctype(c.et or "unsigned long")
        for k in range(i + 1, j):
            if m.truth(m.icmp("<", c.load(k), c.load(b), t)):
                b = k
        return It(c, b)

    def f_transform(self, m, refs, v, n):
        I = _i()
        c, i, j = self.rng(m, v[0], v[1])
        d = v[2]
        dc, di = (d.to, d.i) if isinstance(d, I.Ptr) else (d.c, d.i)
        for k in range(i, j):
            r = m.call_value(v[3], [I.ElemRef(c, k)])
            dc.store(di + k - i, r.get() if isinstance(r, I.Ref) else r)

    def f_back_inserter(self, m, refs, v, n):
        raise _i().Unsupported("back_inserter")

    # complex / real functions
    def f_norm(self, m, refs, v, n):
        return toCx(v[0]).norm()

    def f_conj(self, m, refs, v, n):
        return toCx(v[0]).conj()

    def f_real(self, m, refs, v, n):
        return toCx(v[0]).re

    def f_imag(self, m, refs, v, n):
        return toCx(v[0]).im

    def f_abs(self, m, refs, v, n):
        x = v[0]
        if isinstance(x, int):
            return abs(x)
        if isinstance(x, Cx):
            if not x.im.t:
                return self._absr(m, x.re)
            if not x.re.t:
                return self._absr(m, x.im)
            return self.sqrt(m, x.norm())
        return self._absr(m, toR(x))
    f_fabs = f_abs

    def _absr(self, m, x):
        if m.truth(self.real_cmp("<", x, R.const(0))):
            return -x
        return x

    def sqrt(self, m, x):
        x = toR(x)
        if x.is_const():
            q = x.cval()
            if q < 0:
                raise _i().Unsupported("sqrt of a negative constant")
            import math
            a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return R.const(Fraction(a, b))
            q2 = q * 2
            a, b = math.isqrt(q2.numerator), math.isqrt(q2.denominator)
            if a * a == q2.numerator and b * b == q2.denominator:
                return R2 * R.const(Fraction(a, b))
        n = "sqrt<%r>" % (x,)
        if n not in SQ:
            SQ[n] = x
            AX[n] = [lambda n=n: z3.Real(n) >= 0]
        self.add_axioms(x.atoms())
        return R.atom(n)

    def f_sqrt(self, m, refs, v, n):
        if isinstance(v[0], Cx):
            return self.csqrt(m, v[0])
        return self.sqrt(m, v[0])

    def csqrt(self, m, z):
        """principal square root of the constants that occur; otherwise out of reach"""
        if not z.im.t:
            if m.truth(self.real_cmp(">=", z.re, R.const(0))):
                return Cx(self.sqrt(m, z.re))
            return Cx(0, self.sqrt(m, -z.re))
        if z == Cx(0, 1):
            return Cx(R2, R2)
        if z == Cx(0, -1):
            return Cx(R2, -R2)
        raise _i().Unsupported("complex square root of %r" % (z,))

    def trig(self, th):
        """(cos, sin) of an angle given as a polynomial: exact at multiples of pi/4, otherwise two atoms with c^2 + s^2 = 1;
        angle sums are expanded."""
        th = toR(th)
        if not th.t:
            return R.const(1), R.const(0)
        c, s = R.const(1), R.const(0)
        for mono, co in sorted(th.t.items(), key=repr):
            cc, ss = self.trig1(mono, co)
            c, s = c * cc - s * ss, s * cc + c * ss
        return c, s

    def trig1(self, mono, co):
        if mono == (("pi", 1),):
            q = co * 4
            if q.denominator == 1:
                k = q.numerator % 8
                tab = [(1, 0), ("r", "r"), (0, 1), ("-r", "r"), (-1, 0), ("-r", "-r"), (0, -1), ("r", "-r")]
                f = {"r": R2, "-r": -R2, 1: R.const(1), 0: R.const(0), -1: R.const(-1)}
                return f[tab[k][0]], f[tab[k][1]]
            d = co.denominator
            if d & (d - 1) == 0:
                return pi_pow2(co)
        # half angles: use quarter-resolution generator so that th and th/2 share atoms
        den = 4
        gen = Fraction(1, den)
        k = co / gen
        if k.denominator != 1:
            gen = Fraction(1, co.denominator)
            k = co / gen
        name = repr(R({mono: gen}))
        ca, sa = "cos<%s>" % name, "sin<%s>" % name
        if ca not in SQ and sa not in SQ:
            SQ[sa] = R.const(1) - R.atom(ca) * R.atom(ca)
        c1, s1 = R.atom(ca), R.atom(sa)
        kk = abs(k.numerator)
        c, s = R.const(1), R.const(0)
        for _ in range(kk):
            c, s = c * c1 - s * s1, s * c1 + c * s1
        if k < 0:
            s = -s
        return c, s

    def f_cos(self, m, refs, v, n):
        return self.trig(v[0])[0]

    def f_sin(self, m, refs, v, n):
        return self.trig(v[0])[1]

    def f_polar(self, m, refs, v, n):
        th = v[1] if len(v) > 1 else 0
        c, s = self.trig(toR(th))
        return Cx(toR(v[0]) * c, toR(v[0]) * s)

    def f_exp(self, m, refs, v, n):
        x = v[0]
        if isinstance(x, Cx):
            c, s = self.trig(x.im)
            if not x.re.t:
                return Cx(c, s)
            e = R.atom("exp<%r>" % (x.re,))
            return Cx(e * c, e * s)
        if not toR(x).t:
            return R.const(1)
        return R.atom("exp<%r>" % (toR(x),))

    def f_arg(self, m, refs, v, n):
        x = toCx(v[0])
        return R.atom("arg<%r,%r>" % (x.re, x.im))

    def f_pow(self, m, refs, v, n):
        x, y = v[0], v[1]
        if isinstance(y, R) and y.is_const() and y.cval().denominator == 1:
            y = int(y.cval())
        if isinstance(y, int):
            if isinstance(x, int):
                x = R.const(x)
            if isinstance(x, Cx):
                p = Cx(1)
                for _ in range(abs(y)):
                    p = p * x
                return p if y >= 0 else Cx(1) / p
            return x ** y if y >= 0 else R.const(1) / (x ** (-y))
        if isinstance(x, Cx) and isinstance(y, R) and y.is_const():
            # (-1)^(p/q), i^(p/q)
            ang = {Cx(-1, 0): Fraction(1), Cx(1, 0): Fraction(0), Cx(0, 1): Fraction(1, 2), Cx(0, -1): Fraction(-1, 2)}.get(x)
            if ang is not None:
                if ang == 1 and isinstance(x.im, NegZero):
                    ang = -ang      # the branch cut: -1 - 0i
                c, s = self.trig(PI * R.const(ang * y.cval()))
                return Cx(c, s)
        raise _i().Unsupported("pow")

    def f_isnan(self, m, refs, v, n):
        return False

    def f_isfinite(self, m, refs, v, n):
        return True

    def f_isinf(self, m, refs, v, n):
        return False

    def f_log2(self, m, refs, v, n):
        raise _i().Unsupported("floating log2")

    def f_floor(self, m, refs, v, n):
        x = toR(v[0])
        if x.is_const():
            import math
            return R.const(math.floor(x.cval()))
        raise _i().Unsupported("floor")

    def f_ceil(self, m, refs, v, n):
        x = toR(v[0])
        if x.is_const():
            import math
            return R.const(math.ceil(x.cval()))
        raise _i().Unsupported("ceil")

    def f_make_pair(self, m, refs, v, n):
        I = _i()
        return I.Pair(I.copyval(v[0]), I.copyval(v[1]))

    def f___builtin_popcountll(self, m, refs, v, n):
        return self.popcount(v[0], 64)

    def f___builtin_popcount(self, m, refs, v, n):
        return self.popcount(v[0], 32)

    def popcount(self, x, w):
        if isinstance(x, int):
            return bin(x & ((1 << w) - 1)).count("1")
        r = z3.BitVecVal(0, 32)
        for i in range(w):
            r = r + z3.ZeroExt(31, z3.Extract(i, i, x))
        return r

    def f___builtin_clzll(self, m, refs, v, n):
        return self.clz(m, v[0], 64)

    def f___builtin_clz(self, m, refs, v, n):
        return self.clz(m, v[0], 32)

    def clz(self, m, x, w):
        if isinstance(x, int):
            return w - x.bit_length()
        r = z3.BitVecVal(w, 32)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, 32), r)
        return r


_pp = {}


def pi_pow2(co):
    """(cos, sin) of co * pi for a dyadic co: c_k = cos(pi / 2^k) with c_k^2 = (1 + c_(k-1)) / 2 and c_2 = sqrt(1/2)"""
    k = co.denominator.bit_length() - 1
    num = co.numerator % (2 << k)

    def gen(j):
        if j in _pp:
            return _pp[j]
        if j == 2:
            r = (R2, R2)
        else:
            cp, sp = gen(j - 1)
            a = "cospi/%d" % (1 << j)
            if a not in SQ:
                SQ[a] = (R.const(1) + cp) * R.const(Fraction(1, 2))
                AX[a] = [lambda: z3.Real(a) > z3.Q(9, 10)]
            c = R.atom(a)
            # s_k = s_(k-1) / (2 c_k) = 2 s_k^2 c_k / s_(k-1) ; s_k^2 = (1 - c_(k-1)) / 2, and 1 / s_(k-1) needs s_(k-1)^2 = 1 - c_(k-1)^2:
            # use sin x = cos(pi/2 - x) = T_(2^(k-1) - 1)(c_k) instead (a polynomial in c_k)
            t0, t1 = R.const(1), c
            for _ in range((1 << (j - 1)) - 2):
                t0, t1 = t1, c * t1 * 2 - t0
            r = (c, t1)
        _pp[j] = r
        return r
    c1, s1 = gen(k)
    c, s = R.const(1), R.const(0)
    b = (c1, s1)
    while num:
        if num & 1:
            c, s = c * b[0] - s * b[1], s * b[0] + c * b[1]
        b = (b[0] * b[0] - b[1] * b[1], b[0] * b[1] * 2)
        num >>= 1
    return c, s


class Stream:
    def clone(self):
        return self


class Opaque:
    """A library object whose state never influences the contracts (locks, generators)."""
    def __init__(self, kind):
        self.kind = kind

    def clone(self):
        return self

    def call(self, name, vals):
        if self.kind in ("mutex", "lock_guard", "unique_lock", "recursive_mutex"):
            return None
        if name in ("seed", "what"):
            return None
        raise _i().Unsupported("%s::%s" % (self.kind, name))


class MapEntry:
    def __init__(self, o, k):
        self.o, self.k = o, k

    def ref(self, name):
        I = _i()
        o, k = self.o, self.k
        if name == "first":
            return I.Cell(unkey(k))
        if k not in o.d:
            raise I.NullDeref("dereference of a missing map entry")

        def s(v):
            o.d[k] = v
        return I.FnRef(lambda: o.d[k], s)


class MapIt:
    def __init__(self, o, k):
        self.o, self.k = o, k


def m_true(o):
    return True


def key_of(v):
    if isinstance(v, (int, str, bool)):
        return ("k", v)
    if isinstance(v, z3.ExprRef):
        w = z3.simplify(v)
        if isinstance(w, z3.BitVecNumRef):
            return ("k", w.as_long())
        raise _i().Unsupported("symbolic map key")
    I = _i()
    if isinstance(v, I.Ptr):
        return ("p", id(v.to))
    if isinstance(v, R) and v.is_const():
        return ("k", v.cval())
    raise I.Unsupported("map key %s" % type(v).__name__)


def unkey(k):
    return k[1]


_bn = {}


def base_name(t):
    r = _bn.get(t)
    if r is None:
        s = t.strip()
        for p in ("const ", "struct ", "class "):
            while s.startswith(p):
                s = s[len(p):]
        i = s.find("<")
        h = s if i < 0 else s[:i]
        r = h.split("::")[-1].strip()
        if i >= 0:
            # qualified after template args, e.g. std::vector<...>::iterator
            depth = 0
            for j in range(i, len(s)):
                if s[j] == "<":
                    depth += 1
                elif s[j] == ">":
                    depth -= 1
                    if depth == 0:
                        rest = s[j + 1:].strip()
                        if rest.startswith("::"):
                            r = rest.split("::")[-1]
                        break
        _bn[t] = r
    return r


def targ(t, k):
    """k-th template argument of a type spelled out by clang."""
    i = t.find("<")
    if i < 0:
        return ""
    depth, start, out = 0, i + 1, []
    for j in range(i, len(t)):
        c = t[j]
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
            if depth == 0:
                out.append(t[start:j].strip())
                break
        elif c == "," and depth == 1:
            out.append(t[start:j].strip())
            start = j + 1
    return out[k] if k < len(out) else ""
