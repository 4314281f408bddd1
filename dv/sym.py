"""Containers of unbounded symbolic size, for loop contracts: a read-only vector given by a function of the index, and a set
given by its characteristic array.  (Trusted models of std::vector and std::set.)"""
import z3
from . import interp as I


class SymVec:
    """n: 64-bit size term; at(i): element term for a 64-bit index term (bounds are proved at every access)"""
    def __init__(self, pv, n, at, name="vector"):
        self.pv, self.n, self.at, self.name = pv, n, at, name

    def clone(self):
        return self

    def elem(self, m, i):
        i = I.bv(i, 64)
        self.pv.prove(m, "%s: index within bounds" % self.name, z3.ULT(i, self.n))
        return I.Cell(self.at(i))

    def lib_method(self, m, name, args, fr, n):
        if name == "size":
            return self.n
        if name == "empty":
            return self.n == 0
        if name in ("operator[]", "at"):
            return self.elem(m, m.rv(args[0], fr))
        if name == "front":
            return self.elem(m, 0)
        if name == "back":
            return self.elem(m, self.n - 1)
        raise I.Unsupported("method %s of a symbolic vector" % name)


class SymSet:
    """set of w-bit integers as an array to booleans"""
    def __init__(self, w):
        self.a = z3.K(z3.BitVecSort(w), z3.BoolVal(False))
        self.w = w

    def clone(self):
        c = SymSet(self.w)
        c.a = self.a
        return c

    def lib_method(self, m, name, args, fr, n):
        if name in ("end", "cend"):
            return SetIt(None)
        x = [I.bv(m.rv(a, fr), self.w) for a in args]
        if name == "find":
            return SetIt(self.a[x[0]])
        if name in ("insert", "emplace"):
            new = z3.Not(self.a[x[0]])
            self.a = z3.Store(self.a, x[0], z3.BoolVal(True))
            return I.Pair(SetIt(z3.BoolVal(True)), new)
        if name in ("count", "contains"):
            return self.a[x[0]] if name == "contains" else z3.If(self.a[x[0]], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        raise I.Unsupported("method %s of a symbolic set" % name)


class SetIt:
    """iterator of a symbolic set; found: None for end(), else whether it differs from end()"""
    def __init__(self, found):
        self.found = found

    def clone(self):
        return self

    def lib_operator(self, m, name, refs, v):
        a, b = v
        if name in ("operator==", "operator!=") and isinstance(a, SetIt) and isinstance(b, SetIt) and (a.found is None or b.found is None):
            f = a.found if b.found is None else b.found
            eq = True if f is None else z3.Not(f)
            if name == "operator==":
                return eq
            return (not eq) if isinstance(eq, bool) else z3.Not(eq)
        raise I.Unsupported("%s on set iterators" % name)
