"""Separable states: ghost factors, sums over one factor, and angles.

The state is a(idx) = R(rem(idx)) * P(part(idx)) with unit factors R and P.  A nonzero factor value at an index that is not
being summed over has the polar form m*(c+is) with m > 0 and c^2+s^2 = 1; at the counter of a sum it is a generic x+iy.  A
sequential loop that adds coef*|P(k)|^2 (or coef*|R(k)|^2) for k = 0, 1, ... is used by its invariant acc = init + coef*S(k),
where S is the partial sum of the squared factor, S(0) = 0 and S(last) = 1: the body is executed once from arbitrary
accumulators.  A parallel loop over an array is used by its contract (C03): frame conditions for an arbitrary index, and the
value left at the indices the postcondition is about (which are arbitrary).
"""
import z3
from . import interp as I
from .kern import *
from .real import R, Cx, toR, toCx, SQ


class Factor:
    def __init__(self, name, size):
        self.name, self.size = name, size
        self.known = []          # (index, value, unit, magnitude)
        self.counters = []       # (index, value)

    def counter(self, m, t):
        i = len(self.counters)
        v = Cx(R.atom("%sx%d" % (self.name, i)), R.atom("%sy%d" % (self.name, i)))
        self.counters.append((t, v))
        return v

    def add(self, m, t, zero):
        i = len(self.known)
        if zero:
            e = (t, Cx(0), None, R.const(0))
        else:
            c, s, g = ("%s%s%d" % (self.name, x, i) for x in ("c", "s", "m"))
            if s not in SQ:
                SQ[s] = R.const(1) - R.atom(c) * R.atom(c)
            u = Cx(R.atom(c), R.atom(s))
            g = R.atom(g)
            m.path.assume(g.z3() > 0)
            e = (t, Cx(g * u.re, g * u.im), u, g)
        self.known.append(e)
        return e

    def at(self, m, t):
        t = z3.simplify(t)
        for x, v in self.counters:
            if self.sep.match(x, t):
                return v
        for e in self.known:
            if not self.sep.frame and self.sep.match(e[0], t):
                return e[1]
        if self.sep.frame:
            self.nf = getattr(self, "nf", 0) + 1
            if not any(same(x, t) or not m.path.sat(x != t) for x, v in self.counters):
                return Cx(R.atom("%sF%dr" % (self.name, self.nf)), R.atom("%sF%di" % (self.name, self.nf)))
        for x, v in self.counters:
            if same(x, t) or not m.path.sat(x != t):
                return v
        for e in self.known:
            if same(e[0], t) or not m.path.sat(e[0] != t):
                return e[1]
        for e in self.known:
            if m.branch(e[0] == t):
                return e[1]
        i = len(self.known)
        z = z3.Bool("%s zero at %d" % (self.name, i))
        return self.add(m, t, m.branch(z))[1]


class Sep:
    """ghost: base of the state vector, and the contracts of arg, polar, sqrt and max_element on it"""
    def __init__(self, k, m, n, start, length, cache):
        self.cache = cache
        self.facts = [z3.And(z3.UGE(n, 1), z3.ULE(n, NMAX), z3.ULE(start, n), z3.ULE(length, n - start))]
        self.k, self.n, self.start, self.length = k, n, start, length
        self.R, self.P = Factor("R", p2(n - length)), Factor("P", p2(length))
        self.R.sep = self.P.sep = self
        self.units = {}
        self.frame = False
        self.ntheta = 0
        k.sep = self
        m.std.f_arg = lambda m_, refs, v, nd: self.arg(m_, toCx(v[0]))
        m.std.f_polar = lambda m_, refs, v, nd: self.polar(m_, toR(v[0]), toR(v[1] if len(v) > 1 else 0))
        sq = m.std.sqrt
        m.std.sqrt = lambda m_, x: self.sqrt(m_, x, sq)
        m.std.f_sqrt = lambda m_, refs, v, nd: self.sqrt(m_, toR(v[0]), sq)
        m.std.f_max_element = lambda m_, refs, v, nd: self.max_element(m_, v)
        m.std.new_array = self.new_array
        self.arrays = []

    def match(self, x, t):
        """are two index terms equal whatever the path? (a lemma about the index maps, cached over all paths)"""
        if same(x, t):
            return True
        key = (x.sexpr(), t.sexpr())
        if key not in self.cache:
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 20000)
            names = {str(v) for v in vars_of(x) | vars_of(t)}
            s.add([f for f in self.facts if {str(v) for v in vars_of(f)} <= names | {str(self.n), str(self.start), str(self.length)}])
            s.add(x != t)
            self.cache[key] = s.check() == z3.unsat
        return self.cache[key]

    def rem(self, i):
        lo = lowmask(self.start)
        return (i & lo) | (z3.LShR(i, zx(self.length)) & ~lo)

    def part(self, i):
        return z3.LShR(i, zx(self.start)) & lowmask(self.length)

    def at(self, m, i):
        return self.R.at(m, self.rem(i)) * self.P.at(m, self.part(i))

    # ---- library functions
    def positive(self, x):
        """a sum of products of positive atoms"""
        ok = {a for f in (self.R, self.P) for e in f.known if e[2] is not None for a in e[3].atoms()}
        return bool(x.t) and all(c > 0 and all(a in ok for a, _ in mm) for mm, c in x.t.items())

    def cands(self):
        us = [e[2] for f in (self.R, self.P) for e in f.known if e[2] is not None]
        yield Cx(1)
        for u in us:
            yield u
        for u in us:
            for w in us:
                if u is not w:
                    yield u * w.conj()
        for u in us:
            for w in us:
                yield u * w

    def arg(self, m, z):
        if self.frame:
            self.ntheta += 1
            nm = "thF%d" % self.ntheta
            self.units[nm] = Cx(R.atom(nm + "c"), R.atom(nm + "s"))
            return R.atom(nm)
        if not z.re.t and not z.im.t:
            return R.const(0)
        for u in self.cands():
            w = z * u.conj()
            if not w.im.t and self.positive(w.re):
                if not u.im.t and u.re == R.const(1):
                    return R.const(0)
                self.ntheta += 1
                nm = "theta%d" % self.ntheta
                self.units[nm] = u
                return R.atom(nm)
        # some angle that nothing is known about
        self.ntheta += 1
        nm = "theta%d" % self.ntheta
        s = nm + "s"
        SQ.setdefault(s, R.const(1) - R.atom(nm + "c") * R.atom(nm + "c"))
        self.units[nm] = Cx(R.atom(nm + "c"), R.atom(s))
        return R.atom(nm)

    def polar(self, m, g, th):
        if self.frame:
            return Cx(R.atom("framer"), R.atom("framei"))
        u = Cx(g)
        for mm, c in th.t.items():
            if mm == () and c == 0:
                continue
            if len(mm) != 1 or mm[0][1] != 1 or mm[0][0] not in self.units or c.denominator != 1 or abs(c) > 4:
                raise I.Unsupported("polar() of the angle %r" % (th,))
            w = self.units[mm[0][0]]
            for _ in range(abs(int(c))):
                u = u * (w if c > 0 else w.conj())
        return u

    def sqrt(self, m, x, other):
        x = toR(x)
        if len(x.t) == 1:
            (mm, c), = x.t.items()
            if mm and c == 1 and all(e % 2 == 0 and e > 0 for _, e in mm) and self.positive(R({mm: c})):
                return R({tuple((a, e // 2) for a, e in mm): c})
        return other(m, x)

    # ---- arrays
    def new_array(self, m, t, size, n):
        init = R.const(0) if n.get("initStyle") in ("call", "parens", "list", "braces") else None
        a = Arr(self.k, FnBase(lambda m_, i: init) if init is not None else Undef(), "local array %d" % len(self.arrays), size=B64(size))
        self.arrays.append(a)
        return a

    def max_element(self, m, v):
        a, i = v[0].to, v[0].i
        b, j = v[1].to, v[1].i
        if a is not b or not isinstance(a, Arr):
            raise I.Unsupported("max_element")
        k = self.k
        for f, idx in ((self.R, self.ri), (self.P, self.pi)):
            if m.path.sat(z3.Not(z3.And(B64(i) == 0, B64(j) == f.size))):
                continue
            # the array holds the squared magnitudes of this factor: read at an arbitrary index
            ok = all(toR(a.at(m, x)) == f.at(m, x).norm() for x in idx)
            if not ok:
                continue
            x = z3.BitVec(m.path.fresh("pivot" + f.name), 64)
            m.path.assume(z3.ULT(x, f.size))
            self.facts.append(z3.ULT(x, f.size))
            # (its squared magnitudes sum to 1: the greatest is not 0)
            for e in f.known:
                if m.branch(e[0] == x):
                    if e[2] is None:
                        raise I.PathEnd()
                    return I.Ptr(a, x)
            f.add(m, x, False)
            return I.Ptr(a, x)
        raise I.Unsupported("max_element of an array whose content is not recognised")

    # ---- loops
    def par_loop(self, svs=()):
        """one entry of Want.specs"""
        def spec(m, k, inset, clear, fn):
            pv = k.pv
            nm = k.label + "loop"
            if m.path.choose(2) == 0:
                lcv = z3.BitVec("lcv", 64)
                m.path.assume(inset(lcv))
                self.frame = True
                start = len(k.log)
                k.inbody = True
                m.call_value(fn, [I.Cell(lcv), I.Cell(k.cpu)])
                k.inbody = False
                tg = {}
                for kind, t, a in k.log[start:]:
                    if kind == "w":
                        tg.setdefault(id(t), (t, []))[1].append(a)
                for t, idx in tg.values():
                    sz = t.size
                    for a in idx:
                        pv.prove(m, nm + ": an iteration writes only the element of its own index", a == lcv)
                        pv.prove(m, nm + ": element within the array", z3.ULT(a, sz))
                for kind, t, a in k.log[start:]:
                    if kind in ("r", "a") and id(t) in tg:
                        pv.prove(m, nm + ": an iteration reads only its own element of what the loop writes", a == lcv)
                pv.cover("array loop body")
                raise I.PathEnd()
            # values left at the indices that matter
            res = []
            before = {}
            for q in self.ri + self.pi:
                if m.path.sat(z3.Not(inset(q))):
                    continue
                start = len(k.log)
                k.inbody = True
                snap = self.snap(m, fn)
                m.call_value(fn, [I.Cell(q), I.Cell(k.cpu)])
                k.inbody = False
                for kind, t, a in k.log[start:]:
                    if kind == "w" and not any(r[0] is t and r[1] is q for r in res):
                        res.append((t, q, over(m, t.base, t.w, q)))
                self.unsnap(snap)
            done = []
            for t, q, v in res:
                if any(t is d for d in done):
                    continue
                done.append(t)
                vals = [(q_, v_) for t_, q_, v_ in res if t_ is t]

                def content(m_, i, vals=vals):
                    if self.frame:
                        return R.atom("frameval")
                    for q_, v_ in vals:
                        if same(q_, i) or not m_.path.sat(q_ != i):
                            return v_
                    for q_, v_ in vals:
                        if m_.branch(q_ == i):
                            return v_
                    raise I.Unsupported("element read whose value is not tracked")
                t.base, t.w = FnBase(content), []
                k.writes += 1
            return None
        return spec

    def snap(self, m, fn):
        svs = list(self.arrays)
        for v in list(fn.env.values()) + [fn.this]:
            scan(v, svs, set())
        return [(s, s.base, list(s.w)) for s in svs]

    def unsnap(self, snap):
        for s, b, w in snap:
            s.base, s.w = b, w

    def install(self, m):
        m.loop_hook = self.sum_loop

    def sum_loop(self, m, n, cond, inc, body, fr):
        """for (k = 0; k < size of a factor; ++k) acc += coef * |factor(k)|^2"""
        k = self.k
        if not k.inbody or cond is None or inc is None:
            return NotImplemented
        c0 = m.rv(cond, fr)
        cells = [c for c in all_cells(fr) if isinstance(c, I.Cell)]
        before = [c.v for c in cells]
        m.ev(inc, fr)
        ctr = [(c, b) for c, b in zip(cells, before) if c.v is not b and not eqv(c.v, b)]
        for c, b in zip(cells, before):
            c.v = b
        if len(ctr) != 1:
            raise I.Unsupported("loop counter")
        ctr, k0 = ctr[0]
        pv = k.pv
        pv.prove(m, k.label + "sum loop starts at 0", B64(k0) == 0)
        i = self.nk = getattr(self, "nk", 0) + 1
        K = z3.BitVec("K%d" % i, 64)
        ctr.v = K
        c = m.rv(cond, fr)
        f = None
        for g in (self.P, self.R):
            if not m.path.sat(z3.Not(c == z3.ULT(K, g.size))):
                f = g
                break
        if f is None:
            raise I.Unsupported("a loop that is not over all of a factor")
        # (an arbitrary index: only known to be in range)
        m.path.assume(z3.ULT(K, f.size))
        self.facts.append(z3.ULT(K, f.size))
        X = f.counter(m, K)
        before = [x.v for x in cells]
        arrs = [(a, a.base, list(a.w)) for a in self.arrays]
        start = len(k.log)
        self.nacc = getattr(self, "nacc", 0)
        r = m.ex(body, fr)
        if r is not None:
            raise I.Unsupported("a sum loop with an exit")
        # what changed?
        changed = [(x, b) for x, b in zip(cells, before) if x is not ctr and x.v is not b and not eqv(x.v, b)]
        elems = []
        for a, base, w in arrs:
            wr = a.w[len(w):]
            if wr:
                t0 = wr[0][0]
                for t, _ in wr:
                    if not same(t, t0) and m.path.sat(t != t0):
                        raise I.Unsupported("a sum loop writes several elements")
                elems.append((a, base, w, t0, over(m, base, w, t0)))
        for x, b in zip(cells, before):
            x.v = b
        for a, base, w in arrs:
            a.base, a.w = base, list(w)

        def fresh(v):
            self.nacc += 1
            nm = "acc%d" % self.nacc
            return Cx(R.atom(nm + "r"), R.atom(nm + "i")) if isinstance(v, Cx) else R.atom(nm)
        ctr.v = K
        sym = {}
        for x, b in changed:
            if not isinstance(b, (R, Cx)):
                raise I.Unsupported("a sum loop changes %s" % type(b).__name__)
            x.v = sym[id(x)] = fresh(b)
        for a, base, w, t0, old in elems:
            sym[id(a)] = fresh(old)
            a.w = w + [(t0, sym[id(a)])]
        # one iteration from arbitrary accumulators
        if m.ex(body, fr) is not None:
            raise I.Unsupported("a sum loop with an exit")
        xa = next(iter(X.re.atoms()))
        ya = next(iter(X.im.atoms()))

        accatoms = set()
        for v in sym.values():
            accatoms |= toCx(v).re.atoms() | toCx(v).im.atoms()

        def step(new, a0):
            """coef, where one iteration adds coef * |X|^2 to the accumulator"""
            if isinstance(new, Cx) or isinstance(a0, Cx):
                return Cx(step(toCx(new).re, toCx(a0).re), step(toCx(new).im, toCx(a0).im))
            d = toR(new) - toR(a0)
            cf = R.const(0)
            for mm, q in d.t.items():
                e = dict(mm)
                if e.get(xa) == 2 and ya not in e:
                    cf = cf + R({tuple(x for x in mm if x[0] != xa): q})
            if cf.atoms() & accatoms or not (cf * (R.atom(xa) * R.atom(xa) + R.atom(ya) * R.atom(ya)) == d):
                raise I.Unsupported("a sum of terms other than multiples of the squared factor: %s" % str(d)[:200])
            return cf
        out = []
        for x, b in zip(cells, before):
            if x is ctr:
                continue
            if id(x) not in sym:
                if x.v is not b and not eqv(x.v, b):
                    raise I.Unsupported("sum loop")
                continue
            out.append(lambda x=x, v=b + step(x.v, sym[id(x)]): setattr(x, "v", v))
        for a, base, w, t0, old in elems:
            v = old + step(over(m, a.base, a.w, t0), sym[id(a)])
            out.append(lambda a=a, w=w, t0=t0, v=v: setattr(a, "w", w + [(t0, v)]))
        for s, t, a in k.log[start:]:
            if s == "w" and isinstance(t, SV):
                raise I.Unsupported("a sum loop writes amplitudes")
        # the increment is exactly independent of the accumulator (addition), so the invariant is inductive
        for g in out:
            g()
        ctr.v = f.size
        m.ev(inc, fr)
        ctr.v = f.size
        pv.cover("sum loop body")
        return None


def vars_of(x):
    out, st, seen = set(), [x], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e)
        st.extend(e.children())
    return out


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, (R, Cx)) and isinstance(b, (R, Cx)):
        return toCx(a) == toCx(b)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    return False


def all_cells(fr):
    out, seen = [], set()
    for v in fr.env.values():
        if isinstance(v, I.Cell) and id(v) not in seen:
            seen.add(id(v))
            out.append(v)
    return out


def scan(v, svs, seen):
    if isinstance(v, I.Ref):
        try:
            v = v.get()
        except Exception:
            return
    if isinstance(v, I.Ptr):
        v = v.to
    if isinstance(v, (SV, Arr)) and id(v) not in seen:
        seen.add(id(v))
        if not any(v is s for s in svs):
            svs.append(v)
    if isinstance(v, I.Obj) and id(v) not in seen:
        seen.add(id(v))
        for c in v.f.values():
            scan(c, svs, seen)
