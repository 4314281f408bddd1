"""Circuit semantics for the gate-level contracts: a linear operator over the qubits named by the arguments of the function
under contract, with entries in the exact ring of dv/real.py.  A call of a gate method is interpreted by that method's
contract (dv/gatespec.py), which multiplies the specified matrix onto the operator; the postcondition of the function under
contract is that the accumulated operator equals its own specified matrix."""
import z3
from . import interp as I
from .real import R, Cx, toCx
from .qgates import ONE, ZERO


class NotAnArgument(Exception):
    """a gate addresses a qubit that is not among the arguments"""


class Circ:
    def __init__(self, qubits):
        self.q = list(qubits)
        self.n = len(self.q)
        self.cols = [{j: ONE} for j in range(1 << self.n)]
        self.trace = []
        self.nonunitary = []

    def pos(self, m, v):
        if isinstance(v, I.Ref):
            v = v.get()
        if isinstance(v, bool):
            v = int(v)
        v = I.simp(v)
        v = I.intval(v, False)
        for i, q in enumerate(self.q):
            if isinstance(v, int) and isinstance(q, int):
                if v == q:
                    return i
            elif z3.is_expr(v) and z3.is_expr(q) and v.eq(q):
                return i
        if isinstance(v, int) and all(isinstance(q, int) for q in self.q):
            raise NotAnArgument("qubit %d is not one of the arguments %s" % (v, self.q))
        for i, q in enumerate(self.q):
            c = I.bv(q, 8) == I.bv(v, 8)
            if not m.path.sat(z3.Not(c)):
                return i
        for i, q in enumerate(self.q):
            if m.branch(I.bv(q, 8) == I.bv(v, 8)):
                return i
        raise NotAnArgument("qubit %s is not one of the arguments %s" % (v, self.q))

    def ctl(self, controls, t, u):
        """u on qubit position t where every (position, value) of controls matches"""
        tb = 1 << t
        if any(c == t for c, _ in controls):
            raise NotAnArgument("a qubit is both control and target")
        cm = cv = 0
        for c, val in controls:
            if cm >> c & 1 and ((cv >> c) & 1) != val:
                return
            cm |= 1 << c
            if val:
                cv |= 1 << c
        for col in self.cols:
            done = set()
            for r in list(col):
                if (r & cm) != cv:
                    continue
                r0 = r & ~tb
                if r0 in done:
                    continue
                done.add(r0)
                r1 = r0 | tb
                a, b = col.pop(r0, None), col.pop(r1, None)
                for rr, (x, y) in ((r0, (u[0][0], u[0][1])), (r1, (u[1][0], u[1][1]))):
                    v = ZERO
                    if a is not None:
                        v = v + x * a
                    if b is not None:
                        v = v + y * b
                    if v.re.t or v.im.t:
                        col[rr] = v

    def mat(self, ps, u, controls=()):
        """matrix u (list of lists) on the qubit positions ps (first = least significant)"""
        if len(set(ps)) != len(ps):
            raise NotAnArgument("repeated qubit")
        k = len(ps)
        allm = sum(1 << p for p in ps)
        for col in self.cols:
            done = set()
            for r in list(col):
                if any(((r >> c) & 1) != v for c, v in controls):
                    continue
                base = r & ~allm
                if base in done:
                    continue
                done.add(base)
                idx = [base | sum(((x >> i) & 1) << ps[i] for i in range(k)) for x in range(1 << k)]
                vec = [col.pop(i, None) for i in idx]
                for x in range(1 << k):
                    v = ZERO
                    for y in range(1 << k):
                        if vec[y] is not None and (u[x][y].re.t or u[x][y].im.t):
                            v = v + u[x][y] * vec[y]
                    if v.re.t or v.im.t:
                        col[idx[x]] = v

    def perm(self, f):
        """basis permutation with phase: f(index) -> (index, Cx)"""
        self.cols = [{f(r)[0]: f(r)[1] * v for r, v in col.items()} for col in self.cols]

    def entries(self):
        return {(r, j): v for j, col in enumerate(self.cols) for r, v in col.items() if v.re.t or v.im.t}


def compare(pv, m, name, got, want, upto_phase=False, domain=None):
    """Obligation: operator got equals operator want (on the columns in domain when given)."""
    a, b = got.entries(), want.entries()
    keys = sorted(set(a) | set(b))
    if domain is not None:
        keys = [k for k in keys if domain(k[1])]
    if upto_phase:
        if any(a.get(k, ZERO) != b.get(k, ZERO) for k in keys):
            piv = next((k for k in keys if k in b and k in a and b[k].re.is_const() and b[k].im.is_const()), None) \
                or next((k for k in keys if k in a and k in b), None)
            if piv is None:
                # no common entry: compare exactly (fails)
                upto_phase = False
            else:
                pa, pb = a[piv], b[piv]
                na = {k: v * pb for k, v in a.items()}
                nb = {k: v * pa for k, v in b.items()}
                a, b = na, nb
    diff = [k for k in keys if a.get(k, ZERO) != b.get(k, ZERO)]
    if not diff:
        from .check import Obl
        pv.obls.append(Obl(name + " (%d matrix entries)" % max(1, len(keys)), "discharged", "ring", 0))
        return True
    ok = True
    for k in diff[:6]:
        x = pv.prove_eq_cx(m, "%s entry %s" % (name, k), a.get(k, ZERO), b.get(k, ZERO))
        if x is not True:
            ok = False
            break
    else:
        for k in diff[6:]:
            x = pv.prove_eq_cx(m, "%s entry %s" % (name, k), a.get(k, ZERO), b.get(k, ZERO))
            if x is not True:
                return False
    return ok
