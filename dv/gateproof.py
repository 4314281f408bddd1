"""Proof of one gate-level function against its operator contract (shared by C05, C11 and the layer checks)."""
import itertools
import z3
from . import interp as I, check, tol, gatespec as S, circ
from .real import R, Cx

CLS = "Qrack::QInterface"


def sym_q(m, i):
    v = z3.BitVec("q%d" % i, 8)
    return v


def make_self(m, nq, rgp):
    f = {"qubitCount": nq, "randGlobalPhase": rgp, "doNormalize": False, "amplitudeFloor": R.const(0)}
    return I.Obj(CLS, {k: I.Cell(v) for k, v in f.items()})


def angle(name):
    return R.atom(name)


def pvec(names):
    return [Cx(R.atom(n + "r"), R.atom(n + "i")) for n in names]


def verify(prog, pv, df, build, rgp=False, label="", q_sym=True, domain=None, throws=None):
    """build(m) -> (argument values, qubits of the arguments)"""
    name, sig = df["name"], S.sig_of(df)
    sp = S.SPEC[(name, sig)]
    con = S.contracts((CLS,))

    def run(m):
        tol.install(m)
        args, qubits = build(m)
        for a, b in itertools.combinations([q for q in qubits if z3.is_expr(q)], 2):
            m.path.assume(a != b)
        n = z3.BitVec("n", 8)
        for q in qubits:
            if z3.is_expr(q):
                m.path.assume(z3.ULT(q, n))
        if any(z3.is_expr(q) for q in qubits):
            m.path.assume(z3.ULE(n, 128))
            nq = n
        else:
            nq = (max(qubits) + 1) if qubits else 1
        me = make_self(m, nq, rgp)
        m.circ = circ.Circ(qubits)
        m.calls_spec_throw = True
        want = circ.Circ(qubits)
        nm = "%s(%s)%s operator" % (name, label, " up to global phase" if rgp else "")
        try:
            m.call_def(df, [I.Cell(I.copyval(a)) for a in args], me)
        except circ.NotAnArgument as e:
            pv.fail(nm, "%s (path %s)" % (e, [str(c) for c in m.path.pc][-6:]))
            return
        except I.CppThrow as e:
            if throws is not None and throws(m, args):
                pv.obls.append(check.Obl(nm + " (argument error, as documented)", "discharged", "execution", 0))
                if m.circ.trace:
                    pv.fail(nm, "gates %s were applied before the exception" % m.circ.trace)
                return
            pv.fail(nm, "throws %s" % e.tname)
            return
        if throws is not None and throws(m, args):
            pv.fail(nm, "no argument error")
            return
        got = m.circ
        m.circ = want
        sp(m, want, args)
        if callable(domain):
            dom = domain(m, want, args)
        else:
            dom = None
        circ.compare(pv, m, nm, got, want, rgp, dom)
        pv.cover("paths completed")
    check.explore(prog, pv, run, con)


def name_has_phase(n):
    return n in ("Phase", "YMask", "RT", "PhaseFlip")


def verify_with(prog, pv, df, build, sp, label):
    key = (df["name"], S.sig_of(df))
    old = S.SPEC.get(key)
    S.SPEC[key] = sp
    try:
        verify(prog, pv, df, build, False, label)
    finally:
        if old is None:
            S.SPEC.pop(key, None)
        else:
            S.SPEC[key] = old


