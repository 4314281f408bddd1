import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
import itertools, z3
from dv import astload, interp as I, check, tol, gatespec as S, circ
from dv.gateproof import *
from dv.real import R, Cx, PI, toR
from dv.astload import params_of, has_body

C = check.Check("C05")
C.harness = "diff.cpp"
FILES = ["src/qinterface/gates.cpp", "src/qinterface/rotational.cpp", "src/qinterface/qinterface.cpp", "src/qinterface/logic.cpp",
         "src/qinterface/arithmetic.cpp", "src/common/functions.cpp"]


def q1(k):
    return lambda m: ([sym_q(m, i) for i in range(k)], [sym_q(m, i) for i in range(k)])


def qvec(kind_order, nctrl):
    pass


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    seen = set()
    for (name, sig) in sorted(S.SPEC):
        for df in prog.func(CLS + "::" + name):
            if S.sig_of(df) != sig or (name, sig) in seen:
                continue
            seen.add((name, sig))
            gens = builders(name, sig)
            if not gens:
                continue

            def fn(pv, df=df, gens=gens):
                for label, b in gens:
                    verify(prog, pv, df, b, False, label)
                if name_has_phase(df["name"]):
                    for label, b in gens:
                        verify(prog, pv, df, b, True, label)
            C.task("%s %s" % (name, sig), fn, [CLS + "::" + name + "(" + sig + ")"])
    for name, df, gens in registers(prog):
        def fn2(pv, df=df, gens=gens, name=name):
            for label, b, sp in gens:
                verify_with(prog, pv, df, b, sp, label)
        C.task(name, fn2, [CLS + "::" + df["name"]])


ONLY_C11 = {"AND", "OR", "XOR", "NAND", "NOR", "XNOR", "CLAND", "CLOR", "CLXOR", "CLNAND", "CLNOR", "CLXNOR", "FullAdd", "IFullAdd", "CFullAdd",
            "CIFullAdd", "ADC", "IADC", "CADC", "CIADC", "INC", "DEC", "CINC", "CDEC", "INCDECC", "ROL", "ROR"}


def builders(name, sig):
    """argument shapes: symbolic distinct qubits and symbolic angles wherever the code treats them opaquely"""
    out = []
    if name in ONLY_C11:
        return out
    if name in ("PhaseRootN", "IPhaseRootN", "CPhaseRootN", "AntiCPhaseRootN", "CIPhaseRootN", "AntiCIPhaseRootN"):
        k = len(sig) - 1
        for d in (0, 1, 2, 3, 4, 5, 9):
            def b(m, d=d):
                qs = [sym_q(m, i) for i in range(k)]
                return [d] + qs, qs
            out.append(("n=%d, all qubits" % d, b))
        return out
    if sig in ("b", "bb", "bbb") and name not in ("ZeroPhaseFlip", "Reverse"):
        out.append(("all distinct qubits", q1(len(sig))))
        if sig == "bb" and name.endswith("Swap"):
            out.append(("equal qubits", lambda m: ([sym_q(m, 0), sym_q(m, 0)], [sym_q(m, 0)])))
        return out
    if name == "PhaseFlip":
        return [("", lambda m: ([], [0]))]
    if sig.strip("br") == "" and "r" in sig:
        def b(m):
            args, qs = [], []
            for i, k in enumerate(sig):
                if k == "b":
                    qs.append(sym_q(m, i))
                    args.append(qs[-1])
                else:
                    args.append(angle("a%d" % i))
            return args, qs
        return [("all angles, all distinct qubits", b)]
    if name == "ZeroPhaseFlip":
        for s, l in ((0, 0), (2, 1), (0, 1), (0, 2), (1, 3), (0, 4)):
            out.append(("start=%d length=%d" % (s, l), lambda m, s=s, l=l: ([s, l], list(range(s, s + l)) or [0])))
        return out
    if name == "Reverse":
        for f, l in ((0, 0), (0, 1), (0, 2), (1, 4), (0, 4), (0, 5), (2, 7)):
            out.append(("first=%d last=%d" % (f, l), lambda m, f=f, l=l: ([f, l], list(range(f, l)) or [0])))
        return out
    if name in ("XMask", "YMask", "ZMask"):
        for mk in (1, 2, 8, 5, 7, 0x2C, 15, 0x17, 1 << 100, (1 << 127) | (1 << 64) | 3):
            bits = [k for k in range(128) if mk >> k & 1]
            out.append(("mask=%#x" % mk, lambda m, mk=mk, bits=bits: ([mk], bits + ([0] if 0 not in bits else []))))
        return out
    if name == "PhaseRootNMask":
        for d in (0, 1, 3):
            for mk in (1, 6, 0x2C):
                bits = [k for k in range(128) if mk >> k & 1]
                out.append(("n=%d mask=%#x" % (d, mk), lambda m, mk=mk, bits=bits, d=d: ([d, mk], bits)))
        return out
    if name == "PhaseParity":
        for mk in (0, 1, 4, 6, 7, 0x2C, (1 << 127) | 3):
            bits = [k for k in range(128) if mk >> k & 1]
            out.append(("mask=%#x, all angles" % mk, lambda m, mk=mk, bits=bits: ([angle("a0"), mk], bits or [0])))
        return out
    # shapes with a control vector
    if sig.startswith("v") and not name.startswith("Uniformly"):
        for nc in (0, 1, 2, 3):
            rest = sig[1:]

            def b(m, nc=nc, rest=rest, payload=None, perm=None):
                cs = [z3.BitVec("c%d" % i, 8) for i in range(nc)]
                args, qs = [I.Vec(list(cs), "bitLenInt")], list(cs)
                j = 0
                for i, k in enumerate(rest):
                    if k == "b":
                        q = z3.BitVec("t%d" % i, 8)
                        qs.append(q)
                        args.append(q)
                    elif k == "r":
                        args.append(angle("a%d" % i))
                    elif k == "c":
                        args.append(Cx(R.atom("x%dr" % i), R.atom("x%di" % i)))
                    elif k == "m":
                        args.append(I.Ptr(I.Vec([Cx(R.atom("m%dr" % z), R.atom("m%di" % z)) for z in range(4)], "complex"), 0))
                    elif k == "i":
                        args.append(z3.BitVec("perm", 128))
                return args, qs
            out.append(("%d controls, all qubits" % nc, b))
            if name.endswith("Swap") and rest == "bb" and nc < 2:
                def b2(m, nc=nc):
                    cs = [z3.BitVec("c%d" % i, 8) for i in range(nc)]
                    t = z3.BitVec("t", 8)
                    return [I.Vec(list(cs), "bitLenInt"), t, t], cs + [t]
                out.append(("%d controls, equal targets" % nc, b2))
        return out
    if name in ("Phase", "Invert", "Mtrx"):
        def b(m):
            t = z3.BitVec("t", 8)
            if name == "Mtrx":
                return [I.Ptr(I.Vec(pvec(["m0", "m1", "m2", "m3"]), "complex"), 0), t], [t]
            return pvec(["x", "y"]) + [t], [t]
        return [("all payloads, all qubits", b)]
    if name.startswith("UniformlyControlled"):
        for nc in (0, 1, 2):
            def b(m, nc=nc):
                cs = [z3.BitVec("c%d" % i, 8) for i in range(nc)]
                t = z3.BitVec("t", 8)
                if sig[2] == "m":
                    extra = 2 if sig.endswith("Vi") else 1
                    arr = I.Vec([Cx(R.atom("m%dr" % z), R.atom("m%di" % z)) for z in range(4 * (1 << nc) * extra)], "complex")
                else:
                    arr = I.Vec([angle("w%d" % z) for z in range(1 << nc)], "real1")
                a = [I.Vec(list(cs), "bitLenInt"), t, I.Ptr(arr, 0)]
                if sig.endswith("Vi"):
                    a += [I.Vec([2 if nc else 1], "bitCapInt"), 2 if nc else 1]
                return a, cs + [t]
            out.append(("%d controls, all payloads" % nc, b))
        return out
    return out


def registers(prog):
    """QFT and its inverse, register forms (bounded lengths)"""
    out = []
    for nm, inv in (("QFT", False), ("IQFT", True)):
        for df in prog.func(CLS + "::" + nm):
            gens = []
            for s, l in ((0, 0), (3, 1), (0, 2), (1, 3), (0, 4)):
                gens.append(("start=%d length=%d" % (s, l), lambda m, s=s, l=l: ([s, l, False], list(range(s, s + l)) or [0]),
                             lambda m, c, a: S._qft(m, c, list(range(a[0], a[0] + a[1])), inv_of(nm_of(a), c))))
            # (closures need the right flag)
            gens = [(lb, b, (lambda m, c, a, inv=inv: S._qft(m, c, list(range(a[0], a[0] + a[1])), inv))) for lb, b, _ in gens]
            out.append((nm, df, gens))
    for nm, inv in (("QFTR", False), ("IQFTR", True)):
        for df in prog.func(CLS + "::" + nm):
            gens = []
            for k in (0, 1, 2, 3):
                def b(m, k=k):
                    qs = [z3.BitVec("c%d" % i, 8) for i in range(k)]
                    return [I.Vec(list(qs), "bitLenInt"), False], qs or [0]
                gens.append(("%d qubits" % k, b, lambda m, c, a, inv=inv: S._qft(m, c, S.vec(a[0]), inv)))
            out.append((nm, df, gens))
    return out


if __name__ == "__main__":
    C.assumptions = [
        "floating-point arithmetic treated as exact real arithmetic; tolerance tests (norm <= epsilon) read as tests for zero",
        "std::vector, std::complex, std::function, sin/cos/pow/sqrt by their mathematical contracts (dv/stdmodel.py)",
        "the number of controls is enumerated (0 to 3) and register / mask shapes are enumerated; qubit indices and angles are symbolic",
        "overrides in derived classes are not covered here (C02 and the layer properties cover them)"]
    C.harness_args = ["stacks=base,cpu", "groups=dec"]
    C.run(prepare)
