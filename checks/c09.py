"""C09: qubit indices, controls, masks and register ranges outside the register are rejected before anything is written."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from dv import astload, interp as I, check, tol, loops
from dv.kern import *
from dv.kern import K
from dv.engops import *
from dv.real import R, Cx, toR, toCx
from dv.astload import params_of, has_body

C = check.Check("C09")
C.harness = "badargs.cpp"
FILES = ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/utility.cpp", "src/qengine/arithmetic.cpp", "src/common/functions.cpp", "src/qinterface/qinterface.cpp"]
CPU, QE, QI = "Qrack::QEngineCPU::", "Qrack::QEngine::", "Qrack::QInterface::"
THOROUGH = check.TIER == "thorough"


class Past(Exception):
    """execution went past the argument checks: something is about to be read or written"""


def past(what):
    def f(m, o, refs, node):
        raise I.CppThrow("past the checks: " + what)
    return f


# parameter kinds: q qubit, c controls, b qubits, s/l range start and length (a second range: s2, l2; same length: S), m mask
OPS = [
    (CPU + "ROL", "w s l", "shift length"), (CPU + "INC", "W s l", "zero length"), (CPU + "CINC", "W s l c", "zero length"),
    (CPU + "INCDECC", "W s l q", "length"), (CPU + "INCS", "W s l q", "zero length"), (CPU + "INCDECSC", "W s l q", "length"), (CPU + "INCDECSC", "W s l q q", "length"),
    (CPU + "MUL", "W s S l", ""), (CPU + "DIV", "W s S l", ""), (CPU + "CMUL", "W s S l c", ""), (CPU + "CDIV", "W s S l c", ""),
    (CPU + "MULModNOut", "W W s S l", ""), (CPU + "IMULModNOut", "W W s S l", ""), (CPU + "POWModNOut", "W W s S l", ""),
    (CPU + "CMULModNOut", "W W s S l c", ""), (CPU + "CIMULModNOut", "W W s S l c", ""), (CPU + "CPOWModNOut", "W W s S l c", ""),
    (CPU + "IndexedLDA", "s l s2 l2 A f", ""), (CPU + "IndexedADC", "s l s2 l2 q A", ""), (CPU + "IndexedSBC", "s l s2 l2 q A", ""), (CPU + "Hash", "s l A", ""),
    (CPU + "FullAdd", "q q q q", ""), (CPU + "IFullAdd", "q q q q", ""), (CPU + "CPhaseFlipIfLess", "W s l q", ""), (CPU + "PhaseFlipIfLess", "W s l", ""),
    (CPU + "XMask", "m", ""), (CPU + "PhaseParity", "r m", ""), (CPU + "PhaseRootNMask", "w m", ""), (CPU + "UniformParityRZ", "m r", ""), (CPU + "CUniformParityRZ", "c m r", ""),
    (CPU + "UniformlyControlledSingleBit", "c q X E W", ""),
    (CPU + "Prob", "q", ""), (CPU + "CtrlOrAntiProb", "f q q", ""), (CPU + "ProbReg", "s l W", ""), (CPU + "ProbMask", "m W", ""), (CPU + "ProbParity", "m", ""), (CPU + "ForceMParity", "m f f", ""),
    (CPU + "GetExpectation", "s l", ""), (CPU + "Allocate", "p w", ""), (CPU + "Dispose", "s l W", ""), (CPU + "DecomposeDispose", "s l N", ""),
    (CPU + "GetAmplitude", "P", ""), (CPU + "SetAmplitude", "P C", ""), (CPU + "GetAmplitudePage", "O o2 L", ""), (CPU + "SetAmplitudePage", "O o2 L", ""),
    (QE + "Mtrx", "X q", ""), (QE + "EitherMtrx", "c X q f", ""), (QE + "UCMtrx", "c X q W", ""), (QE + "ForceM", "q f f f", ""), (QE + "ForceMReg", "s l W f f", ""),
    (QE + "Swap", "q q", ""), (QE + "ISwap", "q q", ""), (QE + "IISwap", "q q", ""), (QE + "SqrtSwap", "q q", ""), (QE + "ISqrtSwap", "q q", ""), (QE + "FSim", "r r q q", ""),
    (QE + "CSwap", "c q q", ""), (QE + "AntiCSwap", "c q q", ""), (QE + "CSqrtSwap", "c q q", ""), (QE + "AntiCSqrtSwap", "c q q", ""), (QE + "CISqrtSwap", "c q q", ""), (QE + "AntiCISqrtSwap", "c q q", ""),
    (QE + "ForceM", "b v f", ""), (QE + "ProbRegAll", "s l o", ""),
]


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog
    base = contracts()
    con = dict(base)
    P = "Qrack::ParallelFor::"
    for kk in ("par_for", "par_for_skip", "par_for_mask", "par_for_inc", "par_norm", "par_norm_exact"):
        con[P + kk] = past(kk)
    for kk in ("Dispatch", "AllocStateVec", "ZeroAmplitudes", "SetPermutation", "ApplyM"):
        con[CPU + kk] = past(kk)
    con[CPU + "NormalizeState"] = con[QE + "NormalizeState"] = lambda m, o, r, n: None
    con[QI + "Rand"] = past("Rand")

    def isid(m, o, r, n):
        x = m.branch(z3.Bool("matrix_is_identity_%d" % len(m.kern.flags)))
        if x:
            m.kern.flags.add("identity")
        return x
    con[QE + "IsIdentity"] = isid

    def mcphase(m, o, refs, n):
        tl, br = toCx(refs[1].get()), toCx(refs[2].get())
        one = [x - y for x, y in ((tl.re, R.const(1)), (tl.im, R.const(0)), (br.re, R.const(1)), (br.im, R.const(0)))]
        c = tol.eq0(m, one)
        if c is True or (c is not False and m.branch(c)):
            m.kern.flags.add("identity")
        return NotImplemented
    con[QI + "MCPhase"] = mcphase

    def defn(q, np):
        l = [d for d in prog.func(q) if has_body(d) and len(params_of(d)) == np]
        if not l:
            raise RuntimeError("no definition of %s" % q)
        return l

    def fits(d, kinds):
        for p, kd in zip(params_of(d), kinds):
            t = p["type"]["qualType"]
            vec = "vector" in t
            if vec != (kd in ("c", "b", "v", "E")):
                return False
        return True

    def build(m, k, kinds, bad_at, nc, null):
        n = nq(m)
        e = engine(k, m, n, Base("a"), null=null)
        k.pend[id(e)] = False
        args, bads = [], []
        qi = 0
        ln = z3.BitVec("length", 8)
        s_first = None
        for i, kd in enumerate(kinds):
            if kd == "q":
                q = z3.BitVec("q%d" % qi, 8)
                qi += 1
                args.append(q)
                bads.append(("qubit %d" % qi, z3.UGE(q, n)))
            elif kd in ("c", "b"):
                v = [z3.BitVec("c%d" % j, 8) for j in range(nc)]
                args.append(I.Vec(list(v), "unsigned char"))
                for j, x in enumerate(v):
                    bads.append(("control %d" % (j + 1), z3.UGE(x, n)))
            elif kd == "v":
                args.append(I.Vec([z3.Bool("v%d" % j) for j in range(nc)], "bool"))
            elif kd in ("s", "S", "s2"):
                s = z3.BitVec("start" + kd, 8)
                args.append(s)
                l = z3.BitVec("length2", 8) if kd == "s2" else ln
                bads.append(("range " + kd, z3.UGT(z3.ZeroExt(8, s) + z3.ZeroExt(8, l), z3.ZeroExt(8, n))))
            elif kd == "p":
                s = z3.BitVec("start", 8)
                args.append(s)
                bads.append(("position", z3.UGT(s, n)))
            elif kd == "l":
                args.append(ln)
            elif kd == "l2":
                args.append(z3.BitVec("length2", 8))
            elif kd == "m":
                x = z3.BitVec("mask", 128)
                args.append(x)
                bads.append(("mask", z3.UGE(x, z3.BitVecVal(1, 128) << zx(n, 128))))
            elif kd == "W":
                args.append(z3.BitVec("value%d" % i, 128))
            elif kd == "w":
                args.append(z3.BitVec("number%d" % i, 8))
            elif kd == "f":
                args.append(z3.Bool("flag%d" % i))
            elif kd == "r":
                args.append(R.atom("angle%d" % i))
            elif kd == "X":
                args.append(I.Ptr(I.Vec([Cx(R.atom("m%dr" % j), R.atom("m%di" % j)) for j in range(4)], "Qrack::complex"), 0))
            elif kd == "E":
                args.append(I.Vec([], "unsigned __int128"))
            elif kd == "A":
                args.append(I.Ptr(Arr(k, FnBase(lambda m_, j: z3.BitVec("byte", 8)), "table"), 0))
            elif kd == "o":
                args.append(I.Ptr(Arr(k, Undef(), "output"), 0))
            elif kd == "P":
                x = z3.BitVec("permutation", 128)
                args.append(x)
                bads.append(("permutation", z3.UGE(x, z3.BitVecVal(1, 128) << zx(n, 128))))
            elif kd == "C":
                args.append(Cx(R.atom("amp_r"), R.atom("amp_i")))
            elif kd == "O":
                args.append(I.Ptr(Arr(k, Undef(), "page"), 0))
            elif kd == "o2":
                args.append(z3.BitVec("offset", 64))
            elif kd == "L":
                x = z3.BitVec("count", 64)
                args.append(x)
                o = z3.BitVec("offset", 64)
                bads.append(("page", z3.UGT(z3.ZeroExt(8, o) + z3.ZeroExt(8, x), z3.BitVecVal(1, 72) << zx(n, 72))))
            elif kd == "N":
                args.append(None)
            else:
                raise RuntimeError(kd)
        nonempty = z3.BoolVal(True)
        if "l" in kinds:
            nonempty = ln != 0
        k.argdesc = (n, args)
        return e, args, bads, nonempty

    def identity(q, kinds, args):
        """the other arguments under which the operation is the identity whatever the qubits and ranges are: it may return without looking at them"""
        b = lambda i: args[i]
        l = [b(i) for i, kd in enumerate(kinds) if kd in ("q", "s", "S", "s2", "m", "l", "c")]
        nm = q.split("::")[-1]
        if nm in ("DIV", "CDIV"):
            return b(0) == 1
        if nm in ("IMULModNOut",):
            return b(0) == 0
        if nm in ("Swap", "ISwap", "IISwap", "SqrtSwap", "ISqrtSwap"):
            return b(0) == b(1)
        if nm in ("CSwap", "AntiCSwap", "CSqrtSwap", "AntiCSqrtSwap", "CISqrtSwap", "AntiCISqrtSwap"):
            return b(1) == b(2)
        if nm in ("Mtrx", "EitherMtrx", "UCMtrx", "FSim"):
            return "matrix"
        return z3.BoolVal(False)

    def task(q, kinds, note):
        kinds = kinds.split()
        ds = [d for d in defn(q, len(kinds)) if fits(d, kinds)]
        if len(ds) != 1:
            raise RuntimeError("%d definitions of %s %s" % (len(ds), q, kinds))
        df = ds[0]
        nm = q.split("::", 1)[1]
        hasv = any(x in ("c", "b") for x in kinds)
        for nc in ((1, 2, 3) if hasv and THOROUGH else ((1, 2) if hasv else (0,))):
            for null in (False, True):
                lab = "%s(%s%s)" % (nm, " ".join(kinds), (", %d controls" % nc if hasv else "") + (", all-zero engine" if null else ""))

                def fn(pv, df=df, nc=nc, null=null, lab=lab):
                    def run(m):
                        tol.install(m)
                        k = K(pv, m, lab + ": ", [], {})
                        k.allcands, k.flags, k.cpu = False, set(), 1
                        k.pre = lambda m_, b, w: None
                        m.kern = k
                        m.std.sort_contract = True
                        m.std.int_to_float = lambda v, st: R.atom("i2f")
                        e, args, bads, nonempty = build(m, k, kinds, None, nc, null)
                        k.eng, k.size, k.gtarget = e, e.f["maxQPowerOcl"].get(), None
                        w = m.path.choose(len(bads))
                        what, b = bads[w]
                        # this is the first argument that is out of range
                        for _, x in bads[:w]:
                            m.path.assume(z3.Not(x))
                        m.path.assume(b)
                        m.path.assume(nonempty)
                        if "ModNOut" in q:
                            m.path.assume(args[1] != 0)
                        f0 = {x: e.f[x].get() for x in ("qubitCount", "maxQPowerOcl", "maxQPower", "stateVec")}
                        try:
                            m.call_def(df, [I.Cell(a) for a in args], e)
                        except I.CppThrow as t:
                            if t.tname.startswith("past"):
                                fail(pv, m, lab + ": " + what + " out of range is rejected before anything is read or written", t.tname)
                                return
                            if k.writes or any(r[0] == "w" for r in k.log):
                                fail(pv, m, lab + ": " + what + " out of range is rejected before anything is written", "writes before the exception")
                            pv.obls.append(check.Obl(lab + ": " + what + " out of range is rejected", "discharged", "execution", 0))
                            pv.cover("rejections")
                            return
                        except (I.NullDeref, I.UndefinedShift) as t:
                            fail(pv, m, lab + ": " + what + " out of range is rejected", type(t).__name__ + " " + str(t)[:80])
                            return
                        if k.writes or any(r[0] == "w" for r in k.log):
                            fail(pv, m, lab + ": " + what + " out of range is rejected", "the call returns normally, after writes")
                            return
                        if null:
                            # no amplitudes: nothing to do, nothing done
                            pv.obls.append(check.Obl(lab + ": " + what + " out of range has no effect on an engine without amplitudes", "discharged", "execution", 0))
                            pv.cover("no amplitudes, no effect")
                            return
                        idn = identity(q, kinds, args)
                        if isinstance(idn, str):
                            idn = z3.BoolVal(bool(k.flags & {"identity"}))
                        pv.prove(m, lab + ": " + what + " out of range is rejected, or the operation is the identity by its other arguments", idn, hint="the call returns normally")
                    return check.explore(prog, pv, run, con)
                C.task(lab, fn, [df["_q"]])
    for q, kinds, note in OPS:
        task(q, kinds, note)


if __name__ == "__main__":
    C.assumptions = [
        "everything a function does before its first parallel loop, dispatch, allocation, random draw or state reset is executed from source; writes to an engine happen only in those (and in storage writes, which are logged)",
        "NormalizeState may run before the check (it does not change the state represented, C07); Finish and Dump likewise",
        "moduli are not 0; register widths 1 to %d; ranges of length 0 and permutations given to SetPermutation and constructors are outside the property" % NMAX,
        "operations not overridden by the engine (QInterface and QAlu compositions) are outside it: they may apply a prefix before the primitive that throws",
    ]
    C.standins = ["every operation with exactly one argument out of range on the real engine with entangled states: it must throw and leave every amplitude as it was (bounded)"]
    C.run(prepare)
