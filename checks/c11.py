"""C11: classical logic and gate-level arithmetic defaults of the simulator interface against their basis-map contracts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, z3
from dv import astload, interp as I, check, gatespec as S
from dv.gateproof import *
from dv.astload import params_of, has_body

C = check.Check("C11")
C.harness = "diff.cpp"
FILES = ["src/qinterface/logic.cpp", "src/qinterface/arithmetic.cpp", "src/qinterface/qinterface.cpp", "src/common/functions.cpp"]


def ids(q, base):
    """distinct symbolic qubits"""
    return [z3.BitVec("q%d" % (base + i), 8) for i in range(q)]


def regbits(spec):
    """bits of the argument registers, in order"""
    return [b for s, l in spec for b in range(s, s + l)]


def b_logic(name, sig):
    out = []
    same_ok = name in ("AND", "OR", "NAND", "NOR", "XOR", "XNOR")
    if sig == "bbb":
        out.append(("all distinct qubits", lambda m: (ids(3, 0), ids(3, 0)), None))
        def eqin(m):
            a, o = ids(2, 0)
            return [a, a, o], [a, o]
        out.append(("equal inputs", eqin, None))
        if name in ("XOR", "XNOR"):
            out.append(("first input is the output", lambda m: ([ids(2, 0)[0], ids(2, 0)[1], ids(2, 0)[0]], ids(2, 0)), "inplace"))
            out.append(("second input is the output", lambda m: ([ids(2, 0)[0], ids(2, 0)[1], ids(2, 0)[1]], ids(2, 0)), "inplace"))
        else:
            out.append(("first input is the output", lambda m: ([ids(2, 0)[0], ids(2, 0)[1], ids(2, 0)[0]], ids(2, 0)), "throws"))
            out.append(("second input is the output", lambda m: ([ids(2, 0)[0], ids(2, 0)[1], ids(2, 0)[1]], ids(2, 0)), "throws"))
    else:
        for v in (False, True):
            out.append(("classical input %d" % v, lambda m, v=v: ([ids(2, 0)[0], v, ids(2, 0)[1]], ids(2, 0)), None))
    return out


def mk(prog, df, cases, nm):
    def fn(pv):
        for c in cases:
            label, b, spc, dom, thr = (list(c) + [None] * 5)[:5]
            if spc is not None:
                key = (df["name"], S.sig_of(df))
                old = S.SPEC.get(key)
                S.SPEC[key] = spc
            try:
                verify(prog, pv, df, b, False, label, domain=dom, throws=thr)
            finally:
                if spc is not None:
                    if old is None:
                        S.SPEC.pop(key, None)
                    else:
                        S.SPEC[key] = old
    C.task(nm, fn, [CLS + "::" + df["name"] + "(" + S.sig_of(df) + ")"])


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    C.prog = prog

    def defs(name, sig):
        for df in prog.func(CLS + "::" + name):
            if S.sig_of(df) == sig and has_body(df):
                return df
        raise RuntimeError("no definition of %s(%s)" % (name, sig))

    for name in ("AND", "OR", "XOR", "NAND", "NOR", "XNOR"):
        cases = []
        for label, b, mode in b_logic(name, "bbb"):
            sp = thr = None
            if mode == "throws":
                thr = lambda m, a: True
            cases.append((label, b, sp, None, thr))
        mk(prog, defs(name, "bbb"), cases, name + " bbb")
        mk(prog, defs("CL" + name, "bob"), [(l, b) for l, b, _ in b_logic("CL" + name, "bob")], "CL" + name + " bob")
    # full adders: all qubits, 0 to 3 controls
    for name in ("FullAdd", "IFullAdd"):
        mk(prog, defs(name, "bbbb"), [("all distinct qubits", lambda m: (ids(4, 0), ids(4, 0)))], name)
        df = defs("C" + name, "vbbbb")
        cs = []
        for nc in (0, 1, 2, 3):
            cs.append(("%d controls, all qubits" % nc, lambda m, nc=nc: ([I.Vec(ids(nc, 4), "bitLenInt")] + ids(4, 0), ids(4 + nc, 0))))
        mk(prog, df, cs, "C" + name)
    # ripple-carry adders: register lengths 0..3
    LAY = {0: [(0, 1, 2, 3)], 1: [(0, 1, 2, 3), (3, 1, 0, 2)], 2: [(0, 2, 4, 6), (5, 3, 1, 0)], 3: [(0, 3, 6, 9)]}

    def adc_dom(inv, ctr):
        def d(m, c, a):
            a = a[1:] if isinstance(a[0], I.Vec) else a
            ln = a[3]
            O = [c.pos(m, a[2] + k) for k in range(ln)]
            cp = [c.pos(m, x) for x in ctr]
            A, B, Cy = [c.pos(m, a[0] + k) for k in range(ln)], [c.pos(m, a[1] + k) for k in range(ln)], c.pos(m, a[4]) if ln else None
            if not inv:
                return lambda j: S.bits_get(j, O) == 0
            img = set()
            for r in range(1 << c.n):
                if S.bits_get(r, O):
                    continue
                if not all((r >> p) & 1 for p in cp):
                    img.add(r)
                    continue
                t = S.bits_get(r, A) + S.bits_get(r, B) + ((r >> Cy) & 1) if ln else 0
                q = S.bits_set(r, O, t & ((1 << ln) - 1))
                if ln:
                    q = (q & ~(1 << Cy)) | ((t >> ln) << Cy)
                img.add(q)
            return lambda j: j in img
        return d

    for name, inv in (("ADC", False), ("IADC", True)):
        df = defs(name, "bbbbb")
        cases = []
        for ln, lays in LAY.items():
            for A, B, O, cy in lays:
                qs = sorted(set(regbits([(A, ln), (B, ln), (O, ln), (cy, 1)])))
                cases.append(("length %d at %s" % (ln, (A, B, O, cy)), lambda m, A=A, B=B, O=O, cy=cy, ln=ln, qs=qs: ([A, B, O, ln, cy], qs), None, adc_dom(inv, [])))
        mk(prog, df, cases, name)
        df = defs("C" + name, "vbbbbb")
        cases = []
        for ln, ctrs in ((0, [5]), (1, []), (1, [7]), (1, [7, 4]), (2, [8]), (2, [9, 7])):
            A, B, O, cy = LAY[ln][0]
            qs = sorted(set(regbits([(A, ln), (B, ln), (O, ln), (cy, 1)]) + ctrs))
            cases.append(("length %d controls %s" % (ln, ctrs), lambda m, A=A, B=B, O=O, cy=cy, ln=ln, qs=qs, ctrs=ctrs: ([I.Vec(list(ctrs), "bitLenInt"), A, B, O, ln, cy], qs), None, adc_dom(inv, ctrs)))
        mk(prog, df, cases, "C" + name)
    # increments: every operand of every length up to 5 (and operands wider than the register)
    for name in ("INC", "DEC", "CINC", "CDEC", "INCDECC"):
        sig = {"INC": "ibb", "DEC": "ibb", "CINC": "ibbv", "CDEC": "ibbv", "INCDECC": "ibbb"}[name]
        try:
            df = defs(name, sig)
        except RuntimeError:
            continue
        cases = []
        for s, ln in ((0, 0), (0, 1), (2, 1), (0, 2), (1, 3), (0, 4), (3, 5)):
            for v in range(0, (1 << ln) + 2):
                vals = [v]
                if v == 1:
                    vals += [(1 << 128) - 1, (1 << ln) | 1, (1 << 64) + 3]
                for w in vals:
                    if name in ("DEC", "CDEC") and w > (1 << ln):
                        continue
                    if name in ("INC", "DEC"):
                        cases.append(("value %d start %d length %d" % (w, s, ln), lambda m, w=w, s=s, ln=ln: ([w, s, ln], list(range(s, s + ln)) or [0])))
                    elif name in ("CINC", "CDEC"):
                        if ln > 4:
                            continue
                        for ctrs in ([], [9], [9, 0 if s else 8], [9, 10, 11]):
                            if len(ctrs) == 3 and ln != 2:
                                continue
                            cases.append(("value %d start %d length %d controls %s" % (w, s, ln, ctrs), lambda m, w=w, s=s, ln=ln, ctrs=ctrs: ([w, s, ln, I.Vec(list(ctrs), "bitLenInt")], sorted(set(list(range(s, s + ln)) + ctrs)) or [0])))
                    else:
                        for cy in ([s + ln] if ln > 3 else [s + ln, 12] + ([s - 1] if s else [])):
                            cases.append(("value %d start %d length %d carry %d" % (w, s, ln, cy), lambda m, w=w, s=s, ln=ln, cy=cy: ([w, s, ln, cy], sorted(set(list(range(s, s + ln)) + [cy])))))
        mk(prog, df, cases, name)
    for name in ("ROL", "ROR"):
        df = defs(name, "bbb")
        cases = []
        for s, ln in ((0, 0), (1, 1), (0, 2), (2, 3), (0, 4), (1, 5), (0, 6)):
            for sh in list(range(0, ln + 2)) + [255]:
                cases.append(("shift %d start %d length %d" % (sh, s, ln), lambda m, sh=sh, s=s, ln=ln: ([sh, s, ln], list(range(s, s + ln)) or [0])))
        mk(prog, df, cases, name)
    # modular multiplication, out of place: moduli that are powers of two (the others are a recorded finding)

    def mulmod(inv, ctr):
        def sp(m, c, a):
            k, N, i, o, ln = a[:5]
            cp = [c.pos(m, x) for x in (S.vec(a[5]) if ctr else [])]
            ol = (N - 1).bit_length()
            I_ = [c.pos(m, i + t) for t in range(ln)]
            O = [c.pos(m, o + t) for t in range(ol)]

            def f(r):
                if not all((r >> p) & 1 for p in cp):
                    return r
                v = (S.bits_get(r, I_) * k) % N
                return S.bits_set(r, O, (S.bits_get(r, O) + (-v if inv else v)) % (1 << ol))
            S.permute(c, f)
        return sp
    for name, inv, ctr in (("MULModNOut", False, False), ("IMULModNOut", True, False), ("CMULModNOut", False, True), ("CIMULModNOut", True, True)):
        df = next(d for d in prog.func(CLS + "::" + name) if has_body(d))
        cases = []
        for ln, N in ((1, 2), (2, 2), (2, 4), (3, 4), (3, 8)):
            for k in range(0, N + 2):
                for ctrs in ([[7]] if ctr and ln > 2 else [[], [7], [7, 8]] if ctr else [None]):
                    ol = (N - 1).bit_length()
                    args = [k, N, 0, ln, ln] + ([I.Vec(list(ctrs), "bitLenInt")] if ctr else [])
                    qs = list(range(ln + ol)) + (ctrs or [])
                    cases.append(("toMul %d modN %d length %d controls %s" % (k, N, ln, ctrs), lambda m, args=args, qs=qs: (list(args), qs), mulmod(inv, ctr)))
        mk(prog, df, cases, name)


if __name__ == "__main__":
    C.assumptions = [
        "callee gates are used by their operator contracts (C05 for the composed ones; C02, C01 and the layer properties for the primitives)",
        "register lengths, positions, operands and control counts are enumerated as listed in the obligation names; logic and full-adder qubits are symbolic",
        "ADC-family outputs are specified for a zero output register, as documented; modular multiplication only for power-of-two moduli (other moduli: known finding)",
        "overrides in derived classes are not covered here"]
    C.harness_args = ["stacks=base,cpu", "groups=logic,add,addmod"]
    C.run(prepare)
