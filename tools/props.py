"""Writes properties.jsonl and MANIFEST.json (kept in step here).  usage: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mech, state=(), observe=(), claim=None, reason=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), s)) for s in mech], observe_at=list(observe), hook_needed=None),
                  claim=claim, reason=reason))


DV = "contract-based deductive verification: verification conditions generated from clang's AST of /repo's source, discharged by "
COMMON = (" Trusts clang's front end, the symbolic interpreter /verif/dv and its standard-library contracts, z3/cvc5 and the ring normaliser;"
          " floating point is treated as exact real arithmetic and tolerance tests as tests for zero. Functions or shapes out of the verifier's reach"
          " are only covered by the bounded differential run on the real library (labelled bounded in the evidence, never counted as proved).")

LAYER = ("No contract written here reaches it: one method's contract would have to speak about the represented state of a graph of shared shards with pending gates, reached through virtual calls whose "
         "target is picked at run time, and /verif/dv has no ghost for that (only for one state vector, one tableau or one table). A run on samples would be another family, so it is not claimed. %s")

prop("C01", "Stabilizer Clifford gates act exactly",
     "Every Clifford gate, whether named or given as a matrix payload with zero, one or more controls or anti-controls, that the stabilizer simulator "
     "accepts transforms the represented state by exactly that gate's unitary, up to global phase. A payload that is not Clifford is refused and leaves the state unchanged.",
     ["inputs", "histories"], "all stabilizer states (every history of gates and measurements), all qubit arguments, all Clifford payloads, all register widths the type admits",
     "The unit tests apply gates to a few basis or product states at 1 to 20 qubits; a wrong sign or a wrong row in the tableau shows only on entangled states and particular generator signs, and there are exponentially many tableaus.",
     ["src/qstabilizer.cpp", "include/qstabilizer.hpp"],
     [("tableau column updates per gate, sign rule", "src/qstabilizer.cpp"), ("matrix payload recognition", "src/qstabilizer.cpp MCMtrx, MCPhase, MCInvert, Mtrx, Phase, Invert")],
     state=[("x, z, r", "binary tableau of destabilizer and stabilizer generators and their signs", "include/qstabilizer.hpp")],
     observe=["GetQuantumState", "GetAmplitude", "Prob"],
     claim=dict(technique=DV + "z3 over the binary tableau (one symbolic row, symbolic qubits and width, loop rule for the row loops) and over gate sequences with symbolic payload entries",
                note="Every named gate against the conjugation table for all widths to 127 qubits, all qubit arguments, all rows and signs; every payload routine for all complex payload entries with 0 to 2 controls, callees by contract." + COMMON))

prop("C02", "State-vector gates apply the stated unitary",
     "On the CPU state-vector engine every gate (single-qubit matrix, controlled and anti-controlled, swap family, masks, parity phases and uniformly controlled gates) "
     "replaces the amplitudes by the gate's matrix applied to the addressed qubits, and leaves the state on all other qubits alone.",
     ["inputs"], "all states, all payloads, all distinct qubit arguments, every register width",
     "The unit tests look at probabilities of a few basis states at fixed widths; errors in phases, at the highest qubit, with particular qubit orders, or in special-cased payloads (diagonal, anti-diagonal, unit entries) are not sampled.",
     ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "include/qengine_cpu.hpp", "include/statevector.hpp"],
     [("2x2 kernels over index pairs, SIMD and special-payload variants", "src/qengine/state.cpp Apply2x2"), ("mask, parity and uniformly controlled kernels", "src/qengine/state.cpp"), ("control mask and offset computation", "src/qengine/qengine.cpp")],
     observe=["GetQuantumState", "GetAmplitude"],
     claim=dict(technique=DV + "z3 with uninterpreted amplitudes as exact polynomials: each parallel kernel by a loop contract (ownership, value left at an arbitrary index, accumulated sums)",
                note="All register widths to 60 qubits, all index values, all payload entries; Apply2x2 in every kernel variant (payload kinds, normalising, thresholded), its callers against its contract, masks, parity phases, uniformly controlled gates and the amplitude storage." + COMMON))

prop("C03", "Parallel loops visit every index exactly once",
     "Each parallel loop helper calls its body for exactly the specified set of indices, each exactly once and with a valid worker number, for every range, increment, skip mask, stride and thread count. "
     "Parallel norms and sums equal the sequential ones up to rounding.",
     ["schedules", "inputs"], "all ranges, strides, masks and thread counts, every interleaving of the workers",
     "The tests run one machine's thread count with registers that mostly fit one chunk; a skipped or doubled index at a chunk boundary needs a particular range and interleaving.",
     ["src/common/parallel_for.cpp", "include/common/parallel_for.hpp"],
     [("atomic chunk claim", "src/common/parallel_for.cpp par_for_inc"), ("skip mask expansion of a dense index", "src/common/parallel_for.cpp par_for_skip, par_for_mask")],
     claim=dict(technique=DV + "z3: per-worker loop contract over the chunk the atomic counter hands out, partition lemma over all chunks, inverse-bijection contracts of the index maps",
                note="Every loop helper and both norms; every range, increment and worker count, every interleaving; strides 2^0 to 2^23 one by one (2^40 thorough), bounded in the number of skipped bits: masks of up to 4 (6 thorough). Workers are given different numbers." + COMMON))

prop("C04", "Register arithmetic permutes basis states correctly",
     "Every arithmetic operation of the CPU state-vector engine (add, subtract, multiply, divide, modular, controlled, with carry, signed overflow, indexed load and add, hash) maps each basis state to the one integer arithmetic prescribes. "
     "Amplitudes move unchanged apart from documented phase flips, and unrelated qubits are left alone.",
     ["inputs"], "all states, operands, moduli, register positions and lengths, control sets",
     "The tests add and multiply a handful of constants in one register layout; wrap-around, carry-in, operands at the register size, controls that are not satisfied and registers away from qubit 0 are not covered.",
     ["src/qengine/arithmetic.cpp", "src/qalu.cpp", "include/qalu.hpp"],
     [("basis index maps inside the parallel kernels", "src/qengine/arithmetic.cpp"), ("carry and sign wrappers", "src/qalu.cpp")], 
     observe=["GetQuantumState"],
     claim=dict(technique=DV + "z3 bit-vectors: each parallel kernel by a loop contract stating the map of basis states (injectivity, ownership, nothing left unwritten), wrappers against callee contracts, the modular power by a loop invariant",
                note="All 64-bit operands, register positions and widths to 60 qubits; controlled multiplications at instantiated register lengths and up to 2 controls." + COMMON))

prop("C05", "Default gate decompositions equal the named gate",
     "Every gate that a simulator provides by default as a composition of more primitive gates (named one- and two-qubit gates, rotations, controlled and anti-controlled families, masks, parity phases, uniformly controlled gates, Fourier transforms) "
     "has the documented unitary, for all angles and all distinct qubit arguments. Gates documented up to global phase agree up to global phase.",
     ["inputs"], "all angles, matrix payloads and qubit indices; control counts 0 to 3 and register or mask shapes as enumerated in the evidence",
     "The tests check measurement probabilities after a gate on a basis state, mostly on layers that override the default; phases, angle conventions, and controls in superposition are not observed, and angles are continuous.",
     ["src/qinterface/gates.cpp", "src/qinterface/rotational.cpp", "src/qinterface/qinterface.cpp", "include/qinterface.hpp"],
     [("gate compositions and payload matrices", "src/qinterface/gates.cpp"), ("rotation payloads", "src/qinterface/rotational.cpp"), ("Fourier transforms, parity phases", "src/qinterface/qinterface.cpp")],
     claim=dict(technique=DV + "exact polynomial-ring normalisation over trigonometric atoms and z3, callees by their operator contracts",
                note="Each default gate method is interpreted from source with every gate it calls replaced by that gate's contract (its matrix); the accumulated operator is proved equal to the documented matrix for all angles, payloads and qubit indices. The number of controls (0 to 3), masks and register lengths are enumerated." + COMMON))

prop("C06", "Wide integer arithmetic is integer arithmetic mod 2^w",
     "Addition, subtraction, multiplication, division, shifts, bit operations, comparison and conversion of the multi-word integer type used for large registers return the mathematically exact result modulo its width, for every operand.",
     ["inputs"], "all operand values and shift counts",
     "No unit test exercises the type with random operands; carries and borrows that cross words, and shifts at word boundaries, are single points in a space of 2^128 and more.",
     ["include/common/big_integer.hpp", "src/common/big_integer.cpp"],
     [("word-wise carries, borrows and shifts", "include/common/big_integer.hpp"), ("multiplication and division", "src/common/big_integer.cpp")], 
     claim=dict(technique=DV + "z3 on bit vectors and integers, loop contracts with invariants, callees by contract",
                note="The BigInteger class and the bi_* functions are proved for widths 128 (as two 64-bit words, and 128-bit native words) and 256 bits (and more in the thorough run), for all operand values and shift counts; multiplication and long division "
                     "by loop contracts whose invariants use uninterpreted product, quotient and remainder functions with their integer axioms." + COMMON))

prop("C07", "Measurement projects and renormalises",
     "On the CPU state-vector engine a measurement outcome is drawn with the Born-rule probability, and afterwards the state is the normalised projection onto that outcome. Forcing an impossible outcome is refused.",
     ["inputs"], "all states, qubits, masks, outcomes and random draws",
     "The tests measure a few prepared states; the kernel that zeroes and rescales amplitudes must be right for every index, mask and outcome.",
     ["src/qengine/qengine.cpp", "src/qengine/state.cpp"],
     [("probability sums", "src/qengine/state.cpp Prob, ProbMask"), ("collapse kernels", "src/qengine/state.cpp ApplyM"), ("outcome choice", "src/qengine/qengine.cpp ForceM")], 
     claim=dict(technique=DV + "z3 with uninterpreted amplitudes as exact polynomials: sums and collapse kernels by loop contracts, outcome choice against the contracts of the probability queries",
                note="All states, widths to 60 qubits, all qubits, masks and ranges, every random draw; lists of measured qubits instantiated at lengths 1 to 3." + COMMON))

prop("C08", "Compose, decompose and dispose keep the index map",
     "On the CPU state-vector engine composing registers gives the tensor product with the documented qubit order, allocating adds |0> qubits, and decomposing or disposing a separable register at any position and width returns exactly the two factors, up to global phase.",
     ["inputs"], "all states, positions and widths",
     "The tests split a few registers in basis states; the index maps and phase reconstruction matter for entangled remainders at inner positions.",
     ["src/qengine/state.cpp"], [("compose index maps", "src/qengine/state.cpp Compose"), ("factor reconstruction", "src/qengine/state.cpp DecomposeDispose, Dispose")], 
     claim=dict(technique=DV + "z3 with uninterpreted amplitudes as exact polynomials: copy and product kernels by loop contracts; the separable state as ghost factors for decomposition, its sum loops by loop contracts",
                note="All states, positions and widths with a total to 60 qubits; composing a list at list lengths 1 to 3. TryDecompose and the capacity limit are outside the contracts." + COMMON))

prop("C09", "Out-of-range qubit arguments are rejected",
     "Every operation that the CPU state-vector engine itself implements, given a qubit index, control, mask, permutation or register range outside the register, throws an argument error before anything is written, so the state is unchanged. "
     "Operations that are the identity by their other arguments, and operations on an engine that holds no amplitudes, may instead return without effect.",
     ["inputs"], "all argument values of the parameter types, all register widths",
     "The tests never pass an out-of-range argument; each of the many entry points has its own check, and range checks can be defeated by 8-bit wrap-around at particular values only.",
     ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/arithmetic.cpp", "include/qinterface.hpp"], [("argument checks at function entry", "src/qengine/state.cpp")], 
     claim=dict(technique=DV + "z3 over all argument values: every operation is executed from source up to its first effect, and must throw before it when an argument is out of range",
                note="All widths to 60 qubits and all argument values, control lists at lengths 1 and 2 (3 in the thorough run)." + COMMON))

prop("C10", "Bit utilities are exact",
     "Power-of-two, logarithm, population count, mask, bit-slice, bit-range and skip-insertion helpers return the exact value for every argument in their domain, at the full width of the index type, and the register-overflow, bad-range and bad-index-list tests answer exactly. Printing and parsing a wide integer in decimal are inverse to each other and terminate. The 2x2 complex matrix helpers give the product, the inverse and, for normal matrices with distinct eigenvalues, the exponential and logarithm, up to rounding.",
     ["inputs"], "all arguments of the 64-bit and 128-bit index types",
     "The tests only reach these helpers through registers of at most about 20 qubits, so the upper bits of the 64- and 128-bit types are never exercised.",
     ["include/common/qrack_functions.hpp", "src/common/functions.cpp"], [("bit helpers", "include/common/qrack_functions.hpp"), ("integer powers, skip insertion, printing, matrices", "src/common/functions.cpp")],
     claim=dict(technique=DV + "z3 over bit vectors, the ring back end for the matrix helpers; loop contracts for the loops over vectors of any length",
                note="Every bit helper for all arguments, with the native and the multi-word wide integer; pushApartBits and ThrowIfQbIdArrayIsBad for vectors of every length; intPow by its recursion contract. Printing, parsing, exp2x2 and log2x2 are covered by the labelled bounded stand-in only." + COMMON))

prop("C11", "Classical logic gates and gate-level adders are exact",
     "The default boolean-logic operations, full adders, ripple-carry adders, increments, rotations and modular multiplications built from gates compute the stated classical function on every basis state, for every control pattern, and act as a permutation on superpositions.",
     ["inputs"], "all basis states, all qubit arguments, register lengths as enumerated in the evidence",
     "The tests run a handful of operand values on layers that mostly override these defaults.",
     ["src/qinterface/logic.cpp", "src/qinterface/arithmetic.cpp"], [("CNOT and Toffoli compositions", "src/qinterface/logic.cpp"), ("ripple-carry compositions", "src/qinterface/arithmetic.cpp")],
     claim=dict(technique=DV + "the ring back end over basis permutations and z3, callees by their operator contracts",
                note="Every logic gate and full adder is proved for all qubit arguments; adders, increments, rotations and modular multiplication for the register lengths, positions, operands and control sets enumerated in the obligation names." + COMMON))

prop("C12", "Stabilizer measurement keeps a valid state",
     "Measuring a qubit in the stabilizer simulator yields the forced, determined or random outcome with the right probability and leaves exactly the projected state; it reports a definite outcome exactly when the outcome is fixed. Composing, separating and disposing of registers keep exactly the remaining state.",
     ["inputs", "histories"], "all stabilizer states reachable by any history of gates and measurements",
     "The tests measure a few Bell-like states; row-combination signs and pivot choices depend on the whole tableau.",
     ["src/qstabilizer.cpp"], [("row multiplication and Gaussian elimination", "src/qstabilizer.cpp"), ("collapse", "src/qstabilizer.cpp ForceM"), ("separation", "src/qstabilizer.cpp IsolateRange, DecomposeDispose")], 
     claim=dict(technique=DV + "z3 over the tableau with an uninterpreted symplectic form: loop contracts found by elimination and proved for every number of passes; row operations by contract",
                note="ForceM (every branch: random, determined, forced, applied or not), IsSeparableZ, gaussian (keeps the state), seed, the amplitude and probability queries, clifford() and the four row operations, for all valid tableaus up to 127 qubits, up to global phase. Composing, separating and disposing, and the echelon form which gaussian() returns, are covered by the labelled bounded stand-in only." + COMMON))

prop("C13", "C interface never dereferences an unknown simulator",
     "A call through the C interface (the exported functions of the shared library) with the id of a simulator, neuron or circuit that was never given out returns with an error recorded, which get_error() reports; one with the id of a destroyed simulator returns without effect or with an error recorded. "
     "Neither indexes past a table, dereferences a null simulator, or touches another simulator, in any call history. Creating a simulator gives out only an id that no living simulator has, and a function called with a living id works on that simulator only.",
     ["inputs", "histories"], "all ids, all tables that a history of creation and destruction can leave",
     "The tests do not exercise the C interface at all.",
     ["src/pinvoke_api.cpp", "include/pinvoke_api.hpp"], [("id lookup, locks and error codes", "src/pinvoke_api.cpp"), ("exported functions", "include/pinvoke_api.hpp")],
     claim=dict(technique=DV + "z3 over the id tables: every exported function is executed from source against tables of any size, constrained by the registry invariant only, and must keep it",
                note="Every function that the header declares with an id parameter, for an id never given out, a destroyed one and a living one; simulator methods are opaque (they may throw). Tables of any length. One call at a time: concurrent creation and use is not covered. random_choice ignores its id." + COMMON))

prop("C14", "Hybrid stabilizer keeps the state across its switches",
     "QStabilizerHybrid represents the same state as the state-vector engine after every history: gates buffered on a qubit's shard, ancillae added for non-Clifford gates, and the switch to an engine change nothing that a user can observe beyond rounding.",
     ["inputs", "histories"], "all gate and measurement histories",
     "The tests cover short circuits; the order of buffering, ancilla creation and switching depends on the history.",
     ["src/qstabilizerhybrid.cpp"], [("shards and ancillae", "src/qstabilizerhybrid.cpp")], reason=LAYER % "The tableau below it is C01 and C12.")

prop("C15", "QUnit's separation of qubits is invisible",
     "QUnit represents the same state as one engine of all its qubits after every history of gates, measurements, composition and separation: buffered phase and invert shards, Schmidt separation within the stated rounding threshold, and basis changes change nothing that a user can observe.",
     ["inputs", "histories"], "all histories on all layers",
     "The tests exercise it widely but a missing flush shows only after a particular sequence of buffered gates.",
     ["src/qunit.cpp", "include/qengineshard.hpp"], [("buffers", "src/qengineshard.cpp"), ("flush, entangle, separate", "src/qunit.cpp")], reason=LAYER % "Two defects met by differential runs were repaired (DESIGN.md).")

prop("C16", "Paging and switching between engines keep the state",
     "QPager and QHybrid give the same results as one engine for every page size, combination and separation of pages, and every switching point.",
     ["inputs", "histories"], "all page sizes and histories",
     "The default test build runs few page sizes.",
     ["src/qpager.cpp", "src/qhybrid.cpp"], [("page swap and meta controls", "src/qpager.cpp")], reason=LAYER % "")

prop("C17", "Circuit simplification and tensor networks keep the unitary",
     "QCircuit's combination, commutation and cancellation of gates, and the past-light-cone reduction in QTensorNetwork, keep the circuit's unitary on the qubits that are asked for; QBdt's node sharing and pruning keep the state.",
     ["inputs", "histories"], "all circuits",
     "The tests compare a few random circuits.",
     ["src/qcircuit.cpp", "src/qtensornetwork.cpp", "src/qbdt/tree.cpp"], [("gate combination", "include/qcircuit.hpp"), ("light cone", "src/qcircuit.cpp")], reason=LAYER % "The gate list is a linked list of shared gates with payload maps.")

prop("C18", "Probability and expectation queries are exact",
     "On the CPU state-vector engine every query of a probability (one qubit, controlled, register value, masked value, parity, whole distributions) and of a register's expectation value returns the exact sum over the amplitudes, whatever work is queued or normalisation pending, and leaves the state alone.",
     ["inputs"], "all states, qubits, masks, ranges and values",
     "The tests query basis states and a few superpositions; a wrong index map in a sum over a register in the middle, or a query that overtakes queued work, shows only on particular states and schedules.",
     ["src/qengine/state.cpp", "src/qengine/qengine.cpp", "src/qengine/utility.cpp"], [("probability sums per worker", "src/qengine/state.cpp Prob, CtrlOrAntiProb, ProbReg, ProbMask, ProbParity"), ("distributions", "src/qengine/qengine.cpp ProbRegAll"), ("expectation", "src/qengine/utility.cpp GetExpectation")],
     claim=dict(technique=DV + "z3 with uninterpreted amplitudes as exact polynomials: parallel sums by a reduction contract (each index counted once), sequential sums by loop contracts",
                note="All states and widths to 60 qubits, all qubits, masks, ranges and values." + COMMON))

prop("C19", "QUnitClifford's separation of qubits is invisible",
     "QUnitClifford gives the same results as one stabilizer simulator of all its qubits after every history of gates, measurements, composition and separation.",
     ["inputs", "histories"], "all histories",
     "The tests reach it through a few circuits; a controlled gate whose control is separable takes a path of its own.",
     ["src/qunitclifford.cpp"], [("mapping of qubits to units", "src/qunitclifford.cpp")], reason=LAYER % "Three defects met by differential runs were repaired (DESIGN.md).")

prop("C20", "Queued work runs once, in order, before it is waited for",
     "Work handed to a dispatch queue runs exactly once, one operation at a time, in the order it was handed over, in the background, so that handing over more does not wait for what is running. "
     "When finish() returns, everything handed over before has run; when dump() returns, nothing handed over before is running or will run later; destroying the queue leaves nothing running. "
     "No call waits for ever while operations end, and the engine runs an operation at once only after everything queued has finished.",
     ["schedules", "histories"], "every interleaving of any number of callers and the worker, every history of dispatch, finish, dump and destruction",
     "The tests run whatever schedules the machine happens to produce; a lost wake-up, or a queue reported as finished while its last operation runs, needs a particular interleaving.",
     ["src/common/dispatchqueue.cpp", "include/common/dispatchqueue.hpp", "include/qengine_cpu.hpp"],
     [("worker loop", "src/common/dispatchqueue.cpp dispatch_thread_handler"), ("waiting and dropping", "src/common/dispatchqueue.cpp finish, dump, ~DispatchQueue"), ("queue or run at once", "include/qengine_cpu.hpp Dispatch, Finish, Dump")],
     state=[("q_, isFinished_, isRunning_, isStarted_, quit_", "protected by lock_", "include/common/dispatchqueue.hpp")],
     claim=dict(technique=DV + "z3: monitor invariant with ghost operation numbers, rely of each role, notification of every collected wait predicate, function by function for every schedule",
                note="Every function of DispatchQueue and the engine's Dispatch, Finish, Dump and isFinished; any number of callers. Assumes the C++ standard's mutex, condition variable, queue and async." + COMMON))


def main():
    keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80
            f.write(json.dumps({k: p[k] for k in keys}) + "\n")
    checks, na = [], []
    for p in P:
        c = p["claim"]
        if c:
            cmd = "python3-vt checks/%s.py" % p["id"].lower()
            checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd, "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["note"]})
        else:
            na.append({"property": p["id"], "reason": p["reason"]})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
