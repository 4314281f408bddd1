"""C13: the C interface.  Every exported function that takes a simulator, neuron or circuit id, for an id that was never given
out, for one that was destroyed, and for a live one, over tables of any size; and the functions that create and destroy ids keep
the invariant those answers rest on."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import astload, interp as I, check, capi
from dv.astload import params_of, qtype, has_body
from dv.capi import Exec, Handle, Opq, Table, Map, Var, W

C = check.Check("C13")
SRC = "src/pinvoke_api.cpp"
TABLES = {"simulators": [("simulators", "handle"), ("simulatorErrors", "int"), ("simulatorTypes", "opaque"), ("simulatorHostPointer", "opaque"), ("simulatorReservations", "bool")],
          "neurons": [("neurons", "handle"), ("neuronErrors", "int"), ("neuronReservations", "bool")],
          "circuits": [("circuits", "handle"), ("circuitReservations", "bool")]}
RESV = {"simulators": "simulatorReservations", "neurons": "neuronReservations", "circuits": "circuitReservations"}
ERRS = {"simulators": "simulatorErrors", "neurons": "neuronErrors"}
MAPS = ["simulatorMutexes", "shards", "neuronSimulators", "neuronMutexes", "circuitMutexes", "circuitStrings"]
IDS = {"sid": "simulators", "sid1": "simulators", "sid2": "simulators", "nid": "neurons", "cid": "circuits"}
CREATE = {"init_count_type": "simulators", "init_count": "simulators", "init_count_pager": "simulators", "init_clone": "simulators",
          "init_qneuron": "neurons", "clone_qneuron": "neurons", "init_qcircuit": "circuits", "init_qcircuit_clone": "circuits", "qcircuit_inverse": "circuits",
          "qcircuit_past_light_cone": "circuits", "Decompose": "simulators"}
DESTROY = {"destroy": "simulators", "destroy_qneuron": "neurons", "destroy_qcircuit": "circuits"}
MAYDROP = {"release": "simulators"}
NONEMPTY = {"Exp", "MCExp"}          # a request over no qubits is answered before the id is looked at
IDLE = {"random_choice"}             # has an id argument it does not use
RESERVED = {"allocateQubit"}         # works on an id in use that has no simulator yet


C.harness = "capi.cpp"
C.harness_time = {"quick": 20, "thorough": 300}


def build(scratch):
    """the library, its C interface compiled with checked containers, and a table of the exported functions from the header"""
    import re, subprocess
    txt = open(os.path.join(check.REPO, "include", "pinvoke_api.hpp")).read()
    txt = re.sub(r"/\*.*?\*/|//[^\n]*", "", txt, flags=re.S)
    rows = []
    for m in re.finditer(r"MICROSOFT_QUANTUM_DECL\s+[\w:\s\*]*?(\w+)\s*\(([^;{]*)\)\s*;", txt):
        a = re.sub(r"_(In|Out|Inout)_(reads_|writes_)?(\([^)]*\))?", "", m.group(2))
        for i, p in enumerate(a.split(",")):
            nm = p.split()[-1].lstrip("*") if p.split() else ""
            if nm in IDS:
                rows.append((m.group(1), i, IDS[nm][0]))
    with open(os.path.join(scratch.dir, "capi_table.hpp"), "w") as f:
        f.write("static const Fn TABLE[] = {\n")
        for q, i, c in rows:
            f.write('    { "%s", %d, \'%s\', [](uintq id) { callf(&%s, %d, id); } },\n' % (q, i, c, q, i))
        f.write("};\nstatic const size_t TABLE_N = sizeof(TABLE) / sizeof(TABLE[0]);\n")
    scratch.build()
    o = os.path.join(scratch.dir, "capi.o")
    inc = ["-I" + check.REPO + "/include", "-I" + check.REPO + "/include/common", "-I" + scratch.cfg, "-I" + scratch.cfg + "/common"]
    r = subprocess.run(["g++", "-O0", "-g0", "-std=c++14", "-mrdrnd", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_AVAILABLE=1", "-DENABLE_RDRAND=1", "-DCPP_STD=14"] + inc
                       + ["-c", os.path.join(check.REPO, SRC), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("harness build failed: " + r.stdout.decode("utf-8", "replace")[-2000:])
    return scratch.compile(os.path.join(check.VERIF, "replay", C.harness), extra=["-I" + scratch.dir, o])


C.builder = build


def globals_of(prog):
    return {q: qtype(n) for q, n in prog.tus[0].vars.items()}


def setup(x, gl):
    for fam, ts in TABLES.items():
        for t, k in ts:
            if t not in gl or "vector" not in gl[t]:
                raise I.Unsupported("no table %s" % t)
            x.add_table(t, k, fam)
            x.g[t] = Var(Table(t))
        x.path.assume(z3.ULT(z3.BitVec("size_" + fam, W), z3.BitVecVal(1 << 62, W)))
    for t in MAPS:
        if t in gl:
            x.g[t] = Var(Map(t))
    x.g["metaError"] = Var(z3.BitVec("metaError", 32))
    x.me0 = x.g["metaError"].v
    x.arr0, x.size0 = dict(x.arr), dict(x.size)
    x.watch = []
    x.seen = []

    def on_index(name, i):
        fam = x.fam[name]
        inv_at(x, fam, i)
    x.on_index = on_index

    def on_new(fam, a):
        for f, i in x.seen:
            if f == fam:
                x.path.assume(z3.Select(x.arr0[fam], i) != a)
    x.on_new = on_new

    def on_key(name, how, k):
        if x.may is None or k[1] is None or not (name == "shards" or how == "erase"):
            return
        fam = {"n": "neurons", "c": "circuits"}.get(name[0], "simulators")
        ok = [k[1] == 0] + [k[1] == a for a in x.may.get(fam, [])] + [k[1] == a for f, a in x.freshes if f == fam]
        x.prove("no entry of %s but that of an object the call names" % name, z3.Or(ok))
    x.on_key = on_key


def c_shard(x, vals):
    """GetSimShardId, by its contract: some qubit number; on failure only the error code of that simulator, or metaError"""
    h = vals[0]
    if not isinstance(h, Handle):
        raise I.Unsupported("GetSimShardId of %r" % (h,))
    k = x.fresh("owner")
    on = z3.And(z3.ULT(k, x.size["simulators"]), z3.Select(x.arr["simulators"], k) == h.a)
    inv_at(x, "simulators", k)
    x.arr["simulatorErrors"] = z3.Store(x.arr["simulatorErrors"], k, z3.If(on, z3.BitVec(x.path.fresh("code"), 32), z3.Select(x.arr["simulatorErrors"], k)))
    x.g["metaError"].v = x.fresh("metaError", 32)
    return z3.BitVec(x.path.fresh("qubit"), 8)


def inv_at(x, fam, i):
    """the invariant of the tables on entry, at one index, and against the indices looked at before"""
    for f, k in x.seen:
        if f == fam and k.eq(i):
            return
    n = x.size0[fam]
    h = z3.Select(x.arr0[fam], i)
    x.path.assume(z3.Implies(z3.And(z3.ULT(i, n), z3.Not(z3.Select(x.arr0[RESV[fam]], i))), h == 0))
    for f, k in x.seen:
        if f == fam:
            x.path.assume(z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(k, n), h != 0, h == z3.Select(x.arr0[fam], k)), i == k))
    for f, a in x.freshes:
        if f == fam:
            x.path.assume(h != a)
    x.seen.append((fam, i))


def post_inv(x, lab=""):
    for fam, ts in TABLES.items():
        j, k = z3.BitVec("j_" + fam, W), z3.BitVec("k_" + fam, W)
        if all(x.arr[t].eq(x.arr0[t]) and x.size[t].eq(x.size0[t]) for t, _ in ts):
            continue
        for t, _ in ts:
            if t != fam:
                x.prove("%s and %s keep the same length" % (t, fam), x.size[t] == x.size[fam])
        h = z3.Select(x.arr[fam], j)
        n = x.size[fam]
        x.prove("an id of %s that is free has no object" % fam, z3.Implies(z3.And(z3.ULT(j, n), z3.Not(z3.Select(x.arr[RESV[fam]], j))), h == 0))
        x.prove("no two ids of %s share an object" % fam, z3.Implies(z3.And(z3.ULT(j, n), z3.ULT(k, n), h != 0, h == z3.Select(x.arr[fam], k)), j == k))


def same(x, fam, free=(), only=None, what="no other id"):
    """every table of the family is as before at every index not in free"""
    j = z3.BitVec("j_" + fam, W)
    ne = z3.And([j != f for f in free] + [z3.ULT(j, x.size0[fam])])
    for t, k in TABLES[fam]:
        if only and t not in only:
            continue
        if not x.arr[t].eq(x.arr0[t]):
            x.prove("%s of %s is changed (%s)" % (what, fam, t), z3.Implies(ne, z3.Select(x.arr[t], j) == z3.Select(x.arr0[t], j)))


def same_size(x, fam):
    for t, k in TABLES[fam]:
        if not x.size[t].eq(x.size0[t]):
            x.prove("no id of %s is given out or taken back" % fam, x.size[t] == x.size0[t])


def untouched(x, fams=TABLES):
    for f in fams:
        same(x, f, (), what="nothing")
        same_size(x, f)


def meta(x):
    return x.num(x.g["metaError"].v, 32)


def prepare(cfg):
    prog = astload.Program([SRC], cfg, filt=None, ns="")
    gl = globals_of(prog)
    tu = prog.tus[0]
    fns = {}
    for q, lst in tu.funcs.items():
        if "::" in q or not any((n.get("_file") or "").endswith("pinvoke_api.hpp") for n in lst):
            continue                     # exported: declared in the public header
        for n in lst:
            if has_body(n) and (n.get("_file") or "").endswith("pinvoke_api.cpp"):
                fns[q] = n
    tasks = 0

    def ids_of(n):
        return [(i, p["name"], IDS[p["name"]]) for i, p in enumerate(params_of(n)) if p.get("name") in IDS]

    shard = [n for n in tu.funcs.get("GetSimShardId", ()) if has_body(n) and [qtype(p) for p in params_of(n)][1:] in (["bitLenInt"], ["unsigned char"])]

    def t_shard(pv):
        def run(x):
            setup(x, gl)
            x.label = "GetSimShardId"
            j = z3.BitVec("j_simulators", W)
            h = Handle("simulators", z3.BitVec("arg_simulator", W))
            x.watch.append(j)
            inv_at(x, "simulators", j)
            x.may = {"simulators": [h.a]}
            x.call(shard[0], [h, z3.BitVec("arg_i", 8)], "GetSimShardId")
            for f in TABLES:
                same_size(x, f)
                if f != "simulators":
                    same(x, f)
            same(x, "simulators", only=[t for t, _ in TABLES["simulators"] if t != "simulatorErrors"])
            x.prove("only the error code of that simulator changes", z3.Implies(z3.And(z3.ULT(j, x.size0["simulators"]), z3.Select(x.arr0["simulators"], j) != h.a),
                    z3.Select(x.arr["simulatorErrors"], j) == z3.Select(x.arr0["simulatorErrors"], j)))
            pv.obls.append(check.Obl("GetSimShardId: every path meets its contract", "discharged", "execution", 0))
        capi.explore(prog, pv, "GetSimShardId", run)
    if shard:
        C.task("GetSimShardId", t_shard, ["GetSimShardId"])

    def go(pv, label, q, n, prep, post, may=None, soft=()):
        covered = []

        def run(x):
            setup(x, gl)
            if shard:
                x.contracts["GetSimShardId"] = c_shard
            vals, a = [], {}
            for i, p in enumerate(params_of(n)):
                t = qtype(p)
                w = capi.width(t)
                if w and w[0] == 1:
                    v = z3.Bool("arg_" + p.get("name", str(i)))
                elif w:
                    v = z3.BitVec("arg_" + p.get("name", str(i)), w[0])
                else:
                    v = Opq(t)
                vals.append(v)
                a[p.get("name", str(i))] = v
                a[i] = v
            for fam in TABLES:
                for nm in ("j_", "k_"):
                    x.watch.append(z3.BitVec(nm + fam, W))
                    inv_at(x, fam, z3.BitVec(nm + fam, W))
            for i, p, fam in ids_of(n):
                x.watch.append(vals[i])
                inv_at(x, fam, vals[i])
            prep(x, a)
            if not x.path.sat():
                raise I.PathEnd()
            x.a = a
            try:
                r = x.call(n, vals, q)
            except capi.Throw:
                if not covered:
                    covered.append(1)
                if x.strict:
                    x.fail("no exception leaves the call", "an exception leaves the call")
                return
            covered.append(1)
            post(x, a, r)
        capi.explore(prog, pv, label, run)
        if covered:
            pv.obls.append(check.Obl(label + ": every path of the call meets its contract", "discharged", "execution", 0))

    def h0(x, fam, i):
        return z3.Select(x.arr0[fam], i)

    def live(x, fam, i):
        return z3.And(z3.ULT(i, x.size0[fam]), h0(x, fam, i) != 0)

    def unknown(pv, q, n, i, p, fam):
        def prep(x, a):
            x.strict = True
            x.may = {f: [h0(x, f, a[k]) for k, _, f2 in ids_of(n) if f2 == f and k != i] if False else [] for f in TABLES}
            x.path.assume(z3.UGE(a[i], x.size0[fam]))
            if q in NONEMPTY:
                x.path.assume(a["n"] != 0)

        def post(x, a, r):
            untouched(x)
            if q == "get_error":
                x.prove("an unknown id is answered with an error code", x.num(r, 32) != 0)
            elif q not in IDLE:
                x.prove("an unknown id is reported", meta(x) == 2)
        go(pv, "%s with a %s id that was never given out" % (q, fam[:-1]), q, n, prep, post)

    def dead(pv, q, n, i, p, fam):
        def prep(x, a):
            x.strict = True
            x.may = {f: [] for f in TABLES}
            x.path.assume(z3.ULT(a[i], x.size0[fam]))
            x.path.assume(h0(x, fam, a[i]) == 0)
            if q in RESERVED:
                x.path.assume(z3.Not(z3.Select(x.arr0[RESV[fam]], a[i])))

        def post(x, a, r):
            if q == "get_error":
                x.prove("the code kept for the id is returned", x.num(r, 32) == z3.If(x.me0 != 0, z3.BitVecVal(2, 32), z3.Select(x.arr0["simulatorErrors"], a[i])))
                untouched(x)
                return
            if q in DESTROY:
                return after_destroy(x, a, i, fam)
            untouched(x)
            x.prove("a destroyed id leaves the error state alone or is reported", z3.Or(meta(x) == 2, meta(x) == x.me0))
            if q in CREATE:
                x.prove("a copy of a destroyed id is refused and reported", z3.Or(meta(x) == 2, z3.BoolVal(q == "Decompose")))
        go(pv, "%s with a destroyed %s id" % (q, fam[:-1]), q, n, prep, post)

    def after_destroy(x, a, i, fam):
        x.prove("a destroyed id has no object", z3.Select(x.arr[fam], a[i]) == 0)
        x.prove("a destroyed id is free", z3.Not(z3.Select(x.arr[RESV[fam]], a[i])))
        for f in TABLES:
            same(x, f, [a[i]] if f == fam else [])
            same_size(x, f)
        post_inv(x)

    def alive(pv, q, n, ids):
        made = CREATE.get(q)

        def prep(x, a):
            x.strict = False
            x.may = {f: [h0(x, f, a[k]) for k, _, f2 in ids if f2 == f] for f in TABLES}
            for k, _, f in ids:
                if q in RESERVED:
                    x.path.assume(z3.And(z3.ULT(a[k], x.size0[f]), z3.Select(x.arr0[RESV[f]], a[k])))
                else:
                    x.path.assume(live(x, f, a[k]))
            x.meta_free = True

            def soften(t):
                for k, _, f in ids:
                    if f == x.fam[t]:
                        x.arr[t] = z3.Store(x.arr[t], a[k], z3.BitVec(x.path.fresh("code"), 32))
            x.soft = {e: soften for e in ERRS.values()}
            x.soft_free = lambda t, j: z3.And([j != a[k] for k, _, f in ids if f == x.fam[t]] or [z3.BoolVal(True)])

        def post(x, a, r):
            mine = {f: [a[k] for k, _, f2 in ids if f2 == f] for f in TABLES}
            if q == "get_error":
                x.prove("the code kept for the id is returned", x.num(r, 32) == z3.If(x.me0 != 0, z3.BitVecVal(2, 32), z3.Select(x.arr0["simulatorErrors"], a["sid"])))
                x.prove("the pending error is reported once", meta(x) == 0)
                untouched(x)
                return
            if q in DESTROY:
                return after_destroy(x, a, ids[0][0], ids[0][2])
            if made:
                r = x.num(r, W)
                n0, n1 = x.size0[made], x.size[made]
                x.prove("a new id is one that was free, or the next one", z3.Or(z3.And(r == n0, n1 == n0 + 1), z3.And(z3.ULT(r, n0), n1 == n0, z3.Not(z3.Select(x.arr0[RESV[made]], r)))))
                x.prove("a new id is in use", z3.Select(x.arr[RESV[made]], r))
                hr = z3.Select(x.arr[made], r)
                x.prove("a new id has a new object of its own, or none", z3.Or([hr == 0] + [hr == v for f, v in x.freshes if f == made]))
                if made in ERRS:
                    qn = a.get("q") if q.startswith("init_count") else None
                    x.prove("an id whose object could not be made carries an error code", z3.Or([hr != 0, z3.Select(x.arr[ERRS[made]], r) != 0] + ([qn == 0] if qn is not None and z3.is_expr(qn) else [])))
                for f in TABLES:
                    same(x, f, mine[f] + ([r] if f == made else []))
                    if f != made:
                        same_size(x, f)
                for f in TABLES:
                    for i in mine[f]:
                        if not x.arr[f].eq(x.arr0[f]):
                            x.prove("the id named keeps its object", z3.Or(z3.Select(x.arr[f], i) == h0(x, f, i), z3.And(z3.BoolVal(f == made), i == r)))
                        if f == made:
                            x.prove("the id named is not given out again", i != r)
                post_inv(x)
                return
            for f in TABLES:
                same_size(x, f)
                same(x, f, mine[f])
                for i in mine[f]:
                    if not x.arr[f].eq(x.arr0[f]):
                        new = [z3.Select(x.arr[f], i) == v for f2, v in x.freshes if f2 == f] if q in RESERVED else []
                        x.prove("the id named keeps its object", z3.Or([z3.Select(x.arr[f], i) == h0(x, f, i)] + ([z3.Select(x.arr[f], i) == 0] if q in MAYDROP else []) + new))
                    if not x.arr[RESV[f]].eq(x.arr0[RESV[f]]):
                        x.prove("the id named stays in use", z3.Select(x.arr[RESV[f]], i) == z3.Select(x.arr0[RESV[f]], i))
            post_inv(x)
        go(pv, "%s on live ids" % q if ids else q, q, n, prep, post)

    def one(q, n):
        ids = ids_of(n)

        def fn(pv):
            for i, p, fam in ids:
                unknown(pv, q, n, i, p, fam)
                dead(pv, q, n, i, p, fam)
            alive(pv, q, n, ids)
        return fn
    for q, n in sorted(fns.items()):
        if ids_of(n) or q in CREATE:
            C.task(q, one(q, n), [q])
            tasks += 1
    missing = [q for q in list(CREATE) + list(DESTROY) + ["get_error", "release", "allocateQubit", "Compose"] if q not in fns]
    if tasks < 150 or missing:
        def few(pv):
            pv.unsupported("exported functions", "%d exported functions with an id found; missing %s" % (tasks, missing))
        C.task("exported functions", few)


C.assumptions = [
    "histories are sequential: one call returns before the next begins (the locks are opaque; the tables are read before the lock is taken, so overlapping creation and use of ids is not covered)",
    "an id that is in range and has no object is a destroyed one, or one created with zero qubits, or one whose creation failed; every call but allocateQubit treats the three alike",
    "calls on simulators, neurons and circuits are opaque: they may return anything and throw anything derived from std::exception, and do not reach back into the tables",
    "an object just created has an address no live object has",
    "a dynamic_pointer_cast of a live simulator is taken to succeed",
    "pointer arguments address as many elements as the call says",
    "an exception that leaves a call on a live id ends the program and is not covered; on an unknown or destroyed id no exception may leave",
    "integers are machine integers; the tables have fewer than 2^62 entries",
]
C.run(prepare)
