"""C20: queued work.  DispatchQueue as a monitor: invariant, guarantees and waits of every function for every schedule, and the
engine's Dispatch / Finish / Dump over those contracts."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from dv import astload, interp as I, check, mon
from dv.interp import Obj, Cell, NativeFn
from dv.astload import params_of, qtype
from dv.mon import B

C = check.Check("C20")
C.harness = "dispatch.cpp"
C.harness_time = {"quick": 20, "thorough": 300}
Q = "Qrack::DispatchQueue"
FILES = ["src/common/dispatchqueue.cpp"]
ENGINE = ["src/qengine/state.cpp"]


def build(scratch):
    """the real class and the schedules, without the rest of the library"""
    import subprocess
    exe = os.path.join(scratch.dir, "dispatch")
    inc = ["-I" + scratch.cfg, "-I" + scratch.cfg + "/common", "-I" + check.REPO + "/include", "-I" + check.REPO + "/include/common"]
    r = subprocess.run(["g++", "-O1", "-g0", "-std=c++14", "-w"] + inc + [os.path.join(check.VERIF, "replay", C.harness), check.REPO + "/src/common/dispatchqueue.cpp", "-o", exe, "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("harness build failed: " + r.stdout.decode("utf-8", "replace")[-2000:])
    return exe


C.builder = build


class M(mon.Monitor):
    drops = False
    quitname = "quit_"

    def inv(self, s):
        lo, hi, busy, worker = s["lo"], s["hi"], s["busy"], s["worker"]
        fin, quit, started = s["isFinished_"], s["quit_"], s["isStarted_"]
        out = [("operations leave the queue in the order they entered", z3.And(lo >= 0, lo <= hi)),
               ("reported finished only with nothing queued and nothing running", z3.Implies(fin, z3.And(lo == hi, z3.Not(busy)))),
               ("with nothing queued and nothing running it is reported finished", z3.Or(fin, quit, lo < hi, busy)),
               ("work is queued only once there is a worker", z3.If(started, worker, z3.And(lo == hi, z3.Not(busy), z3.Not(worker), fin, z3.Not(quit)))),
               ("at most one operation taken", z3.Implies(busy, lo > 0))]
        if "isRunning_" in s:
            out.append(("isRunning_ tells whether an operation is running", s["isRunning_"] == busy))
        return out

    def rely(self, a, b):
        out = [b["hi"] >= a["hi"], b["lo"] >= a["lo"], z3.Implies(a["isStarted_"], b["isStarted_"]), z3.Implies(a["quit_"], b["quit_"])]
        if self.role == "client":
            out.append(b["quit_"] == a["quit_"])          # no call overlaps the destructor
        if self.role == "destructor":
            out += [b["quit_"] == a["quit_"], b["hi"] == a["hi"], z3.Implies(z3.Not(a["isStarted_"]), z3.Not(b["isStarted_"]))]
        if self.role == "worker":
            out.append(B(b["isStarted_"]))
        return out


def fields(prog):
    out = {}
    for tu in prog.tus:
        rec = tu.records.get(Q) or tu.records.get("DispatchQueue")
        if rec is not None:
            for c in rec.get("inner", ()):
                if c.get("kind") == "FieldDecl":
                    out[c["name"]] = qtype(c)
            if out:
                break
    sync, q = {}, None
    for n, t in out.items():
        if "mutex" in t:
            sync[n] = "mutex"
        elif "condition_variable" in t:
            sync[n] = "cv"
        elif "future" in t:
            sync[n] = "future"
        elif "queue" in t:
            q = n
    return out, sync, q


def prepare(cfg):
    prog = astload.Program(FILES, cfg)
    FN = {n: prog.func(Q + "::" + n)[0] for n in ("finish", "dump", "dispatch", "dispatch_thread_handler", "~DispatchQueue")}
    flds, sync, qname = fields(prog)

    def machine(m, mo):
        st = m.std
        old_c = st.construct

        def construct(m2, t, args, fr, n):
            b = t.split("<")[0].replace("std::", "").strip()
            if b in ("unique_lock", "lock_guard", "scoped_lock"):
                v = [m2.rv(a, fr) for a in args if a["kind"] != "CXXDefaultArgExpr"]
                if not v or not isinstance(v[0], mon.Mutex):
                    raise I.Unsupported("lock on something else")
                return mon.Lock(mo, m2, len(v) == 1)
            if b == "queue":
                if not [a for a in args if a["kind"] != "CXXDefaultArgExpr"]:
                    return mon.Queue(mo)
                v = m2.rv(args[0], fr)
                if isinstance(v, mon.Queue) and v.lo is None:
                    return v
                raise I.Unsupported("queue copied or moved")
            return old_c(m2, t, args, fr, n)

        def dflt(t):
            if t.split("<")[0].replace("std::", "").strip() == "queue":
                return mon.Queue(mo)
            return old_d(t)
        old_d = st.default_construct
        st.construct, st.default_construct = construct, dflt

        def f_async(m2, refs, v, n):
            if not mo.held:
                mo.fail(m2, "the worker is started without the lock")
                raise I.PathEnd()
            ok = mo.lab + ": "
            if I.simp(I.bv(v[0], 32) == 1) is not True:
                mo.fail(m2, "the worker is launched asynchronously (policy %s)" % v[0])
                raise I.PathEnd()
            mo.pv.prove(m2, ok + "at most one worker is started", z3.Not(B(mo.worker)))
            seen = []
            m2.contracts[Q + "::dispatch_thread_handler"] = lambda m3, o, r, nn: seen.append(o)
            m2.call_value(v[1], [])
            del m2.contracts[Q + "::dispatch_thread_handler"]
            if len(seen) != 1 or seen[0] is not mo.obj:
                raise I.Unsupported("the worker's function")
            mo.worker = z3.BoolVal(True)
            mo.launched = True
            return mon.Future(mo, True)
        st.f_async = f_async
        m.scoped = True
        m.loop_hook = lambda m2, n, cond, inc, body, fr: mo.loop(m2, n, cond, inc, body, fr)
        m.do_hook = lambda m2, n, cond, body, fr: mo.loop(m2, n, cond, None, body, fr, True)

    def run_role(pv, name, role, preds, before, after, drops=False):
        lab = name
        out = []

        def run(m):
            mo = M(pv, lab, role, preds)
            mo.drops = drops
            mo.setup(m, Q, flds, qname, sync)
            machine(m, mo)
            vals = before(m, mo)
            mo.entry = mo.state()
            try:
                m.call_def(FN[name], vals, mo.obj)
            finally:
                out.extend(mo.preds if preds is None else [])
            mo.finished(m)
            after(m, mo)
        con = {}
        check.explore(prog, pv, run, con)
        return out

    def nothing(m, mo):
        return []

    def post_wait(what):
        def after(m, mo):
            e, s = mo.entry, mo.state()
            gone = z3.And(s["lo"] >= e["hi"], z3.Or(z3.Not(s["busy"]), s["lo"] - 1 >= e["hi"]))
            mo.pv.prove(m, mo.lab + ": at the return, no operation queued before the call is queued or running (%s)" % what, z3.Or(s["quit_"], gone))
            if not mo.drops:
                mo.pv.cover(mo.lab + ": returns")
        return after

    def b_dispatch(m, mo):
        mo.op = NativeFn(lambda *a: None, "the caller's operation")
        return [Cell(mo.op)]

    def a_dispatch(m, mo):
        s = mo.state()
        if not mo.pushed:
            mo.pv.prove(m, mo.lab + ": an operation is left out only once the queue is being destroyed", s["quit_"])
            return
        if len(mo.pushed) != 1 or mo.pushed[0][0] is not mo.op:
            mo.fail(m, "the caller's operation is queued exactly once (queued %d)" % len(mo.pushed))
            return
        mo.ok("the caller's operation is queued exactly once, after those queued before")
        mo.pv.cover(mo.lab + ": worker started" if mo.launched else mo.lab + ": worker exists")

    def b_worker(m, mo):
        m.path.assume(B(mo.worker))
        m.path.assume(z3.Not(B(mo.busy)))
        m.path.assume(mo.state()["isStarted_"])
        mo.busy = z3.BoolVal(False)
        return []

    def a_worker(m, mo):
        mo.pv.prove(m, mo.lab + ": the worker ends only when told to quit", mo.state()["quit_"])
        mo.pv.cover("worker ends")

    def b_dtor(m, mo):
        m.path.assume(z3.Not(mo.state()["quit_"]))
        return []

    def a_dtor(m, mo):
        mo.pv.prove(m, mo.lab + ": no worker is left", z3.Not(B(mo.worker)))
        mo.pv.cover("destroyed, worker joined" if mo.alone else "destroyed, never used")
    ROLES = [("finish", "client", nothing, post_wait("every one has run or was dropped"), False),
             ("dump", "client", nothing, post_wait("every one has run or was dropped"), True),
             ("dispatch", "client", b_dispatch, a_dispatch, False),
             ("dispatch_thread_handler", "worker", b_worker, a_worker, False),
             ("~DispatchQueue", "destructor", b_dtor, a_dtor, True)]

    def predicates():
        got, keys = [], set()
        for name, role, b, a, d in ROLES:
            pv = check.Prover()
            for p in run_role(pv, name, role, None, b, lambda m, mo: None, d):
                got.append(p)
        # the closures belong to objects of the collecting runs: rebind by re-evaluating on the current object
        return got

    raw = []
    try:
        raw = predicates()
    except (I.Unsupported, I.NullDeref) as e:
        raw = e

    def task(name, role, b, a, d):
        def fn(pv):
            if isinstance(raw, Exception):
                raise I.Unsupported("the waits could not be collected: %s" % raw)
            seen, preds = set(), []
            for cv, r, p in raw:
                k = (cv, r, p[1].get("id"))
                if k not in seen:
                    seen.add(k)
                    preds.append((cv, r, p))
            if not preds:
                raise I.Unsupported("no wait found")
            run_role(pv, name, role, preds, b, a, d)
        C.task("DispatchQueue " + name, fn, [Q + "::" + name])
    for r in ROLES:
        task(*r)

    def ctor(pv):
        """a new queue: nothing queued, reported finished, no worker"""
        def run(m):
            mo = M(pv, "constructor", "destructor", [])
            mo.setup(m, Q, flds, qname, sync)
            machine(m, mo)
            mo.alone = True
            m.path.pc, m.path.new = [], []
            for n in mo.flags:
                mo.obj.f[n].v = I.UNINIT
            mo.obj.f[qname].v = mon.Queue(mo, z3.IntVal(0), z3.IntVal(0))
            mo.busy = mo.worker = z3.BoolVal(False)
            c = m.find_ctor(Q, "void ()")
            tmp = Obj(Q)
            m.default_fields(tmp, Q)
            for d in [d for tu in prog.tus for d in (tu.records.get(Q) or {}).get("inner", ()) if d.get("hasInClassInitializer")]:
                mo.obj.f[d["name"]].v = tmp.f[d["name"]].get()
            m.run_ctor(mo.obj, c, [], I.Frame({}, mo.obj, c), [])
            if mo.q().lo is None:
                mo.obj.f[qname].v = mon.Queue(mo, z3.IntVal(0), z3.IntVal(0))
            for n in mo.flags:
                if not isinstance(mo.obj.f[n].v, (bool, int, z3.BoolRef)):
                    mo.fail(m, "%s is left uninitialised" % n)
                    raise I.PathEnd()
            for n, f in mo.inv(mo.state()):
                pv.prove(m, "constructor: invariant established: " + n, f)
            pv.prove(m, "constructor: the queue accepts work", z3.Not(mo.state()["quit_"]))
        check.explore(prog, pv, run)
    C.task("DispatchQueue constructor", ctor, [Q + "::DispatchQueue"])
    engine(cfg)


def engine(cfg):
    """QEngineCPU: work goes to the queue, or runs after everything queued has finished; Finish and Dump are the queue's"""
    prog = astload.Program(ENGINE, cfg)
    E = "Qrack::QEngineCPU"

    def con(log):
        def c(name):
            def f(m, obj, refs, n):
                log.append((name, obj, [r.get() if isinstance(r, I.Ref) else r for r in refs]))
                return None
            return f
        return {Q + "::finish": c("finish"), Q + "::dump": c("dump"), Q + "::dispatch": c("dispatch"),
                E + "::GetStride": lambda m, o, r, n: z3.BitVec("stride", 64), "Qrack::ParallelFor::GetStride": lambda m, o, r, n: z3.BitVec("stride", 64),
                "Qrack::ParallelFor::GetPreferredConcurrencyPower": lambda m, o, r, n: z3.BitVec("power", 8),
                Q + "::isFinished": lambda m, o, r, n: z3.Bool("fin")}

    def obj():
        q = Obj(Q, {})
        return Obj(E, {"dispatchQueue": Cell(q)}), q

    def simple(name, want):
        df = prog.func(E + "::" + name)[0]

        def fn(pv):
            log = []

            def run(m):
                del log[:]
                o, q = obj()
                r = m.call_def(df, [], o)
                if name == "isFinished":
                    pv.prove(m, "QEngineCPU isFinished: what the queue reports", B(r) == z3.Bool("fin"))
                    return
                ok = [x[0] for x in log] == [want] and log[0][1] is q
                pv.obls.append(check.Obl("QEngineCPU %s is the queue's %s" % (name, want), "discharged" if ok else "refuted", "execution", 0, None if ok else [x[0] for x in log]))
            check.explore(prog, pv, run, con(log))
        C.task("QEngineCPU " + name, fn, [E + "::" + name])
    simple("Finish", "finish")
    simple("Dump", "dump")
    simple("isFinished", None)
    df = prog.func(E + "::Dispatch")[0]

    def disp(pv):
        log = []

        def run(m):
            del log[:]
            m.path.assume(z3.ULT(z3.BitVec("power", 8), 64))
            o, q = obj()
            op = NativeFn(lambda *a: log.append(("run", None, [])), "operation")
            m.call_def(df, [z3.BitVec("count", 64), Cell(op)], o)
            seq = [x[0] for x in log]
            if seq == ["dispatch"]:
                ok = log[0][1] is q and log[0][2][0] is op
                pv.cover("queued")
            else:
                # run at once: only after everything queued before has finished
                ok = seq in (["finish", "run"], ["finish", "finish", "run"]) and log[0][1] is q
                pv.cover("run at once")
            if not ok and m.path.sat():
                pv.fail("QEngineCPU Dispatch: the operation is queued once, or run once after the queue has finished", "does %s" % seq)
            else:
                pv.obls.append(check.Obl("QEngineCPU Dispatch: the operation is queued once, or run once after the queue has finished", "discharged", "execution", 0))
        check.explore(prog, pv, run, con(log))
    C.task("QEngineCPU Dispatch", disp, [E + "::Dispatch"])


C.assumptions = [
    "std::mutex, std::condition_variable (with spurious wake-ups), std::queue and std::async / std::future behave as the C++ standard says",
    "operations do not throw and do not call back into the queue that runs them; dispatched operations end",
    "no call on a queue overlaps its destructor; the flag isFinished() is read without the lock and is only a hint while calls overlap",
    "sequentially consistent view of data handed over under the mutex (data-race freedom of the protected fields is proved; of what operations touch it is not)",
    "termination: with every wait's notification proved, a finish() returns because the worker takes operations while the queue is not empty; fairness of the scheduler is assumed",
]
C.standins = ["random schedules of dispatch, finish, dump, sleeps and destruction on the real class with operations of random length: order, exclusivity, completion, no late run, no hang (bounded)"]

if __name__ == "__main__":
    C.run(prepare)
