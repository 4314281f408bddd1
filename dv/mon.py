"""Monitor proofs: a class whose state is protected by one mutex, with condition variables and a queue of work, under contract for
every schedule and any number of clients.

The invariant over the protected state holds whenever the mutex is free.  Taking the mutex havocs the protected state to any value
that satisfies the invariant and the rely of the role; releasing it proves the invariant.  A wait releases and takes it again.
Whenever a critical section makes the predicate of a wait (collected from the code's own wait calls) true, the matching condition
variable must be notified before the thread blocks, runs an operation, or returns (no lost wake-up)."""
import z3
from . import interp as I
from .interp import Cell, Obj, Ptr, NativeFn, FnRef
from .astload import params_of


class Guard(Cell):
    """one protected field"""
    def __init__(self, mon, name, v):
        Cell.__init__(self, v)
        self.mon, self.name = mon, name

    def get(self):
        self.mon.access(self.name, "read")
        return self.v

    def set(self, v):
        self.mon.access(self.name, "written")
        if isinstance(v, Queue) and self.v is not v:
            v = self.mon.replace_queue(self.v, v)
        elif isinstance(self.v, Queue) and not isinstance(v, Queue):
            raise I.Unsupported("queue assigned from %s" % type(v).__name__)
        self.v = v


class Queue:
    """std::queue holding the operations numbered [lo, hi) in the order they were dispatched; lo None: an empty local queue"""
    def __init__(self, mon, lo=None, hi=None):
        self.mon, self.lo, self.hi = mon, lo, hi

    def clone(self):
        return self

    def empty(self):
        return True if self.lo is None else I.simp(self.lo == self.hi)

    def lib_operator(self, m, name, refs, v):
        raise I.Unsupported("%s on a queue" % name)

    def lib_method(self, m, name, args, fr, n):
        mon = self.mon
        mine = mon.q() is self
        if name == "empty":
            return self.empty()
        if name == "size":
            if self.lo is None:
                return z3.BitVecVal(0, 64)
            s = z3.BitVec(m.path.fresh("qsize"), 64)
            m.path.assume((s == 0) == (self.lo == self.hi))
            m.path.assume((s == 1) == (self.lo + 1 == self.hi))
            return s
        if name in ("push", "emplace"):
            if not mine:
                raise I.Unsupported("push on another queue")
            v = m.rv(args[0], fr)
            mon.push(m, v)
            return None
        if not mine:
            raise I.Unsupported("%s of another queue" % name)
        if name == "front":
            mon.pv.prove(m, mon.lab + ": the queue is not empty when its front is taken", self.lo < self.hi)
            lo = self.lo

            def get():
                mon.access("queue", "read")
                if not (self.lo is lo or (is_(self.lo == lo))):
                    mon.fail(m, "an operation is read from the queue after it was removed")
                return mon.token(lo)
            return FnRef(get)
        if name == "pop":
            mon.pv.prove(m, mon.lab + ": the queue is not empty when it is popped", self.lo < self.hi)
            mon.pop(m, self)
            return None
        if name == "swap":
            r = m.lv(args[0], fr)
            o = r.get()
            cell = mon.obj.f[mon.qname]
            cell.set(o)
            r.set(Queue(mon))
            return None
        raise I.Unsupported("queue::%s" % name)


def is_(c):
    return I.simp(c) is True


class Lock:
    """unique_lock / lock_guard on the monitor's mutex"""
    def __init__(self, mon, m, owns=True):
        self.mon, self.m, self.owns = mon, m, owns
        if owns:
            mon.acquire(m)

    def clone(self):
        return self

    def scope_exit(self):
        if self.owns:
            self.owns = False
            self.mon.release(self.m)

    def lib_method(self, m, name, args, fr, n):
        if name == "lock":
            self.owns = True
            return self.mon.acquire(m)
        if name == "unlock":
            if not self.owns:
                self.mon.fail(m, "unlock of a lock that is not held")
            self.owns = False
            return self.mon.release(m)
        if name in ("owns_lock", "operator bool"):
            return self.owns
        raise I.Unsupported("lock::%s" % name)


class Mutex:
    def __init__(self, mon):
        self.mon = mon

    def clone(self):
        return self

    def lib_method(self, m, name, args, fr, n):
        if name == "lock":
            return self.mon.acquire(m)
        if name == "unlock":
            return self.mon.release(m)
        raise I.Unsupported("mutex::%s" % name)


class CV:
    def __init__(self, mon, name):
        self.mon, self.name = mon, name

    def clone(self):
        return self

    def lib_method(self, m, name, args, fr, n):
        mon = self.mon
        if name in ("notify_one", "notify_all"):
            return mon.notify(m, self.name, name == "notify_all")
        if name == "wait":
            lock = m.rv(args[0], fr)
            if not isinstance(lock, Lock) or not lock.owns:
                mon.fail(m, "wait without the lock")
                raise I.PathEnd()
            if len(args) == 1:
                mon.waits_here = self.name
                return mon.wait(m)
            pred = m.rv(args[1], fr)
            if isinstance(pred, I.Closure):
                mon.register(m, self.name, ("closure", pred.node, pred.env))
            elif mon.collect:
                raise I.Unsupported("wait predicate")
            if not m.truth(m.call_value(pred, [])):
                mon.wait(m)
                m.path.assume(B(m.call_value(pred, [])))
            return None
        raise I.Unsupported("condition_variable::%s" % name)


class Future:
    def __init__(self, mon, live):
        self.mon, self.live = mon, live

    def clone(self):
        return self

    def lib_method(self, m, name, args, fr, n):
        if name == "valid":
            return self.live
        if name in ("get", "wait"):
            return self.mon.join(m)
        raise I.Unsupported("future::%s" % name)


def B(v):
    v = I.to_bool(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v


class Monitor:
    """Subclass gives: inv(state) -> [(name, formula)], rely(old, new) -> [formula], name of the queue field.
    state: dict field name -> term, with the ghosts lo, hi (queue), busy (an operation is taken and not finished), worker (a worker exists)"""
    def __init__(self, pv, lab, role, preds=None):
        self.pv, self.lab, self.role = pv, lab, role
        self.collect = preds is None
        self.preds = [] if preds is None else preds
        self.held = False
        self.alone = False
        self.peek = False
        self.pend = []            # [cv, formula]
        self.notified = {}
        self.pushed = []
        self.cur = None           # worker: number of the operation it has taken
        self.ran = False
        self.launched = False
        self.waits_here = None
        self.front_tok = {}

    def fail(self, m, what):
        if m.path.sat():
            self.pv.fail(self.lab + ": " + what, "on a reachable path")

    def ok(self, what):
        from .check import Obl
        self.pv.obls.append(Obl(self.lab + ": " + what, "discharged", "execution", 0))

    # ---- state
    def setup(self, m, cls, rec_fields, qname, sync):
        """rec_fields: {name: type}; sync: {name: kind} of the unprotected synchronisation objects"""
        self.m = m
        self.qname = qname
        f = {}
        self.flags = []
        for n, t in rec_fields.items():
            if n in sync:
                f[n] = Cell({"mutex": lambda: Mutex(self), "cv": lambda n=n: CV(self, n), "future": lambda: Future(self, False)}[sync[n]]())
            elif n == qname:
                f[n] = Guard(self, n, Queue(self))
            elif I.ctype(t)[0] == "bool":
                self.flags.append(n)
                f[n] = Guard(self, n, None)
            else:
                raise I.Unsupported("field %s of type %s" % (n, t))
        self.obj = Obj(cls, f)
        self.fresh_state(m)
        self.alone_ctor = False
        return self.obj

    def q(self):
        return self.obj.f[self.qname].v

    def fresh_state(self, m, busy=None, worker=None):
        for n in self.flags:
            self.obj.f[n].v = z3.Bool(m.path.fresh(n))
        lo, hi = z3.Int(m.path.fresh("lo")), z3.Int(m.path.fresh("hi"))
        self.obj.f[self.qname].v = Queue(self, lo, hi)
        self.busy = z3.Bool(m.path.fresh("busy")) if busy is None else busy
        self.worker = z3.Bool(m.path.fresh("worker")) if worker is None else worker
        st = self.state()
        for _, c in self.inv(st):
            m.path.assume(c)
        return st

    def state(self):
        st = {n: B(self.obj.f[n].v) for n in self.flags}
        q = self.q()
        st["lo"], st["hi"], st["busy"], st["worker"] = q.lo, q.hi, B(self.busy), B(self.worker)
        return st

    def havoc(self, m):
        old = self.state()
        b = None
        if self.role == "worker":
            b = self.busy
        if self.alone:
            return
        new = self.fresh_state(m, busy=b)
        for c in self.rely(old, new):
            m.path.assume(c)

    def access(self, name, how):
        if self.held or self.alone or self.peek:
            return
        if self.m.path.sat():
            self.pv.fail(self.lab + ": protected state is used only with the lock held", "%s %s without the lock" % (name, how))
        raise I.PathEnd()

    # ---- synchronisation
    def evalp(self, m):
        self.peek = True
        try:
            out = []
            for _, _, (k, node, env) in self.preds:
                if k == "closure":
                    out.append(B(m.call_value(I.Closure(node, env, self.obj), [])))
                else:
                    out.append(z3.Not(B(m.rv(node, I.Frame(env, self.obj, k)))))
            return out
        finally:
            self.peek = False

    def register(self, m, cv, pred):
        if self.collect:
            self.preds.append((cv, self.role, pred))

    def acquire(self, m):
        if self.held:
            self.fail(m, "the lock is taken again by the thread that holds it (deadlock)")
            raise I.PathEnd()
        self.havoc(m)
        self.held = True
        if self.cur is not None and self.ran:
            self.busy = z3.BoolVal(False)
            self.cur = None
        self.notified = {}
        if not self.collect:
            self.p0 = self.evalp(m)

    def close_section(self, m):
        """the protected state is about to become visible"""
        if not self.collect:
            for (cv, role, _), a, b in zip(self.preds, self.p0, self.evalp(m)):
                if role == self.role == "worker" or (self.role == "destructor" and role == "client"):
                    continue      # the one worker does not wait for itself; no client call overlaps the destructor
                if self.notified.get(cv, 0) < (2 if role == "client" else 1):
                    self.pend.append((cv, role, z3.And(z3.Not(a), b)))
        for n, c in self.inv(self.state()):
            self.pv.prove(m, self.lab + ": invariant kept: " + n, c)

    def release(self, m):
        if not self.held:
            self.fail(m, "unlock without the lock")
            raise I.PathEnd()
        self.close_section(m)
        self.held = False

    def notify(self, m, cv, every):
        self.notified[cv] = 2 if every else max(1, self.notified.get(cv, 0))
        self.pend = [x for x in self.pend if not (x[0] == cv and (every or x[1] == "worker"))]

    def blocked(self, m, where):
        for cv, role, c in self.pend:
            self.pv.prove(m, self.lab + ": %s is notified, before %s, when what is waited for has become true" % (cv, where), z3.Not(c))
        self.pend = []

    def idle(self, m, where):
        """worker only: every operation taken has been run"""
        if self.cur is not None and not self.ran:
            self.fail(m, "an operation was taken from the queue and not run before %s" % where)
            raise I.PathEnd()

    def wait(self, m):
        self.close_section(m)
        self.blocked(m, "a wait")
        self.idle(m, "a wait")
        self.held = False
        self.acquire(m)

    def join(self, m):
        if self.held:
            self.fail(m, "the worker is waited for with the lock held (deadlock)")
            raise I.PathEnd()
        if self.role != "destructor":
            raise I.Unsupported("future waited for outside the destructor")
        self.blocked(m, "the worker is waited for")
        self.pv.prove(m, self.lab + ": the worker has been told to quit before it is waited for", z3.Or(self.state()[self.quitname], z3.Not(self.state()["worker"])))
        self.havoc(m)
        self.busy = z3.BoolVal(False)
        self.worker = z3.BoolVal(False)
        self.alone = True

    # ---- work
    def token(self, i):
        k = str(i)
        if k not in self.front_tok:
            f = NativeFn(lambda *a: self.run_op(i), "operation")
            f.tok = i
            self.front_tok[k] = f
        return self.front_tok[k]

    def push(self, m, v):
        self.access("queue", "written")
        if self.role != "client":
            self.fail(m, "work is queued by the %s" % self.role)
            raise I.PathEnd()
        q = self.q()
        self.pushed.append((v, q.hi))
        self.obj.f[self.qname].v = Queue(self, q.lo, I.simp(q.hi + 1))

    def may_drop(self):
        return self.role == "destructor" or self.drops

    def pop(self, m, q):
        self.access("queue", "written")
        if self.role == "worker":
            self.idle(m, "the next one is taken")
            self.pv.prove(m, self.lab + ": only one operation is taken at a time", z3.Not(B(self.busy)))
            self.cur, self.ran = q.lo, False
            self.busy = z3.BoolVal(True)
        elif not self.may_drop():
            self.fail(m, "queued work is dropped")
            raise I.PathEnd()
        self.obj.f[self.qname].v = Queue(self, I.simp(q.lo + 1), q.hi)

    def replace_queue(self, old, new):
        if new.lo is not None:
            raise I.Unsupported("queue replaced by one that is not known to be empty")
        if not self.may_drop():
            self.pv.prove(self.m, self.lab + ": queued work is not dropped", old.lo == old.hi)
        return Queue(self, old.hi, old.hi)

    def run_op(self, i):
        m = self.m
        if self.role != "worker":
            self.fail(m, "queued work is run by the %s" % self.role)
            raise I.PathEnd()
        if self.held:
            self.fail(m, "an operation is run with the lock held")
            raise I.PathEnd()
        if self.cur is None or self.ran:
            self.fail(m, "an operation is run that was not taken from the queue, or a second time")
            raise I.PathEnd()
        self.pv.prove(m, self.lab + ": the operation that runs is the one taken from the queue", self.cur == i)
        self.blocked(m, "an operation runs")
        self.ran = True
        self.pv.cover(self.lab + ": an operation is run")
        return None

    # ---- loops: head condition = (lock as at the entry, nothing taken, invariant), any number of iterations
    def loop(self, m, n, cond, inc, body, fr, post_test=False):
        if isinstance(body, dict) and assigns_local(body, fr):
            return NotImplemented
        held = self.held
        if held and isinstance(body, dict) and not mentions(body, {"wait", "lock", "unlock", "push", "emplace", "notify_one", "notify_all", "get", "operator()"}) and \
                not (cond is not None and mentions(cond, {"wait", "lock", "unlock"})):
            return self.inner_loop(m, n, cond, inc, body, fr, post_test)

        def head(first):
            if self.held != held:
                self.fail(m, "the lock is not in the same state at every iteration of a loop")
                raise I.PathEnd()
            self.idle(m, "the next iteration")
            if held:
                self.close_section(m)
                self.blocked(m, "the next iteration")
        head(True)
        self.ok("loop entered with the invariant")
        if held:
            if self.role == "worker" and self.cur is not None:
                raise I.Unsupported("loop with an operation taken")
            self.held = False
            self.acquire(m)
        if not post_test and cond is not None:
            self.waits_here = None
            c = m.rv(cond, fr)
            if not m.truth(c):
                return None
        r = m.ex(body, fr) if isinstance(body, dict) else body()
        if self.waits_here and cond is not None and self.collect:
            cv = self.waits_here
            self.preds.append((cv, self.role, (fr.node, cond, dict(fr.env))))
        self.waits_here = None
        if r == "brk":
            return None
        if isinstance(r, tuple):
            return r
        if inc is not None:
            m.ev(inc, fr)
        if post_test:
            if not m.truth(m.rv(cond, fr)):
                return None
        head(False)
        self.ok("loop iteration keeps the invariant")
        raise I.PathEnd()

    def inner_loop(self, m, n, cond, inc, body, fr, post_test):
        """a loop inside one critical section: only its own writes (fields assigned, operations popped) change the protected state"""
        q = self.q()
        if q.lo is not None and mentions(body, {"pop"}):
            if self.role == "worker":
                raise I.Unsupported("the worker pops in a loop")
            lo = z3.Int(m.path.fresh("lo"))
            m.path.assume(z3.And(lo >= q.lo, lo <= q.hi))
            self.obj.f[self.qname].v = Queue(self, lo, q.hi)
        for f in self.flags:
            if mentions(body, {f}):
                self.obj.f[f].v = z3.Bool(m.path.fresh(f))
        if not post_test and cond is not None and not m.truth(m.rv(cond, fr)):
            return None
        r = m.ex(body, fr)
        if r == "brk":
            return None
        if isinstance(r, tuple):
            return r
        if inc is not None:
            m.ev(inc, fr)
        if post_test and not m.truth(m.rv(cond, fr)):
            return None
        self.ok("loop inside a critical section")
        raise I.PathEnd()

    def finished(self, m):
        """at the return of a client function or of the worker"""
        if self.held:
            self.fail(m, "the lock is still held at the return")
            raise I.PathEnd()
        self.blocked(m, "the return")
        self.idle(m, "the return")


def assigns_local(n, fr, inside=None):
    """assignment in the loop to a local variable declared outside of it"""
    inside = set() if inside is None else inside
    k = n.get("kind")
    if k == "VarDecl":
        inside.add(n["id"])
    t = None
    if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and n.get("opcode") == "="):
        t = n["inner"][0]
    elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
        t = n["inner"][0]
    if t is not None:
        while t.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            t = t["inner"][0]
        if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] not in inside:
            return True
    return any(assigns_local(c, fr, inside) for c in n.get("inner", ()) if isinstance(c, dict))


def mentions(n, names):
    if n.get("name") in names or (n.get("referencedDecl") or {}).get("name") in names:
        return True
    return any(mentions(c, names) for c in n.get("inner", ()) if isinstance(c, dict))
