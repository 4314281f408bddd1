"""Loop contracts: a loop under contract is replaced by its invariant.

Three kinds of path are generated where the loop is reached: the invariant must hold on entry; starting from an arbitrary
state that satisfies the invariant (the listed locations are given fresh symbolic values) one execution of condition, body
and increment must re-establish it; and the code after the loop continues from an arbitrary state that satisfies the
invariant and not the condition.  No iteration bound is involved.
"""
import z3
from . import interp as I


class Env:
    """Access to the local variables of a frame by name (innermost declaration that is live)."""
    def __init__(self, m, fr):
        self.m, self.fr = m, fr
        self.ids = {}
        self._walk(fr.node)

    def _walk(self, n):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("VarDecl", "ParmVarDecl") and n.get("name"):
            self.ids.setdefault(n["name"], []).append(n["id"])
        for c in n.get("inner", ()):
            self._walk(c)

    def ref(self, name):
        for i in reversed(self.ids.get(name, [])):
            if i in self.fr.env:
                return self.fr.env[i]
        raise I.Unsupported("the contract names local variable %s, which the code does not have" % name)

    def range_index(self):
        """the hidden counter of a range-based loop over a symbolic container"""
        for k in self.fr.env:
            if isinstance(k, tuple) and k[0] == "range":
                return self.fr.env[k]
        raise I.Unsupported("no range-based loop")

    def get(self, name):
        r = self.ref(name)
        return r.get() if isinstance(r, I.Ref) else r

    def set(self, name, v):
        self.ref(name).set(v)


class LoopSpec:
    """fn: qualified name of the enclosing function; index: which loop of that function (by order of appearance), or a
    predicate on the loop node.  havoc(env): gives the locations the loop may write fresh values (returns a ghost state);
    inv(env, g): list of (name, formula).  counter: None, or a list of concrete values tried one after the other:
    havoc(env, k).  step(env, g): extra obligations after one iteration."""
    def __init__(self, fn, index, havoc, inv, step=None, counters=None, exit_extra=None, before=None, pre_body=None):
        self.fn, self.index, self.havoc, self.inv, self.step, self.counters, self.exit_extra = fn, index, havoc, inv, step, counters, exit_extra
        self.before, self.pre_body = before, pre_body


def loops_of(node):
    out = []

    def w(n):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            out.append(n)
        for c in n.get("inner", ()):
            w(c)
    for c in node.get("inner", ()):
        w(c)
    return out


def install(m, pv, specs, label=""):
    def hook(m, n, cond, inc, body, fr):
        q = fr.node.get("_q")
        for sp in specs:
            if sp.fn != q:
                continue
            if callable(sp.index):
                if not sp.index(n, fr):
                    continue
            else:
                ls = loops_of(fr.node)
                if sp.index >= len(ls) or ls[sp.index] is not n:
                    continue
            return run(m, pv, sp, n, cond, inc, body, fr, label)
        return NotImplemented
    m.loop_hook = hook


def run(m, pv, sp, n, cond, inc, body, fr, label):
    env = Env(m, fr)
    nm = "%s%s loop %s" % (label, sp.fn, sp.index if not callable(sp.index) else "")
    g0 = sp.before(env) if sp.before else None
    if sp.counters is None:
        for a, f in sp.inv(env, g0, None):
            pv.prove(m, "%s: %s holds on entry" % (nm, a), f)
        preserve = m.path.choose(2) == 0
        g = sp.havoc(env, g0, None)
        for a, f in sp.inv(env, g, None):
            m.path.assume(f)
        if cond is not None:
            c = I.to_bool(cond() if callable(cond) else m.rv(cond, fr))
        else:
            c = True
        if preserve:
            m.path.assume(c)
            if sp.pre_body:
                sp.pre_body(env, g)
            r = body() if callable(body) else m.ex(body, fr)
            if isinstance(r, tuple):
                return r
            if r == "brk":
                return None
            if inc is not None:
                inc() if callable(inc) else m.ev(inc, fr)
            if sp.step:
                for a, f in sp.step(env, g, None):
                    pv.prove(m, "%s: %s" % (nm, a), f)
            for a, f in sp.inv(env, g, "after"):
                pv.prove(m, "%s: %s is preserved" % (nm, a), f)
            pv.cover("%s%s: loop body" % (label, sp.fn))
            raise I.PathEnd()
        m.path.assume(z3.Not(c) if not isinstance(c, bool) else (not c))
        return None
    # concrete counter values: the loop runs over ks[0], ks[1], ... in order
    ks = list(sp.counters(env) if callable(sp.counters) else sp.counters)
    for a, f in sp.inv(env, g0, ks[0]):
        pv.prove(m, "%s: %s holds on entry" % (nm, a), f)
    w = m.path.choose(len(ks))
    last = w == len(ks) - 1
    k = ks[w]
    g = sp.havoc(env, g0, k)
    for a, f in sp.inv(env, g, k):
        m.path.assume(f)
    c = I.to_bool(m.rv(cond, fr)) if cond is not None else True
    if last:
        if c is not False:
            raise I.Unsupported("%s: the loop condition is not false after the last listed counter value" % nm)
        return None
    if c is not True:
        raise I.Unsupported("%s: the loop condition is not true at counter %s" % (nm, k))
    r = m.ex(body, fr)
    if isinstance(r, tuple):
        return r
    if r == "brk":
        return None
    if inc is not None:
        m.ev(inc, fr)
    if sp.step:
        for a, f in sp.step(env, g, k):
            pv.prove(m, "%s (%s): %s" % (nm, k, a), f)
    for a, f in sp.inv(env, g, ks[w + 1]):
        pv.prove(m, "%s (%s): %s is preserved" % (nm, k, a), f)
    raise I.PathEnd()
