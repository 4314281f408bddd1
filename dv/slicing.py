"""Constraint independence: a query is decided by the part of the path condition that (transitively) shares symbols with it.
The path condition itself is satisfiable or undecided (every branch was checked), so this changes no answer."""
import z3

_vars = {}
_memo = {}
STAT = {"queries": 0, "hits": 0}


def vars_of(e):
    i = e.get_id()
    r = _vars.get(i)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        c = _vars.get(k)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    r = frozenset(out)
    _vars[i] = (e, r)
    return r


def relevant(pc, goal):
    need = set(vars_of(goal))
    rest = [(c, vars_of(c)) for c in pc]
    out = []
    go = True
    while go:
        go = False
        nxt = []
        for c, v in rest:
            if not v or v & need:
                out.append(c)
                if not v <= need:
                    need |= v
                    go = True
            else:
                nxt.append((c, v))
        rest = nxt
    return out


_bv = {}


def bvonly(e):
    """no reals, integers, arrays or quantifiers"""
    r = _bv.get(e.get_id())
    if r is not None:
        return r[1]
    ok, seen, todo = True, set(), [e]
    while todo and ok:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        c = _bv.get(k)
        if c is not None:
            ok = c[1]
            continue
        if not z3.is_app(x) or not (z3.is_bv(x) or z3.is_bool(x)):
            ok = False
        else:
            todo.extend(x.children())
    _bv[e.get_id()] = (e, ok)
    return ok


TACT = z3.Then("simplify", "propagate-values", "ackermannize_bv", "simplify", "bit-blast", "sat")


def query(pc, c, timeout):
    rel = relevant(pc, c)
    key = frozenset([x.get_id() for x in rel] + [-c.get_id() - 1])
    STAT["queries"] += 1
    h = _memo.get(key)
    if h is not None:
        STAT["hits"] += 1
        return h[0]
    s = TACT.solver() if TACT is not None and all(bvonly(x) for x in rel) and bvonly(c) else z3.Solver()
    s.set("timeout", timeout)
    s.add(*rel)
    s.add(c)
    r = s.check()
    _memo[key] = (r, rel, c)
    return r
