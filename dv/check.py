"""Driver shared by all checks: runs proof tasks (one per function under contract) in parallel, builds the real code for
counterexample replay / bounded stand-ins, decides the exit status and writes the evidence file."""
import os, sys, time, json, subprocess, tempfile, shutil, traceback, signal, hashlib, threading
import multiprocessing as mp
import z3
from . import interp as I, slicing
from .real import R, Cx, toR, delin, zlin, axioms as real_axioms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DV_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Scratch:
    """Configures the project (real CMake) and builds the library from /repo's working tree outside /repo."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dv_")
        self.cfg = None
        self.lib = None
        self.err = None

    def configure(self, extra=()):
        b = os.path.join(self.dir, "b")
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        gen = ["-G", "Ninja"] if shutil.which("ninja") else []
        p = subprocess.run(["cmake", "-S", REPO, "-B", b] + gen + ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS=-O1 -g0",
                            "-DENABLE_OPENCL=OFF", "-DENABLE_CUDA=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"] + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if p.returncode:
            raise RuntimeError("cmake failed: " + p.stdout.decode()[-800:])
        self.cfg = os.path.join(b, "include")
        return self.cfg

    def build(self, target="qrack"):
        b = os.path.join(self.dir, "b")
        p = subprocess.run(["cmake", "--build", b, "--target", target, "-j", "8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            self.err = p.stdout.decode()[-3000:]
            raise RuntimeError("library build failed: " + self.err)
        self.lib = os.path.join(b, "libqrack.a")
        return self.lib

    def compile(self, src, out=None, extra=(), opt="-O1", link=True):
        out = out or os.path.join(self.dir, os.path.basename(src).rsplit(".", 1)[0])
        cmd = ["g++", opt, "-g0", "-std=c++14", "-mrdrnd", "-w", "-DNDEBUG", "-DBOOST_AVAILABLE=1", "-DENABLE_RDRAND=1", "-fno-access-control",
               "-I" + REPO + "/include", "-I" + REPO + "/include/common", "-I" + self.cfg, "-I" + self.cfg + "/common",
               "-I" + os.path.join(VERIF, "replay"), src, "-o", out] + list(extra)
        if link:
            cmd += [self.lib, "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("harness build failed: " + p.stdout.decode()[-3000:])
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Obl:
    """Result of one proof obligation."""
    __slots__ = ("name", "status", "backend", "t", "detail")

    def __init__(self, name, status, backend, t, detail=None):
        self.name, self.status, self.backend, self.t, self.detail = name, status, backend, t, detail

    def js(self):
        return {"name": self.name, "status": self.status, "backend": self.backend, "s": round(self.t, 4), "detail": self.detail}


class Prover:
    """Collects and discharges the obligations of one proof task."""
    def __init__(self, timeout_ms=60000):
        self.obls = []
        self.timeout = timeout_ms
        self.covers = {}
        self.paths = 0
        self.functions = {}

    def model_str(self, mdl, limit=40):
        out = {}
        for d in mdl.decls()[:limit]:
            try:
                out[d.name()] = str(mdl[d])
            except Exception:
                pass
        return out

    def prove(self, m, name, goal, hint=None):
        """The goal must follow from the path condition of machine m."""
        t = time.time()
        goal = I.simp(goal)
        if goal is True:
            self.obls.append(Obl(name, "discharged", "simplifier", time.time() - t))
            return True
        if goal is False and not m.path.pc:
            self.obls.append(Obl(name, "refuted", "simplifier", time.time() - t, hint))
            return False
        g = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        if slicing.query(m.path.pc, z3.Not(g), self.timeout) == z3.unsat:
            self.obls.append(Obl(name, "discharged", "z3", time.time() - t))
            return True
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*m.path.pc)
        s.add(z3.Not(g))
        r = s.check()
        be = "z3"
        if r == z3.unknown:
            r2 = cvc5_check(s, self.timeout)
            if r2 is not None:
                r, be = r2, "cvc5"
        if r == z3.unsat:
            self.obls.append(Obl(name, "discharged", be, time.time() - t))
            return True
        dl = delin(list(m.path.pc) + [z3.Not(g)]) if r == z3.sat else None
        if dl is not None:
            s = z3.Solver()
            s.set("timeout", self.timeout)
            ax = set()
            for e in dl:
                ax |= slicing.vars_of(e)
            s.add(*dl)
            s.add(*real_axioms(ax))
            r = s.check()
            if r == z3.unsat:
                self.obls.append(Obl(name, "discharged", "z3", time.time() - t))
                return True
        if r == z3.sat:
            mdl = self.model_str(s.model()) if be == "z3" else {}
            self.obls.append(Obl(name, "refuted", be, time.time() - t, {"model": mdl, "hint": hint}))
            return False
        self.obls.append(Obl(name, "undecided", be, time.time() - t, {"reason": s.reason_unknown(), "hint": hint}))
        return None

    def prove_eq_real(self, m, name, a, b, hint=None):
        """Polynomial identity a == b (ring normal form first, then the solver under the path condition)."""
        t = time.time()
        d = toR(a) - toR(b)
        if not d.t:
            self.obls.append(Obl(name, "discharged", "ring", time.time() - t))
            return True
        eqs = path_values(m.path.pc)
        if eqs:
            try:
                d2 = d.subst(eqs)
            except ZeroDivisionError:
                d2 = d
            if not d2.t:
                self.obls.append(Obl(name, "discharged", "ring", time.time() - t))
                return True
            d = d2
        if getattr(m.std, "lin", False):
            return self.prove(m, name, zlin(d) == 0, hint or ("difference %r" % (d,))[:400])
        for c in real_axioms(d.atoms()):
            m.path.assume(c)
        return self.prove(m, name, d.z3() == 0, hint or ("difference %r" % (d,))[:400])

    def prove_eq_cx(self, m, name, a, b, hint=None):
        x = self.prove_eq_real(m, name + ".re", a.re, b.re, hint)
        y = self.prove_eq_real(m, name + ".im", a.im, b.im, hint)
        return x and y

    def fail(self, name, detail):
        self.obls.append(Obl(name, "refuted", "execution", 0, detail))

    def unsupported(self, name, why):
        self.obls.append(Obl(name, "unsupported", "-", 0, why))

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def merge_calls(self, m):
        for q, n in m.calls.items():
            self.functions[q] = self.functions.get(q, 0) + n


def path_values(pc):
    """real atoms the path condition equates with a constant"""
    out = {}
    todo = list(pc)
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo.extend(c.children())
        elif z3.is_eq(c):
            x, y = c.children()
            if z3.is_rational_value(x):
                x, y = y, x
            if z3.is_const(x) and z3.is_real(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_rational_value(y):
                out[x.decl().name()] = R.const(y.as_fraction())
            elif z3.is_real(x):
                # one linear atom
                v = slicing.vars_of(c)
                if len(v) == 1:
                    (n,) = v
                    a = z3.Real(n)
                    f = lambda t: z3.simplify(z3.substitute(x - y, (a, z3.RealVal(t))))
                    k = [f(t) for t in (0, 1, 2)]
                    if all(z3.is_rational_value(t) for t in k):
                        k = [t.as_fraction() for t in k]
                        if k[2] - k[1] == k[1] - k[0] != 0:
                            out[n] = R.const(-k[0] / (k[1] - k[0]))
    return out


def cvc5_check(s, timeout):
    try:
        import cvc5
    except Exception:
        return None
    try:
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        sv = cvc5.Solver(tm)
        sv.setOption("tlimit-per", str(timeout))
        p = cvc5.InputParser(sv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(sv, sm).strip()
            if o in ("unsat", "sat", "unknown"):
                res = o
        return {"unsat": z3.unsat, "sat": z3.sat}.get(res)
    except Exception:
        return None


def explore(prog, pv, run, contracts=None, max_paths=4000, setup=None, path_timeout=20000):
    """Runs run(machine) on every feasible path. run raises CppThrow etc. for the contract to interpret itself."""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        path = I.Path(dec, path_timeout)
        m = I.Machine(prog, contracts, path=path)
        if setup:
            setup(m)
        try:
            run(m)
        except I.PathEnd:
            pass
        finally:
            pv.merge_calls(m)
        work.extend(path.alts)
        n += 1
        if n > max_paths:
            raise I.TooMany("more than %d paths" % max_paths)
    pv.paths += n
    return n


class Task:
    def __init__(self, name, fn, funcs=(), fallback=None):
        self.name, self.fn, self.funcs, self.fallback = name, fn, funcs, fallback


def _run_task(task, q, timeout):
    pv = Prover()
    t0 = time.time()
    err = None

    class Alarm(Exception):
        pass

    def onalarm(*a):
        raise Alarm()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        task.fn(pv)
    except Alarm:
        pv.unsupported(task.name, "time limit of %d s for this proof task" % timeout)
    except I.Unsupported as e:
        pv.unsupported(task.name, "outside the verifier's reach: %s" % e)
    except (I.NullDeref, I.DivZero, I.OutOfBounds, I.UndefinedShift) as e:
        pv.obls.append(Obl(task.name + ": no undefined behaviour", "refuted", "execution", 0, "%s: %s" % (type(e).__name__, e)))
    except I.CppThrow as e:
        pv.obls.append(Obl(task.name + ": no unexpected exception", "refuted", "execution", 0, "throws %s" % e.tname))
    except RecursionError:
        pv.unsupported(task.name, "recursion depth")
    except Exception as e:
        pv.unsupported(task.name, "verifier error: %s: %s at %s" % (type(e).__name__, e, traceback.format_exc()[-700:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        q.put((task.name, [o.js() for o in pv.obls], pv.covers, pv.paths, pv.functions, time.time() - t0))
    except Exception:
        os._exit(3)


def run_tasks(tasks, jobs=8, timeout=300, until=None):
    """Each task in its own process (forked: the loaded program is shared).  Nothing runs past the time `until`; what is left
    then counts as not decided."""
    results = {}
    pend = list(tasks)
    live = {}
    ctx = mp.get_context("fork")
    while pend or live:
        while pend and len(live) < jobs:
            t = pend.pop(0)
            left = timeout if until is None else min(timeout, until - time.time())
            if left < 1:
                results[t.name] = (t.name, [Obl(t.name, "unsupported", "-", 0, "time limit of the whole check").js()], {}, 0, {}, 0)
                continue
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_run_task, args=(t, q, int(left)))
            p.start()
            live[p] = (t, q, time.time())
        for p, (t, q, ts) in list(live.items()):
            if not q.empty():
                results[t.name] = q.get()
                p.join(10)
                if p.is_alive():
                    p.kill()
                del live[p]
            elif not p.is_alive():
                if not q.empty():
                    continue
                results[t.name] = (t.name, [Obl(t.name, "unsupported", "-", 0, "proof process ended (%s)" % p.exitcode).js()], {}, 0, {}, time.time() - ts)
                del live[p]
            elif time.time() - ts > timeout + 30 or (until is not None and time.time() > until + 15):
                p.kill()
                results[t.name] = (t.name, [Obl(t.name, "unsupported", "-", 0, "time limit (hard)").js()], {}, 0, {}, time.time() - ts)
                del live[p]
        time.sleep(0.005)
    return results


class Check:
    def __init__(self, pid, level="proof"):
        self.start = time.time()
        self.pid = pid
        self.level = level
        self.tasks = []
        self.assumptions = []
        self.trusted = ["clang 18 front end (the AST of the compiled source is what is interpreted)",
                        "/verif/dv symbolic interpreter and its C++ standard library contracts (dv/stdmodel.py)",
                        "z3 (python bindings %s)" % z3.get_version_string(), "polynomial normaliser dv/real.py"]
        self.scratch = Scratch()
        self.harness = None        # (source file, args builder)
        self.standins = []         # descriptions of bounded stand-ins
        self.min_obls = 1
        self.known = load_known(pid)
        self.required = []
        self.extra_cov = {}
        self.notes = []
        self.harness_time = {"quick": 25, "thorough": 240}
        self.proof_timeout = {"quick": 300, "thorough": 1800}
        self.harness_extra = ()
        self.builder = None        # builds the harness without the whole library
        self.harness_args = []

    def task(self, name, fn, funcs=()):
        self.tasks.append(Task(name, fn, funcs))

    def run(self, prepare):
        """prepare(cfgdir) loads the program and registers tasks."""
        try:
            rc = self._run(prepare)
        except Exception:
            traceback.print_exc()
            rc = 2
        finally:
            self.scratch.close()
        sys.stdout.flush()
        os._exit(rc)

    def _run(self, prepare):
        cfg = self.scratch.configure()
        bres = {}

        def bg():
            try:
                if self.builder is not None:
                    bres["exe"] = self.builder(self.scratch)
                    return
                bres["lib"] = self.scratch.build()
                bres["exe"] = self.scratch.compile(os.path.join(VERIF, "replay", self.harness), extra=self.harness_extra)
            except Exception as e:
                bres["err"] = str(e)
        th = None
        if self.harness:
            th = threading.Thread(target=bg)
            th.start()
        prep_err = None
        try:
            prepare(cfg)
        except Exception as e:
            prep_err = "%s: %s" % (type(e).__name__, e)
            traceback.print_exc()
            self.tasks = []
        if th is not None:
            th.join()           # fork only once the build thread is gone
        log("%s: %d proof tasks; harness build: %s" % (self.pid, len(self.tasks), "ok" if "exe" in bres else bres.get("err", "none")))
        # a quick run has 900 s in all: keep time for the harness and for shrinking the input it finds
        res = run_tasks(self.tasks, 8, self.proof_timeout[TIER], self.start + 740 if TIER == "quick" else None)
        obls, covers, paths, functions = [], {}, 0, {}
        for t in self.tasks:
            name, os_, cv, ps, fs, dt = res[t.name]
            obls += [dict(o, task=t.name) for o in os_]
            for k, v in cv.items():
                covers[k] = covers.get(k, 0) + v
            paths += ps
            for k, v in fs.items():
                functions[k] = functions.get(k, 0) + v
            if not os_:
                obls.append({"name": t.name, "status": "unsupported", "backend": "-", "s": 0, "detail": "vacuous: no obligation generated", "task": t.name})
        if prep_err:
            obls.append({"name": "load", "status": "unsupported", "backend": "-", "s": 0, "detail": prep_err, "task": "load"})
        n = len(obls)
        good = [o for o in obls if o["status"] == "discharged"]
        ref = [o for o in obls if o["status"] == "refuted"]
        und = [o for o in obls if o["status"] in ("undecided", "unsupported")]
        log("%d obligations, %d discharged, %d refuted, %d undecided/unsupported, %d paths" % (n, len(good), len(ref), len(und), paths))
        for o in (ref + und)[:40]:
            log("   ", o["status"], o["task"], "|", o["name"], "|", str(o["detail"])[:300])
        # bounded stand-in / replay on the real code
        hfail, hcov, hknown = None, {}, []
        if self.harness and "exe" in bres:
            hfail, hcov, hknown = self.run_harness(bres["exe"], ref, und)
            log("harness:", json.dumps(hcov)[:600])
        elif self.harness:
            log("harness not built: %s" % bres.get("err", "")[-1500:])
        viol = []
        known_hit = set()
        if hfail:
            viol.append(("input", hfail))
        elif ref:
            # filter refuted obligations that a recorded finding explains
            left = []
            for o in ref:
                k = next((k for k in self.known if k["kind"] == "obligation" and k["match"] in (o["task"] + " | " + o["name"])), None)
                if k:
                    known_hit.add(k["what"])
                else:
                    left.append(o)
            if left:
                viol.append(("obligation", left))
        for k in hknown:
            known_hit.add(k)
        rc = 0
        for w in sorted(known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        if self.harness and "exe" not in bres and not viol:
            print("ERROR: replay harness could not be built: %s" % bres.get("err", "")[-1500:])
            rc = 2
        if viol:
            rc = 1
            rp = self.write_replay(viol, ref, und)
            tail = "" if viol[0][0] == "input" else " no-failing-input-found"
            for kind, w in viol[:1]:
                if kind == "obligation":
                    for o in w[:5]:
                        print("failed obligation: %s | %s | %s" % (o["task"], o["name"], str(o["detail"])[:500]))
                else:
                    print("failing input: %s" % w)
            print("VIOLATION property=%s replay=%s%s" % (self.pid, rp, tail))
        self.evidence(obls, good, ref, und, paths, functions, covers, hcov, rc, [t for t in res])
        log("exit", rc)
        return rc

    def run_harness(self, exe, ref, und):
        """Harness protocol: exe search SEED SECONDS [focus words...] ; prints 'FAIL <case>' lines, 'KNOWN <what>' lines and one
        'COV {json}' line."""
        secs = self.harness_time[TIER]
        focus = sorted({o["task"].split()[0].split("(")[0] for o in ref + und})
        cmd = [exe, "search", str(SEED), str(secs)] + list(self.harness_args) + (["focus=" + ",".join(focus)] if focus else []) + (["hunt=1"] if ref else [])
        env = dict(os.environ)
        for k in self.known:
            if k["kind"] == "input":
                env["KNOWN_CASES"] = env.get("KNOWN_CASES", "") + k["match"] + ";"
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs * 4 + 120, env=env)
            out = p.stdout.decode("utf-8", "replace")
            code = p.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode("utf-8", "replace")
            code = -99
        fail = None
        cov, known = {}, []
        last = ""
        for line in out.splitlines():
            if line.startswith("FAIL ") and fail is None:
                fail = line[5:]
            elif line.startswith("COV "):
                try:
                    cov.update(json.loads(line[4:]))
                except ValueError:
                    pass
            elif line.startswith("KNOWN "):
                known.append(line[6:])
            elif line.startswith("CASE "):
                last = line[5:]
        known_what = []
        for k in known:
            w = next((x["what"] for x in self.known if x["kind"] == "input" and x["match"] == k), None)
            if w:
                known_what.append(w)
        if fail is None and code not in (0,):
            fail = "the real code did not survive the run (exit status %s) after case: %s ; output tail: %s" % (code, last, out[-300:].replace("\n", " / "))
        self.hcmd = " ".join(cmd[1:])
        return fail, cov, known_what

    def write_replay(self, viol, ref, und):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.pid)
        json.dump({"property": self.pid, "kind": viol[0][0], "failing_input": viol[0][1] if viol[0][0] == "input" else None,
                   "harness": self.harness, "how": "build /verif/replay/%s against a library built from /repo (dv/check.py Scratch) and run it with: run \"<failing_input>\"" % self.harness,
                   "failed_obligations": ref[:50], "undecided": und[:50]}, open(p, "w"), indent=1, default=str)
        return p

    def evidence(self, obls, good, ref, und, paths, functions, covers, hcov, rc, tasks):
        be = {}
        st = 0.0
        for o in good:
            be[o["backend"]] = be.get(o["backend"], 0) + 1
        for o in obls:
            st += o["s"]
        cov = {"obligations": len(obls), "discharged": len(good), "refuted": len(ref), "undecided_or_unsupported": len(und),
               "checker_cmd": "python3-vt " + " ".join(sys.argv), "trusted_base": self.trusted,
               "by_back_end": be, "solver_s": round(st, 2), "paths_explored": paths,
               "functions_under_contract": sorted({f for t in self.tasks for f in t.funcs}),
               "repository_functions_interpreted": {k: v for k, v in sorted(functions.items(), key=lambda z: str(z[0])) if k},
               "reachability_covers": covers,
               "not_proved": [{"task": o["task"], "obligation": o["name"], "status": o["status"], "why": str(o["detail"])[:300]} for o in und][:100],
               "bounded_standins": {"labelled": "bounded, never counted as proved", "what": self.standins, "run": hcov}}
        cov.update(self.extra_cov)
        if self.level != "proof":
            cov.setdefault("explanation", "see bounded_standins")
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": 1 if rc == 1 else 0}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1, default=str)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k["property"] == pid:
                out.append(k)
    return out
