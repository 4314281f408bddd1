"""Loads the clang AST of the real /repo sources (one JSON dump per translation unit) and indexes it.

Nothing is dropped between the source text and the tree used here: the tree is clang's own, after semantic
analysis, with every implicit conversion explicit.  Declarations outside namespace Qrack (the C++ standard
library) are not dumped; calls to them are interpreted by the contracts in stdmodel.py.
"""
import json, os, subprocess, hashlib, time

REPO = os.environ.get("DV_REPO", "/repo")
CLANG = next((p for p in ("/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(p)), "clang++")


class ExtractionError(Exception):
    pass


def config_flags(cfgdir, extra=()):
    return ["-std=c++14", "-mrdrnd", "-DNDEBUG", "-DBOOST_AVAILABLE=1", "-DENABLE_RDRAND=1", "-DCPP_STD=14",
            "-I" + REPO + "/include", "-I" + cfgdir, "-I" + cfgdir + "/common", "-I" + REPO + "/include/common",
            "-w"] + list(extra)


SCOPES = {"NamespaceDecl", "CXXRecordDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl",
          "FunctionTemplateDecl", "LinkageSpecDecl", "EnumDecl", "ClassTemplatePartialSpecializationDecl"}
FUNCS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}
TRANSPARENT = ("ClassTemplateDecl", "FunctionTemplateDecl", "LinkageSpecDecl")


class TU:
    def __init__(self, path, cfgdir, filt="Qrack::", extra=(), ns="Qrack"):
        self.path = path
        t0 = time.time()
        src = path if os.path.isabs(path) else os.path.join(REPO, path)
        cmd = [CLANG] + config_flags(cfgdir, extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json"]
        if filt is not None:
            cmd += ["-Xclang", "-ast-dump-filter=" + filt]
        cmd.append(src)
        self.cmd = " ".join(cmd)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractionError("clang failed on %s: %s" % (path, p.stderr.decode()[:2000]))
        data = p.stdout.decode("utf-8", "replace")
        dec = json.JSONDecoder()
        i, n = 0, len(data)
        self.docs = []
        while i < n:
            while i < n and data[i] in " \r\n\t":
                i += 1
            if i >= n:
                break
            if data[i] != "{":
                j = data.find("\n", i)
                i = n if j < 0 else j + 1
                continue
            obj, i = dec.raw_decode(data, i)
            self.docs.append(obj)
        del data
        self.byid = {}       # decl id -> node
        self.parent = {}     # decl id -> enclosing scope decl id
        self.funcs = {}      # qualified name -> [nodes]
        self.qn = {}         # decl id -> qualified name
        self.records = {}    # qualified name -> definition node
        self.recid = {}      # record decl id -> qualified name
        self.vars = {}       # qualified name -> node (namespace scope / static members)
        self.enums = {}
        self.defn = {}       # decl id -> node of the definition (functions)
        self.bymangled = {}  # mangled name -> definition node
        self._file = None
        if filt is None:
            # the whole translation unit was dumped: keep what the project itself declares
            keep = []
            roots = (os.path.realpath(REPO) + "/", os.path.realpath(cfgdir) + "/", REPO + "/")
            for d in self.docs:
                for c in d.get("inner", ()):
                    self._loc(c)
                    f = self._file or ""
                    c["_f0"] = f
                    if f.startswith(roots):
                        keep.append(c)
                    else:
                        self._walk_loc(c)
            self.docs = keep
        for d in self.docs:
            if "_f0" in d:
                self._file = d.pop("_f0")
            self._index(d, [ns] if ns else [])
        self._link()
        self.load_s = time.time() - t0

    def _loc(self, n):
        """clang prints 'file' only when it changes: follow it in document order."""
        for part in (n.get("loc"), (n.get("range") or {}).get("begin"), (n.get("range") or {}).get("end")):
            if not part:
                continue
            for sub in ("spellingLoc", "expansionLoc"):
                s = part.get(sub)
                if s and "file" in s:
                    self._file = s["file"]
            if "file" in part:
                self._file = part["file"]

    def _walk_loc(self, n):
        self._loc(n)
        for c in n.get("inner", ()):
            self._walk_loc(c)

    def _index(self, n, scope, parent=None):
        k = n.get("kind")
        self._loc(n)
        if k is None:
            for c in n.get("inner", ()):
                self._index(c, scope, parent)
            return
        if k.endswith("Decl"):
            i = n["id"]
            pid = n.get("parentDeclContextId")
            pre = self.qn.get(pid) if pid else None
            name = n.get("name", "")
            q = (pre + "::" + name) if pre else "::".join(scope + [name])
            self.byid[i] = n
            n["_tu"] = self
            if pid:
                parent = pid
            if parent is not None:
                self.parent[i] = parent
            if k in FUNCS:
                n["_file"] = self._file
                n["_q"] = q
                self.qn[i] = q
                self.funcs.setdefault(q, []).append(n)
                for c in n.get("inner", ()):
                    self._index(c, q.split("::") + ["()"], i)
                return
            if k in SCOPES:
                if k in TRANSPARENT:
                    sc = q.split("::")[:-1]
                else:
                    self.qn[i] = q
                    sc = q.split("::") if name else scope
                if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                    self.recid[i] = q
                    if n.get("completeDefinition"):
                        if k == "ClassTemplateSpecializationDecl":
                            self.records.setdefault(q + "<>", n)
                        else:
                            self.records.setdefault(q, n)
                if k == "EnumDecl":
                    self.enums[q] = n
                for c in n.get("inner", ()):
                    self._index(c, sc, i)
                return
            if k == "VarDecl" and "()" not in scope:
                self.vars.setdefault(q, n)
                self.qn[i] = q
            for c in n.get("inner", ()):
                self._index(c, scope, i)
        else:
            if k == "MemberExpr" or k == "DeclRefExpr":
                n["_file"] = self._file
            for c in n.get("inner", ()):
                self._index(c, scope, parent)

    def _link(self):
        prev = {}
        for lst in self.funcs.values():
            for n in lst:
                if "previousDecl" in n:
                    prev[n["id"]] = n["previousDecl"]

        def root(i):
            while i in prev:
                i = prev[i]
            return i
        groups = {}
        for lst in self.funcs.values():
            for n in lst:
                groups.setdefault(root(n["id"]), []).append(n)
        for lst in groups.values():
            body = next((m for m in lst if has_body(m) or m.get("explicitlyDefaulted")), None)
            if body is not None:
                for m in lst:
                    self.defn[m["id"]] = body
                if "mangledName" in body:
                    self.bymangled.setdefault(body["mangledName"], body)
            m0 = next((m for m in lst if "virtual" in m), None)
            if m0 is not None:
                for m in lst:
                    m["virtual"] = True
            # default arguments live on the first declaration
            for m in lst:
                m["_group"] = lst


def has_body(n):
    return any(isinstance(c, dict) and c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", ()))


def body_of(n):
    for c in n.get("inner", ()):
        if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


def params_of(n):
    return [c for c in n.get("inner", ()) if c.get("kind") == "ParmVarDecl"]


def qtype(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


_src = {}


def source(path):
    if path not in _src:
        p = path if os.path.isabs(path) else os.path.join(REPO, path)
        try:
            _src[path] = open(p, "rb").read()
        except OSError:
            _src[path] = b""
    return _src[path]


def text_of(n):
    """Source text of an expression (used only to see whether a member call was written with a qualifier)."""
    r = n.get("range") or {}
    b, e = r.get("begin") or {}, r.get("end") or {}
    if "offset" not in b or "offset" not in e:
        return ""
    return source(n.get("_file") or "")[b["offset"]:e["offset"] + e.get("tokLen", 1)].decode("utf-8", "replace")


class Program:
    """A set of translation units; functions without a body in one TU are looked up in the others by mangled name."""
    def __init__(self, paths, cfgdir, **kw):
        from concurrent.futures import ThreadPoolExecutor
        self.cfgdir = cfgdir
        self.aux = None
        aux = kw.get("filt", "Qrack::") is not None
        jobs = [(p, kw) for p in paths] + ([("src/common/functions.cpp", {"filt": "bi_", "ns": ""})] if aux else [])
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda p: TU(p[0], cfgdir, **p[1]), jobs))
        self.aux = self.tus.pop() if aux else None
        self.bases = {}
        for tu in self.tus:
            for q, n in tu.records.items():
                self.bases.setdefault(q, [canon_class(b["type"].get("desugaredQualType", b["type"]["qualType"]))
                                          for b in n.get("bases", ())])

    def aux_func(self, name, call):
        """Repository function outside namespace Qrack (wide-integer helpers), by name and parameter types."""
        if self.aux is None:
            return None
        c = [f for f in self.aux.funcs.get(name, ()) if has_body(f)]
        if len(c) > 1 and call is not None:
            t = None
            x = call["inner"][0]
            while x.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                x = x["inner"][0]
            t = (x.get("referencedDecl") or {}).get("type", {}).get("qualType")
            c = [f for f in c if f["type"]["qualType"] == t] or c
        return c[0] if len(c) == 1 else None

    def find_def(self, node):
        tu = node["_tu"]
        d = tu.defn.get(node["id"])
        if d is not None:
            return d
        m = node.get("mangledName")
        if m:
            for t in self.tus:
                if m in t.bymangled:
                    return t.bymangled[m]
        return None

    def func(self, qname, nargs=None, sig=None):
        """The definition of a repository function by qualified name (and number of parameters / type text)."""
        out = []
        seen = set()
        for tu in self.tus:
            for n in tu.funcs.get(qname, ()):
                if not has_body(n):
                    continue
                if nargs is not None and len(params_of(n)) != nargs:
                    continue
                if sig is not None and sig not in n["type"]["qualType"]:
                    continue
                key = n.get("mangledName")
                if key in seen:
                    continue
                seen.add(key)
                out.append(n)
        return out

    def linear_bases(self, q):
        out = [q]
        for b in self.bases.get(q, ()):
            for c in self.linear_bases(b):
                if c not in out:
                    out.append(c)
        return out

    def is_sub(self, a, b):
        return b in self.linear_bases(a)


def canon_class(t):
    t = t.strip()
    for p in ("const ", "volatile ", "class ", "struct "):
        t = t.replace(p, "")
    t = t.replace("*", "").replace("&", "").strip()
    if not t.startswith("Qrack::") and "::" not in t and "<" not in t:
        t = "Qrack::" + t
    return t
