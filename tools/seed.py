"""Makes or re-validates planted bugs in a scratch copy (/tmp/seed/repo, built once with cmake into _build).
usage: python3 tools/seed.py SPEC.py        SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, needs, breaks)]
       python3 tools/seed.py --recheck ID   (re-runs an existing /verif/seeded/ID)"""
import json, os, subprocess, sys, shutil
R = "/tmp/seed/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build; builds the demonstration in a scratch folder it removes
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%sg++ -O1 -std=c++14 -mrdrnd -w -DNDEBUG -DBOOST_AVAILABLE=1 -DENABLE_RDRAND=1 %s-Iinclude -Iinclude/common -I_build/include -I_build/include/common "$here/demo.cpp" -o "$tmp/demo" %s-lpthread
timeout 200 "$tmp/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def build():
    r = sh("ninja -C _build unittest qrack qrack_pinvoke", cwd=R)
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


def tests():
    d = "/tmp/seed/tr"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("python3 /opt/vp/run_tests.py %s/_build/unittest %s/lines.txt" % (R, d))
    got = dict(reversed(l.strip().split(" ", 1)) for l in open(d + "/lines.txt"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["passed"] if "passed" in base else base["stable"]
    bad = [n for n in names if got.get(n) != "PASS"]
    shutil.rmtree(d, ignore_errors=True)
    return bad


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R)
    return r.returncode, r.stdout[-600:]


def clean():
    sh("git checkout -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=R)


def main():
    spec = {}
    only = sys.argv[2:]
    exec(open(sys.argv[1]).read(), spec)
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        clean()
        d = "/tmp/seed/x/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH % (b.get("pre", ""), b.get("flags", ""), b.get("lib", "_build/libqrack.a ")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if not build():
            print(b["id"], "BASE BUILD FAILED"); return
        rc, out = demo(d)
        print(b["id"], "base demo", rc, out[-300:] if rc else "", flush=True)
        if rc:
            continue
        ok = True
        for f, old, new in b["edits"]:
            s = open(R + "/" + f).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old[:80]); ok = False; break
            open(R + "/" + f, "w").write(s.replace(old, new))
        if not ok:
            continue
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
        if not build():
            print(b["id"], "build failed"); continue
        rc, out = demo(d)
        print(b["id"], "patched demo", rc, out[-200:], flush=True)
        if not rc:
            continue
        bad = tests()
        print(b["id"], "tests broken:", len(bad), bad[:4], flush=True)
        if bad:
            continue
        shutil.rmtree(V + "/seeded/" + b["id"], ignore_errors=True)
        shutil.copytree(d, V + "/seeded/" + b["id"])
        print(b["id"], "KEPT", flush=True)
    clean()


main()
