// C13: the exported C functions on unknown, destroyed and live ids, with a model of the tables.  The library's own source file
// is compiled with checked containers and checked smart pointers, so that a read past a table or through null stops the process.
#define init init_in_header
#include "pinvoke_api.hpp"
#undef init
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static char buf[1 << 16] __attribute__((aligned(64)));
static void cbid(uintq) {}
static bool cbamp(size_t, double, double) { return false; }
template <class T> struct Def { static T v() { return T(); } };
template <class T> struct Def<T*> { static T* v() { return (T*)buf; } };
template <> struct Def<IdCallback> { static IdCallback v() { return cbid; } };
template <> struct Def<ProbAmpCallback> { static ProbAmpCallback v() { return cbamp; } };
template <> struct Def<uintq> { static uintq v() { return 1; } };
template <class T> static T arg(int i, int which, uintq id) { return Def<T>::v(); }
template <> uintq arg<uintq>(int i, int which, uintq id) { return i == which ? id : 1; }
template <class R, class... A, size_t... I> static void call2(R (*f)(A...), int which, uintq id, std::index_sequence<I...>) { (void)f(arg<A>((int)I, which, id)...); }
template <class R, class... A> static void callf(R (*f)(A...), int which, uintq id) { call2(f, which, id, std::index_sequence_for<A...>{}); }
struct Fn { const char* name; int which; char fam; void (*run)(uintq); };
#include "capi_table.hpp"

struct Sim { bool used; bool has; bool net; std::map<uintq, bool> q; std::vector<uintq> ord; };
static std::vector<Sim> sims;
static std::string why;
static uint64_t rs;
static uint64_t rnd(uint64_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (rs >> 11) % n : 0; }
static bool check(const std::string& after) {
    for (size_t i = 0; i < sims.size(); ++i) {
        if (!sims[i].has) continue;
        uintq n = num_qubits(i);
        if (n != sims[i].q.size()) { why = after + ": simulator " + std::to_string(i) + " has " + std::to_string(n) + " qubits, not " + std::to_string(sims[i].q.size()); return false; }
        for (auto& k : sims[i].q) {
            double p = Prob(i, k.first);
            if (!(p > (k.second ? 0.999 : -1e-3) && p < (k.second ? 1.001 : 1e-3))) { why = after + ": qubit " + std::to_string(k.first) + " of simulator " + std::to_string(i) + " reads " + std::to_string(p); return false; }
        }
    }
    return true;
}
static uintq mk(uintq n, bool sd) { return init_count_type(n, false, false, sd, false, false, false, false, false, false, false); }
static bool made(uintq id, const char* what, Sim s) {
    if (id > sims.size() || (id < sims.size() && sims[id].used)) { why = std::string(what) + " gave out id " + std::to_string(id) + " which is in use or out of order"; return false; }
    if (id == sims.size()) sims.push_back(s); else sims[id] = s;
    return true;
}
static Sim fresh(uintq n, bool net = false) { Sim s; s.used = true; s.net = net; s.has = n > 0; for (uintq i = 0; i < n; ++i) { s.q[i] = false; s.ord.push_back(i); } return s; }

// one call on an id without a simulator
static bool deadcall(const Fn& f, uintq id, bool unknown, const std::string& what) {
    for (size_t i = 0; i < sims.size(); ++i) if (sims[i].used) { get_error(i); break; }
    get_error(0);
    if (strcmp(f.name, "get_error") == 0) { int e = get_error(id); if (unknown && !e) { why = what + ": no error code"; return false; } return check(what); }
    f.run(id);
    if (unknown && strcmp(f.name, "random_choice")) { int e = get_error(0); if (e != 2) { why = what + ": the error was not reported"; return false; } }
    else get_error(0);
    return check(what);
}
// "call NAME ARG KIND": KIND is size, next, huge or destroyed
static bool callcase(const std::string& name, int which, const std::string& kind) {
    sims.clear();
    uintq a = mk(2, false), b = mk(1, true), c = mk(1, false), d = mk(2, false);
    X(a, 1); X(d, 0);
    if (!made(a, "init", fresh(2)) || !made(b, "init", fresh(1)) || !made(c, "init", fresh(1)) || !made(d, "init", fresh(2))) return false;
    sims[a].q[1] = true; sims[d].q[0] = true;
    uintq c0 = init_qcircuit(true, false), c1 = init_qcircuit(true, false); uintq ctrl[1] = { 0 };
    uintq n0 = init_qneuron(a, 1, ctrl, 1, 0, 1.0, 1e-6), n1 = init_qneuron(d, 1, ctrl, 1, 0, 1.0, 1e-6);
    destroy(c); sims[c].used = sims[c].has = false; destroy_qcircuit(c1); destroy_qneuron(n1);
    if (!check("setup")) return false;
    for (const Fn& f : TABLE) {
        if (name != f.name || which != f.which) continue;
        uintq size = f.fam == 's' ? sims.size() : 2, deadid = f.fam == 's' ? c : f.fam == 'n' ? n1 : c1;
        uintq id = kind == "size" ? size : kind == "next" ? size + 1 : kind == "huge" ? ~(uintq)0 : deadid;
        return deadcall(f, id, kind != "destroyed", name + " on a " + kind + " id");
    }
    return true;
}
static bool history(uint64_t seed) {
    rs = seed * 0x9E3779B97F4A7C15ULL + 1; for (int i = 0; i < 5; ++i) rnd(2);
    sims.clear(); uintq nextq = 100;
    int len = 3 + (int)rnd(25);
    for (int t = 0; t < len; ++t) {
        std::string what = "step " + std::to_string(t) + " ";
        uintq id = rnd(sims.size() + 2); bool in = id < sims.size(), live = in && sims[id].has;
        switch (rnd(12)) {
        case 0: case 1: { uintq n = rnd(4) ? 1 + rnd(2) : 0; what += "init"; bool net = !rnd(4); uintq r = net ? init_count(n, false) : mk(n, rnd(2)); if (!made(r, "init", fresh(n, net))) return false; break; }
        case 2: { what += "failing init"; uintq r = mk(100, false); if (!made(r, "failing init", fresh(0))) return false; if (get_error(r) == 0) { why = what + " without an error code"; return false; } break; }
        case 3: case 4: { what += "destroy " + std::to_string(id); destroy(id); if (in) { sims[id].used = sims[id].has = false; sims[id].q.clear(); sims[id].ord.clear(); } else if (get_error(0) != 2) { why = what + " not reported"; return false; } break; }
        case 5: { what += "clone " + std::to_string(id); get_error(0); uintq r = init_clone(id); if (!live) { if (get_error(0) != 2) { why = what + " of a dead id not reported"; return false; } break; } Sim s = sims[id]; s.q.clear(); s.ord.clear(); for (uintq i = 0; i < sims[id].ord.size(); ++i) { s.q[i] = sims[id].q[sims[id].ord[i]]; s.ord.push_back(i); } if (!made(r, "clone", s)) return false; break; }
        case 6: { if (in && sims[id].used && sims[id].net) break; what += "allocateQubit " + std::to_string(id); get_error(0); allocateQubit(id, nextq); if (in && sims[id].used) { sims[id].has = true; sims[id].q[nextq] = false; sims[id].ord.push_back(nextq); } else if (get_error(0) != 2) { why = what + " on a dead id not reported"; return false; } ++nextq; break; }
        case 7: { if (live && sims[id].net) break; what += "release " + std::to_string(id); get_error(0); if (!live) { release(id, 0); if (get_error(0) != 2) { why = what + " on a dead id not reported"; return false; } break; }
                  auto it = sims[id].q.begin(); for (size_t k = rnd(sims[id].q.size()); k; --k) ++it; uintq q = it->first; release(id, q); sims[id].q.erase(q); for (size_t k = 0; k < sims[id].ord.size(); ++k) if (sims[id].ord[k] == q) { sims[id].ord.erase(sims[id].ord.begin() + k); break; } if (sims[id].q.empty()) sims[id].has = false; break; }
        case 8: case 9: { if (!live) break; auto it = sims[id].q.begin(); for (size_t k = rnd(sims[id].q.size()); k; --k) ++it; what += "X " + std::to_string(id); X(id, it->first); it->second = !it->second; break; }
        default: { if (live) break; if (in && sims[id].used) break; const Fn* f; do { f = &TABLE[rnd(TABLE_N)]; } while (f->fam != 's'); what += std::string(f->name) + " on dead " + std::to_string(id); if (!deadcall(*f, id, !in, what)) return false; if (!strcmp(f->name, "destroy")) break; break; }
        }
        if (getenv("TRACE")) { fprintf(stdout, "%s\n", what.c_str()); fflush(stdout); }
        if (!check(what)) return false;
    }
    return true;
}
static bool one(const std::string& c) {
    if (!c.compare(0, 5, "call ")) { char nm[99], kd[20]; int w; if (sscanf(c.c_str(), "call %98s %d %19s", nm, &w, kd) != 3) return true; return callcase(nm, w, kd); }
    if (!c.compare(0, 5, "hist ")) return history(strtoull(c.c_str() + 5, NULL, 10));
    return true;
}
// each case in a process of its own; "" if it passed
static std::string guarded(const std::string& c) {
    int fd[2]; if (pipe(fd)) return "";
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        close(fd[0]); alarm(60); if (!getenv("TRACE")) std::cout.setstate(std::ios::failbit); freopen("/dev/null", "w", stderr);
        bool ok = one(c); if (!ok) { ssize_t z = write(fd[1], why.data(), why.size()); (void)z; }
        _exit(ok ? 0 : 1);
    }
    close(fd[1]); std::string r; char b[512]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, k); close(fd[0]);
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return "the call stops the process with signal " + std::to_string(WTERMSIG(st));
    if (WEXITSTATUS(st)) return r.empty() ? "failed" : r;
    return "";
}
int main(int argc, char** argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : "search";
    if (mode == "run") { std::string e = guarded(argv[2]); if (!e.empty()) { printf("FAIL %s : %s\n", argv[2], e.c_str()); return 1; } printf("PASS\n"); return 0; }
    uint64_t seed = argc > 2 ? strtoull(argv[2], NULL, 10) : 1; double secs = argc > 3 ? atof(argv[3]) : 20;
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long long)(secs * 1000));
    unsigned long long calls = 0, hist = 0;
    const char* kinds[] = { "size", "destroyed", "huge", "next" };
    for (const char* k : kinds) for (const Fn& f : TABLE) {
        std::string c = std::string("call ") + f.name + " " + std::to_string(f.which) + " " + k;
        std::string e = guarded(c); ++calls;
        if (!e.empty()) { printf("FAIL %s : %s\n", c.c_str(), e.c_str()); return 1; }
    }
    while (std::chrono::steady_clock::now() < end) {
        std::string c = "hist " + std::to_string(seed * 100003 + hist);
        if (hist % 50 == 0) printf("CASE %s\n", c.c_str());
        std::string e = guarded(c); ++hist;
        if (!e.empty()) { printf("FAIL %s : %s\n", c.c_str(), e.c_str()); return 1; }
    }
    printf("COV {\"calls\": %llu, \"histories\": %llu}\n", calls, hist);
    return 0;
}
