// Visit counts of the real ParallelFor: search SEED SECONDS [...] | run "seed"
#include "common/parallel_for.hpp"
#include "statevector.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace Qrack;
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); next(); } uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; } uint64_t in(uint64_t n) { return n ? (next() >> 11) % n : 0; } double u() { return (double)(next() >> 11) / 9007199254740992.0; } };
static std::atomic<long long> began(0);
static std::atomic<unsigned long long> current(0);
static long long now() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Seen {
    std::vector<std::atomic<int>> n; std::atomic<int> outside{ 0 }, badcpu{ 0 }; unsigned cores; std::vector<std::atomic<uint64_t>> who;
    Seen(size_t s, unsigned c) : n(s), cores(c ? c : 1), who(c ? c : 1) { for (auto& x : n) x = 0; for (auto& x : who) x = 0; }
    ParallelFunc fn() { return [this](const bitCapIntOcl& i, const unsigned& cpu) { if (i < n.size()) ++n[i]; else outside = 1; if (cpu >= cores) badcpu = 1; else { uint64_t me = std::hash<std::thread::id>()(std::this_thread::get_id()) | 1, e = 0; if (!who[cpu].compare_exchange_strong(e, me) && e != me) badcpu = 2; } }; }
    std::string check(const std::vector<char>& want) { if (outside) return "an index outside is visited"; if (badcpu) return badcpu == 1 ? "worker number out of range" : "two workers share a number"; for (size_t i = 0; i < n.size(); ++i) if (n[i] != (want[i] ? 1 : 0)) return "index " + std::to_string(i) + " is visited " + std::to_string(n[i]) + " times instead of " + (want[i] ? "1" : "0"); return ""; }
};
static std::string one(uint64_t seed) {
    Rng r(seed); began = now(); current = seed; std::string err;
    int p = (int)r.in(8); setenv("QRACK_PSTRIDEPOW", std::to_string(p).c_str(), 1);
    ParallelFor f; unsigned cores = (unsigned)(r.in(4) ? 1 + r.in(9) : 0);
    if (cores) f.SetConcurrencyLevel(cores); else cores = f.GetConcurrencyLevel();
    size_t S = (size_t)1 << p;
    int kind = (int)r.in(7); std::string what;
    auto near = [&](size_t m) { size_t x = S * r.in(m) + (r.in(2) ? r.in(3) : r.in(S)); if (x && r.in(3) == 0) --x; return x; };
    if (kind <= 1) {
        size_t b = r.in(3) ? 0 : near(4), e = b + near(12); Seen s(e + 8, cores); std::vector<char> w(e + 8); for (size_t i = b; i < e; ++i) w[i] = 1;
        what = "par_for(" + std::to_string(b) + "," + std::to_string(e) + ")";
        if (kind) { f.par_for(b, e, s.fn()); err = s.check(w); }
        else { size_t m = 1 + r.in(3), a = r.in(3); what = "par_for_inc(" + std::to_string(b) + "," + std::to_string(e - b) + ", i -> " + std::to_string(m) + "i+" + std::to_string(a) + ")"; Seen s2(m * e + 8 + a, cores); std::vector<char> w2(m * e + 8 + a); for (size_t i = b; i < e; ++i) w2[m * i + a] = 1; f.par_for_inc(b, e - b, [m, a](const bitCapIntOcl& i) { return m * i + a; }, s2.fn()); err = s2.check(w2); }
    } else if (kind == 2) {
        int n = 1 + (int)r.in(11), s0 = (int)r.in(n + 1), w0 = (int)r.in(n - s0 + 1); size_t e = (size_t)1 << n, gap = (((size_t)1 << w0) - 1) << s0; Seen s(e, cores); std::vector<char> w(e); for (size_t i = 0; i < e; ++i) w[i] = !(i & gap);
        what = "par_for_skip(0,2^" + std::to_string(n) + ",2^" + std::to_string(s0) + "," + std::to_string(w0) + ")"; f.par_for_skip(0, e, (bitCapIntOcl)1 << s0, (bitLenInt)w0, s.fn()); err = s.check(w);
    } else if (kind == 3) {
        int n = 1 + (int)r.in(11); size_t e = (size_t)1 << n, all = r.in(e) & r.in(e); if (r.in(4) == 0) { int k = (int)r.in(n + 1); all = e - ((size_t)1 << (n - k)); } std::vector<bitCapIntOcl> m; for (int i = 0; i < n; ++i) if ((all >> i) & 1) m.push_back((bitCapIntOcl)1 << i);
        Seen s(e, cores); std::vector<char> w(e); for (size_t i = 0; i < e; ++i) w[i] = !(i & all); what = "par_for_mask(0,2^" + std::to_string(n) + ", mask " + std::to_string(all) + ")"; f.par_for_mask(0, e, m, s.fn()); err = s.check(w);
    } else if (kind == 4) {
        size_t e = 1 + near(8); std::set<bitCapIntOcl> st; std::vector<char> w(e); for (size_t i = 0; i < e; ++i) if (r.in(2)) { st.insert(i); w[i] = 1; } Seen s(e, cores); std::vector<bitCapIntOcl> v(st.begin(), st.end());
        what = "par_for_set of " + std::to_string(v.size()); if (r.in(2)) f.par_for_set(st, s.fn()); else f.par_for_set(v, s.fn()); err = s.check(w);
    } else if (kind == 5) {
        int lo = 1 + (int)r.in(4), hi = 1 + (int)r.in(4); std::vector<bitCapIntOcl> a, b; for (int i = 0; i < (1 << lo); ++i) if (r.in(2)) a.push_back(i); for (int i = 0; i < (1 << hi); ++i) if (r.in(2)) b.push_back(i);
        size_t e = (size_t)1 << (lo + hi); Seen s(e, cores); std::vector<char> w(e); for (auto x : a) for (auto y : b) w[x | (y << lo)] = 1; what = "par_for_sparse_compose"; if (a.size()) { f.par_for_sparse_compose(a, b, (bitLenInt)lo, s.fn()); err = s.check(w); }
    } else {
        size_t n = 1 + near(12); auto sv = std::make_shared<StateVectorArray>(n); double tot = 0, thr = r.in(2) ? 0 : r.u() * 0.6, amb = 0;
        for (size_t i = 0; i < n; ++i) { real1 x = (real1)r.u(), y = (real1)(r.in(4) ? r.u() : 0); if (thr > 0 && r.in(3) == 0) { x = (real1)0.5; y = 0; } sv->write(i, complex(x, y)); }
        if (thr > 0 && r.in(2)) thr = 0.25;
        for (size_t i = 0; i < n; ++i) { real1 q = norm(sv->read(i)); if (thr <= 0 || q >= (real1)(real1_f)thr) tot += q; }
        bool ex = r.in(2); what = (ex ? "par_norm_exact of " : "par_norm of ") + std::to_string(n);
        double got = (double)((thr <= 0 && ex) ? f.par_norm_exact(n, sv) : f.par_norm(n, sv, (real1_f)thr));
        if (std::fabs(got - tot) > 1e-5 * (1 + n)) { char b[200]; snprintf(b, sizeof b, "norm %.9g instead of %.9g (threshold %g)", got, tot, thr); err = b; }
    }
    began = 0;
    if (!err.empty()) err = what + ", stride 2^" + std::to_string(p) + ", " + std::to_string(cores) + " workers: " + err;
    return err;
}
int main(int argc, char** argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    std::thread([] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(200)); long long b = began; if (b && now() - b > 30000) { printf("FAIL %llu : no progress for 30 s\n", (unsigned long long)current); fflush(stdout); _exit(1); } } }).detach();
    std::string mode = argc > 1 ? argv[1] : "search";
    if (mode == "run") { unsigned long long s = strtoull(argv[2], NULL, 10); for (int i = 0; i < 100; ++i) { std::string e = one(s); if (!e.empty()) { printf("FAIL %llu : %s\n", s, e.c_str()); fflush(stdout); _exit(1); } } printf("PASS\n"); fflush(stdout); _exit(0); }
    uint64_t seed = argc > 2 ? strtoull(argv[2], NULL, 10) : 1; double secs = argc > 3 ? atof(argv[3]) : 5;
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long long)(secs * 1000)); unsigned long long n = 0;
    while (std::chrono::steady_clock::now() < end) { uint64_t s = seed * 1000003ULL + n; if (n % 200 == 0) printf("CASE %llu\n", (unsigned long long)s); std::string e = one(s); ++n; if (!e.empty()) { printf("FAIL %llu : %s\n", (unsigned long long)s, e.c_str()); fflush(stdout); _exit(1); } }
    printf("COV {\"loops\": %llu}\n", n); fflush(stdout); _exit(0);
}
