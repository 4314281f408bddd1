// Random schedules of the real DispatchQueue: search SEED SECONDS [...] | run "seed"
#include "dispatchqueue.hpp"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
using namespace Qrack;
typedef std::chrono::steady_clock clk;
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); next(); } uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; } uint64_t in(uint64_t n) { return n ? (next() >> 11) % n : 0; } };
static void spin(unsigned us) { if (!us) return; auto e = clk::now() + std::chrono::microseconds(us); while (clk::now() < e) {} }
static std::atomic<long long> began(0);   // ms at the start of the case, 0 = idle
static std::atomic<unsigned long long> current(0);
static long long now() { return std::chrono::duration_cast<std::chrono::milliseconds>(clk::now().time_since_epoch()).count(); }
static const char* volatile where = "";
struct World { std::atomic<int> running{ 0 }; std::atomic<int> overlap{ 0 }, disorder{ 0 }, twice{ 0 }; };
struct Op { std::atomic<int> st{ 0 }; };  // 0 queued 1 running 2 done
struct Client {
    std::vector<std::shared_ptr<Op>> ops; std::vector<char> dropped; std::shared_ptr<std::atomic<int>> last{ new std::atomic<int>(-1) };
    void go(DispatchQueue& q, World& w, Rng& r, unsigned maxus) {
        auto o = std::make_shared<Op>(); int id = (int)ops.size(); unsigned us = r.in(3) ? 0 : (unsigned)r.in(maxus); auto l = last; World* pw = &w;
        ops.push_back(o); dropped.push_back(0);
        q.dispatch([o, id, us, l, pw] {
            if (pw->running.fetch_add(1)) pw->overlap = 1;
            if (o->st.exchange(1)) pw->twice = 1;
            if (l->exchange(id) >= id) pw->disorder = 1;
            spin(us);
            o->st = 2; pw->running.fetch_sub(1);
        });
    }
    int pending() { for (size_t i = 0; i < ops.size(); ++i) if (!dropped[i] && ops[i]->st != 2) return (int)i; return -1; }
};
static std::string one(uint64_t seed) {
    Rng r(seed); World w; std::string err; auto q = std::unique_ptr<DispatchQueue>(new DispatchQueue());
    began = now(); current = seed;
    if (r.in(4) == 0) {      // several clients, no dump
        int nc = 2 + (int)r.in(2); std::vector<std::thread> t; std::vector<Client> c(nc); std::atomic<int> bad{ 0 };
        for (int k = 0; k < nc; ++k) { uint64_t s2 = r.next(); t.emplace_back([&, k, s2] { Rng g(s2); int n = 5 + (int)g.in(40); for (int i = 0; i < n; ++i) { int a = (int)g.in(5); if (a < 3) c[k].go(*q, w, g, 60); else if (a == 3) { q->finish(); if (c[k].pending() >= 0) bad = 1; } else spin((unsigned)g.in(80)); } q->finish(); if (c[k].pending() >= 0) bad = 1; }); }
        where = "clients"; for (auto& x : t) x.join();
        if (bad) err = "finish() returned with an operation of its caller not done (several clients)";
        where = "destroy"; q.reset();
    } else {
        Client c; int n = 3 + (int)r.in(60); unsigned mx = r.in(4) ? 40 : 400;
        for (int i = 0; i < n && err.empty(); ++i) {
            switch (r.in(8)) {
            case 0: where = "finish"; q->finish(); if (c.pending() >= 0) err = "finish() returned with operation " + std::to_string(c.pending()) + " not done"; if (w.running) err = "finish() returned with an operation running"; if (!q->isFinished()) err = "not reported finished after finish()"; break;
            case 1: { where = "dump"; std::vector<int> s; q->dump(); if (w.running) err = "dump() returned with an operation running"; for (size_t k = 0; k < c.ops.size(); ++k) { s.push_back(c.ops[k]->st); if (!c.ops[k]->st) c.dropped[k] = 1; } spin(r.in(3) ? 0 : (unsigned)r.in(100)); for (size_t k = 0; k < c.ops.size(); ++k) if (c.ops[k]->st != s[k]) err = "an operation ran after the dump() that followed it"; if (!q->isFinished()) err = "not reported finished after dump()"; break; }
            case 2: spin((unsigned)r.in(120)); break;
            case 3: if (q->isFinished() && (c.pending() >= 0)) err = "isFinished() with an operation not done"; break;
            case 4: if (r.in(8) == 0) { where = "dispatch"; for (int k = 20 + (int)r.in(300); k; --k) c.go(*q, w, r, 2); break; }  // fallthrough: a burst is rare
            default: where = "dispatch"; c.go(*q, w, r, mx);
            }
        }
        if (err.empty() && r.in(2)) { where = "finish"; q->finish(); if (c.pending() >= 0) err = "finish() returned with an operation not done"; }
        where = "destroy"; q.reset(); if (w.running) err = "the queue was destroyed with an operation running";
        std::vector<int> s; for (auto& o : c.ops) s.push_back(o->st); spin(r.in(4) ? 0 : 50); for (size_t k = 0; k < s.size(); ++k) if (c.ops[k]->st != s[k] || s[k] == 1) err = "an operation ran after its queue was destroyed";
    }
    if (w.overlap) err = "two operations ran at once"; if (w.twice) err = "an operation ran twice"; if (w.disorder) err = "operations ran out of order";
    began = 0; return err;
}
int main(int argc, char** argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    std::thread([] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(200)); long long b = began; if (b && now() - b > 15000) { printf("FAIL %llu : no progress for 15 s in %s (lost wake-up or deadlock)\n", (unsigned long long)current, where); fflush(stdout); _exit(1); } } }).detach();
    std::string mode = argc > 1 ? argv[1] : "search";
    if (mode == "run") { unsigned long long s = strtoull(argv[2], NULL, 10); for (int i = 0; i < 300; ++i) { std::string e = one(s); if (!e.empty()) { printf("FAIL %llu : %s\n", s, e.c_str()); fflush(stdout); _exit(1); } } printf("PASS\n"); fflush(stdout); _exit(0); }
    uint64_t seed = argc > 2 ? strtoull(argv[2], NULL, 10) : 1; double secs = argc > 3 ? atof(argv[3]) : 5;
    auto end = clk::now() + std::chrono::milliseconds((long long)(secs * 1000)); unsigned long long n = 0;
    while (clk::now() < end) { uint64_t s = seed * 1000003ULL + n; if (n % 500 == 0) printf("CASE %llu\n", (unsigned long long)s); std::string e = one(s); ++n; if (!e.empty()) { printf("FAIL %llu : %s (a schedule: repeat with run, which tries it 300 times)\n", (unsigned long long)s, e.c_str()); fflush(stdout); _exit(1); } }
    printf("COV {\"schedules\": %llu}\n", n); fflush(stdout); _exit(0);
}
