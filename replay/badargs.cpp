// Bad arguments on the real CPU engine: each operation gets one argument out of range and must throw with the state untouched.
// search SEED SECONDS [...] | run "op n seed bad value"
#include "qfactory.hpp"
#include "qengine_cpu.hpp"
#include <cstring>
#include <chrono>
#include <map>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <string>
using namespace Qrack;
struct R { uint64_t s; R(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 1) { next(); next(); } uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; } uint64_t in(uint64_t n) { return n ? next() % n : 0; } double u() { return (double)(next() >> 11) / (double)(1ULL << 53) * 2 - 1; } };
typedef std::shared_ptr<QEngineCPU> E;
typedef std::vector<bitLenInt> V;
struct A { bitLenInt n; std::vector<int> q; int s, s2, l; uint64_t m, w, p; complex x[8]; double t[4]; unsigned char tab[512]; real1 out[256]; };
// kinds: q qubits, c one control (rest of q), s/s2 ranges, m mask, p permutation
struct Op { const char* name; int nq; const char* k; void (*f)(E, A&); };
#define Q(i) ((bitLenInt)a.q[i])
#define S ((bitLenInt)a.s)
#define S2 ((bitLenInt)a.s2)
#define LN ((bitLenInt)a.l)
#define MK ((bitCapInt)a.m)
#define W ((bitCapInt)a.w)
static const Op OPS[] = {
    { "H", 1, "q", [](E e, A& a) { e->H(Q(0)); } }, { "X", 1, "q", [](E e, A& a) { e->X(Q(0)); } }, { "T", 1, "q", [](E e, A& a) { e->T(Q(0)); } },
    { "Mtrx", 1, "q", [](E e, A& a) { e->Mtrx(a.x, Q(0)); } }, { "Phase", 1, "q", [](E e, A& a) { e->Phase(ONE_CMPLX, I_CMPLX, Q(0)); } },
    { "MCMtrx1", 2, "q", [](E e, A& a) { e->MCMtrx(V{ Q(1) }, a.x, Q(0)); } }, { "MACMtrx1", 2, "q", [](E e, A& a) { e->MACMtrx(V{ Q(1) }, a.x, Q(0)); } },
    { "MCMtrx2", 3, "q", [](E e, A& a) { e->MCMtrx(V{ Q(1), Q(2) }, a.x, Q(0)); } }, { "MACMtrx2", 3, "q", [](E e, A& a) { e->MACMtrx(V{ Q(1), Q(2) }, a.x, Q(0)); } },
    { "UCMtrx2", 3, "q", [](E e, A& a) { e->UCMtrx(V{ Q(1), Q(2) }, a.x, Q(0), (bitCapInt)(a.w & 3U)); } },
    { "CNOT", 2, "q", [](E e, A& a) { e->CNOT(Q(0), Q(1)); } }, { "CZ", 2, "q", [](E e, A& a) { e->CZ(Q(0), Q(1)); } }, { "CCNOT", 3, "q", [](E e, A& a) { e->CCNOT(Q(0), Q(1), Q(2)); } },
    { "Swap", 2, "q", [](E e, A& a) { e->Swap(Q(0), Q(1)); } }, { "ISwap", 2, "q", [](E e, A& a) { e->ISwap(Q(0), Q(1)); } }, { "IISwap", 2, "q", [](E e, A& a) { e->IISwap(Q(0), Q(1)); } },
    { "SqrtSwap", 2, "q", [](E e, A& a) { e->SqrtSwap(Q(0), Q(1)); } }, { "ISqrtSwap", 2, "q", [](E e, A& a) { e->ISqrtSwap(Q(0), Q(1)); } }, { "FSim", 2, "q", [](E e, A& a) { e->FSim(0.3, 0.7, Q(0), Q(1)); } }, { "FSim0", 2, "q", [](E e, A& a) { e->FSim(0, 0.7, Q(0), Q(1)); } },
    { "CSwap", 3, "q", [](E e, A& a) { e->CSwap(V{ Q(2) }, Q(0), Q(1)); } }, { "AntiCSwap", 3, "q", [](E e, A& a) { e->AntiCSwap(V{ Q(2) }, Q(0), Q(1)); } }, { "CSqrtSwap", 3, "q", [](E e, A& a) { e->CSqrtSwap(V{ Q(2) }, Q(0), Q(1)); } },
    { "AntiCSqrtSwap", 3, "q", [](E e, A& a) { e->AntiCSqrtSwap(V{ Q(2) }, Q(0), Q(1)); } }, { "CISqrtSwap", 3, "q", [](E e, A& a) { e->CISqrtSwap(V{ Q(2) }, Q(0), Q(1)); } }, { "AntiCISqrtSwap", 3, "q", [](E e, A& a) { e->AntiCISqrtSwap(V{ Q(2) }, Q(0), Q(1)); } },
    { "UniformlyControlled", 2, "q", [](E e, A& a) { complex x[8]; for (int i = 0; i < 8; ++i) x[i] = a.x[i & 3]; e->UniformlyControlledSingleBit(V{ Q(1) }, Q(0), x); } },
    { "Prob", 1, "q", [](E e, A& a) { e->Prob(Q(0)); } }, { "CProb", 2, "q", [](E e, A& a) { e->CProb(Q(0), Q(1)); } }, { "ACProb", 2, "q", [](E e, A& a) { e->ACProb(Q(0), Q(1)); } }, { "M", 1, "q", [](E e, A& a) { e->M(Q(0)); } },
    { "ForceMv", 2, "q", [](E e, A& a) { e->ForceM(V{ Q(0), Q(1) }, std::vector<bool>{}); } },
    { "FullAdd", 4, "q", [](E e, A& a) { e->FullAdd(Q(0), Q(1), Q(2), Q(3)); } }, { "IFullAdd", 4, "q", [](E e, A& a) { e->IFullAdd(Q(0), Q(1), Q(2), Q(3)); } },
    { "XMask", 0, "m", [](E e, A& a) { e->XMask(MK); } }, { "PhaseParity", 0, "m", [](E e, A& a) { e->PhaseParity(0.4, MK); } }, { "PhaseRootNMask", 0, "m", [](E e, A& a) { e->PhaseRootNMask(3, MK); } }, { "UniformParityRZ", 0, "m", [](E e, A& a) { e->UniformParityRZ(MK, 0.4); } },
    { "CUniformParityRZ", 1, "q", [](E e, A& a) { e->CUniformParityRZ(V{ Q(0) }, (bitCapInt)(Q(0) ? 1U : 2U), 0.4); } }, { "CUniformParityRZm", 1, "m", [](E e, A& a) { e->CUniformParityRZ(V{ Q(0) }, MK, 0.4); } },
    { "ProbMask", 0, "m", [](E e, A& a) { e->ProbMask(MK, ZERO_BCI); } }, { "ProbParity", 0, "m", [](E e, A& a) { e->ProbParity(MK); } }, { "MParity", 0, "m", [](E e, A& a) { e->MParity(MK); } },
    { "GetAmplitude", 0, "p", [](E e, A& a) { e->GetAmplitude((bitCapInt)a.p); } }, { "SetAmplitude", 0, "p", [](E e, A& a) { e->SetAmplitude((bitCapInt)a.p, ONE_CMPLX); } },
    { "ProbReg", 0, "s", [](E e, A& a) { e->ProbReg(S, LN, ZERO_BCI); } }, { "ProbRegAll", 0, "s", [](E e, A& a) { e->ProbRegAll(S, LN, a.out); } }, { "GetExpectation", 0, "s", [](E e, A& a) { e->GetExpectation(S, LN); } },
    { "ForceMReg", 0, "s", [](E e, A& a) { e->ForceMReg(S, LN, ZERO_BCI, false); } }, { "ROL", 0, "s", [](E e, A& a) { e->ROL(1, S, LN); } }, { "INC", 0, "s", [](E e, A& a) { e->INC(W, S, LN); } },
    { "CINC", 1, "qs", [](E e, A& a) { e->CINC(W, S, LN, V{ Q(0) }); } }, { "INCDECC", 1, "qs", [](E e, A& a) { e->INCDECC(W, S, LN, Q(0)); } }, { "INCS", 1, "qs", [](E e, A& a) { e->INCS(W, S, LN, Q(0)); } },
    { "INCDECSC", 1, "qs", [](E e, A& a) { e->INCDECSC(W, S, LN, Q(0)); } }, { "INCDECSC2", 2, "qs", [](E e, A& a) { e->INCDECSC(W, S, LN, Q(0), Q(1)); } },
    { "PhaseFlipIfLess", 0, "s", [](E e, A& a) { e->PhaseFlipIfLess(W, S, LN); } }, { "CPhaseFlipIfLess", 1, "qs", [](E e, A& a) { e->CPhaseFlipIfLess(W, S, LN, Q(0)); } },
    { "Hash", 0, "s", [](E e, A& a) { e->Hash(S, LN, a.tab); } },
    { "MUL", 0, "st", [](E e, A& a) { e->MUL(W, S, S2, LN); } }, { "MUL0", 0, "st", [](E e, A& a) { e->MUL(ZERO_BCI, S, S2, LN); } }, { "MUL1", 0, "st", [](E e, A& a) { e->MUL(ONE_BCI, S, S2, LN); } }, { "DIV", 0, "st", [](E e, A& a) { e->DIV(W, S, S2, LN); } },
    { "CMUL", 1, "qst", [](E e, A& a) { e->CMUL(W, S, S2, LN, V{ Q(0) }); } }, { "CDIV", 1, "qst", [](E e, A& a) { e->CDIV(W, S, S2, LN, V{ Q(0) }); } },
    { "MULModNOut", 0, "st", [](E e, A& a) { e->MULModNOut(W, (bitCapInt)2U, S, S2, LN); } }, { "MULModNOut0", 0, "st", [](E e, A& a) { e->MULModNOut(ZERO_BCI, (bitCapInt)2U, S, S2, LN); } }, { "IMULModNOut", 0, "st", [](E e, A& a) { e->IMULModNOut(W, (bitCapInt)2U, S, S2, LN); } },
    { "POWModNOut", 0, "st", [](E e, A& a) { e->POWModNOut(W, (bitCapInt)2U, S, S2, LN); } }, { "POWModNOut1", 0, "st", [](E e, A& a) { e->POWModNOut(ONE_BCI, (bitCapInt)2U, S, S2, LN); } },
    { "CMULModNOut", 1, "qst", [](E e, A& a) { e->CMULModNOut(W, (bitCapInt)2U, S, S2, LN, V{ Q(0) }); } }, { "CIMULModNOut", 1, "qst", [](E e, A& a) { e->CIMULModNOut(W, (bitCapInt)2U, S, S2, LN, V{ Q(0) }); } }, { "CPOWModNOut", 1, "qst", [](E e, A& a) { e->CPOWModNOut(W, (bitCapInt)2U, S, S2, LN, V{ Q(0) }); } },
    { "IndexedLDA", 0, "st", [](E e, A& a) { e->IndexedLDA(S, LN, S2, LN, a.tab); } }, { "IndexedADC", 1, "qst", [](E e, A& a) { e->IndexedADC(S, LN, S2, LN, Q(0), a.tab); } }, { "IndexedSBC", 1, "qst", [](E e, A& a) { e->IndexedSBC(S, LN, S2, LN, Q(0), a.tab); } },
    { "Dispose", 0, "s", [](E e, A& a) { e->Dispose(S, LN); } }, { "DisposePerm", 0, "s", [](E e, A& a) { e->Dispose(S, LN, ZERO_BCI); } },
};
static const int NOPS = sizeof(OPS) / sizeof(*OPS);
static std::vector<complex> sv(E e) { std::vector<complex> v((size_t)e->GetMaxQPower()); e->GetQuantumState(v.data()); return v; }
static int outside(R& r, int n) { static const int C[] = { 0, 0, 0, 63, 64, 65, 66, 67, 127, 128, 129, 192, 255 }; int c = C[r.in(13)]; if (c < n) c = n + r.in(3); if (r.in(4) == 0) c = n + r.in(256 - n); return c > 255 ? 255 : c; }
static bool one(int oi, int n, uint64_t seed, std::string& why)
{
    const Op& o = OPS[oi];
    R r(seed);
    A a; memset(a.tab, 0, sizeof a.tab); for (int i = 0; i < 256; ++i) a.tab[i] = i;
    a.n = n; a.w = 2 + (r.in(3)); a.m = r.in(1ULL << n); a.p = r.in(1ULL << n);
    for (int i = 0; i < 4; ++i) a.t[i] = r.u();
    { double c = std::cos(1.1), s = std::sin(1.1); a.x[0] = complex(c, 0); a.x[1] = complex(0, -s); a.x[2] = complex(0, -s); a.x[3] = complex(c, 0); }
    // arguments in range and apart: ranges at the bottom, qubits above them
    bool hs = strchr(o.k, 's'), ht = strchr(o.k, 't');
    a.l = 1; a.s = 0; a.s2 = 1;
    if (hs && !ht) a.l = 1 + r.in(std::max(1, n - o.nq - 0) > 2 ? 2 : 1);
    int base = hs ? (ht ? 2 : a.l) : 0;
    for (int i = 0; i < o.nq; ++i) a.q.push_back(base + i);
    if (base + o.nq > n) return true;
    if (strchr(o.k, 'm') && o.nq) a.m = n > 1 ? 2 : 1;
    // one of them goes out of range
    int nb = o.nq * (strchr(o.k, 'q') != nullptr) + hs + ht + (strchr(o.k, 'm') != nullptr) + (strchr(o.k, 'p') != nullptr);
    int b = r.in(nb); std::string what;
    if (strchr(o.k, 'q')) { if (b < o.nq) { a.q[b] = outside(r, n); what = "qubit " + std::to_string(b) + " = " + std::to_string(a.q[b]); } b -= o.nq; }
    if (hs) { if (b == 0) { if (r.in(3)) { int s = outside(r, n); a.s = s; if (r.in(2)) a.s = n - a.l + 1; } else { a.s = 1 + r.in(n - 1); if (!ht) a.l = n - a.s + 1 + r.in(3) * 3; else a.s = n; if (r.in(2) && !ht) a.l = 256 - a.s; } what = "range at " + std::to_string(a.s) + " of " + std::to_string(a.l); } --b; }
    if (ht) { if (b == 0) { a.s2 = outside(r, n); what = "second range at " + std::to_string(a.s2) + " of " + std::to_string(a.l); } --b; }
    if (strchr(o.k, 'm')) { if (b == 0) { a.m |= 1ULL << (n + r.in(r.in(2) ? 1 : 40)); what = "mask " + std::to_string(a.m); } --b; }
    if (strchr(o.k, 'p')) { if (b == 0) { a.p = (1ULL << n) + r.in(3); if (r.in(2)) a.p |= 1ULL << 40; what = "permutation " + std::to_string(a.p); } --b; }
    auto e = std::make_shared<QEngineCPU>((bitLenInt)n, ZERO_BCI, nullptr, ONE_CMPLX, (r.in(2) != 0), false, false, -1, false);
    for (int i = 0; i < n; ++i) { e->U(i, a.t[i & 3] * 3 + i, a.t[(i + 1) & 3], a.t[2]); if (i) e->CNOT(i - 1, i); }
    auto v0 = sv(e);
    bool thrown = false; std::string what2;
    try { o.f(e, a); } catch (const std::exception& x) { thrown = true; what2 = x.what(); }
    if (e->GetQubitCount() != n) { why = std::string(o.name) + " with " + what + ": the register's width changed"; return false; }
    auto v1 = sv(e);
    double d = 0; for (size_t i = 0; i < v0.size(); ++i) d = std::max(d, (double)std::abs(v0[i] - v1[i]));
    if (!(d < 1e-5)) { why = std::string(o.name) + " with " + what + (thrown ? ": throws, but the state has changed" : ": does not throw, and changes the state"); return false; }
    if (!thrown) { why = std::string(o.name) + " with " + what + ": does not throw"; return false; }
    return true;
}
int main(int c, char** v)
{
    std::string why;
    if (c >= 3 && !strcmp(v[1], "run")) {
        char nm[64]; int n; unsigned long long s; if (sscanf(v[2], "%63s %d %llu", nm, &n, &s) != 3) return 2;
        for (int i = 0; i < NOPS; ++i) if (!strcmp(OPS[i].name, nm)) { bool ok = one(i, n, s, why); printf("%s %s\n", ok ? "ok" : "FAIL", why.c_str()); return !ok; }
        return 2;
    }
    if (c < 4) return 2;
    R r(strtoull(v[2], 0, 10) + 77); double T = atof(v[3]);
    auto t0 = std::chrono::steady_clock::now();
    uint64_t n = 0; std::map<std::string, int> cnt; std::set<std::string> seen;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < T) {
        int i = n < (uint64_t)NOPS * 30 ? n % NOPS : r.in(NOPS); int w = 1 + r.in(6); uint64_t s = r.next() & 0xffffffff;
        char b[128]; snprintf(b, sizeof b, "%s %d %llu", OPS[i].name, w, (unsigned long long)s);
        printf("CASE %s\n", b); fflush(stdout);
        ++n; ++cnt[OPS[i].name];
        if (!one(i, w, s, why)) { printf("FAIL %s (%s)\n", b, why.c_str()); if (!getenv("ALL")) return 1; if (!seen.insert(OPS[i].name + why.substr(0, 40)).second) continue; }
        if (n > 200000) break;
    }
    printf("COV {\"evaluations\": %llu, \"operations_covered\": %d, \"rule\": \"each operation with exactly one argument out of range on an entangled state of 1 to 6 qubits: must throw and leave every amplitude as it was; distinct = (operation, width, seed)\", \"distinct_nontrivial\": %llu}\n", (unsigned long long)n, (int)cnt.size(), (unsigned long long)n);
    return 0;
}
