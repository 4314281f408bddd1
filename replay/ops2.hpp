// ALU, classical logic, adders, shifts.
#pragma once
#include "ops.hpp"
static inline QAluPtr AL(Q& q)
{
    QAluPtr p = std::dynamic_pointer_cast<QAlu>(q);
    if (!p)
        throw std::domain_error("no ALU");
    return p;
}
static inline u64 msk(int l) { return (1ULL << l) - 1; }
static inline bool sovf(u64 a, u64 b, int L)
{
    long sa = (long)(a << (64 - L)) >> (64 - L), sb = (long)(b << (64 - L)) >> (64 - L), s = sa + sb;
    return L && (s >= (1L << (L - 1)) || s < -(1L << (L - 1)));
}
static inline u64 powmod(u64 b, u64 e, u64 m)
{
    u64 r = 1 % m;
    for (u64 i = 0; i < e; i++)
        r = (r * (b % m)) % m;
    return r;
}
// first measures the listed register (so that resetting it is deterministic), returns the outcome
static inline double pre(Q& q, int s, int l) { return l ? (double)(u64)q->ForceMReg((bitLenInt)s, (bitLenInt)l, ZERO_BCI, false) : 0; }
static inline std::string proj(Ref& r, int s, int l, double v)
{
    auto f = [&](u64 i) { return getr(i, s, l) == (u64)v; };
    if (r.prob(f) < 1e-5)
        return "measurement reported an outcome of probability 0";
    r.project(f);
    return "";
}
static void opsAlu()
{
    typedef bitCapInt C;
    // --- add/subtract constant: args start len k
    struct IK { const char* nm; const char* grp; int sgn; void (*f)(Q&, C, bitLenInt, bitLenInt); };
    static const IK ik[] = {
        { "INC", "alu", 1, [](Q& q, C k, bitLenInt s, bitLenInt l) { q->INC(k, s, l); } },
        { "DEC", "alu", -1, [](Q& q, C k, bitLenInt s, bitLenInt l) { q->DEC(k, s, l); } },
        { "dINC", "add", 1, [](Q& q, C k, bitLenInt s, bitLenInt l) { q->QInterface::INC(k, s, l); } },
        { "dDEC", "add", -1, [](Q& q, C k, bitLenInt s, bitLenInt l) { q->QInterface::DEC(k, s, l); } },
    };
    for (auto& k : ik) {
        auto f = k.f;
        int sg = k.sgn;
        add({ k.nm, k.grp, [](Gen& g, A& a) { int l = 1 + g.pick(g.n); a = { (double)g.pick(g.n - l + 1), (double)l, (double)(g.r() & msk(l)) }; return true; },
            [f](Q& q, const A& a) { f(q, P(a[2]), B(a[0]), B(a[1])); return A(); },
            [sg](Ref& r, const A& a, const A&) { int s = a[0], l = a[1]; u64 k = a[2]; r.map([=](u64 i) { return setr(i, s, l, getr(i, s, l) + (sg > 0 ? k : 0 - k)); }); return std::string(); } });
    }
    struct CK { const char* nm; const char* grp; int sgn; void (*f)(Q&, C, bitLenInt, bitLenInt, const VB&); };
    static const CK ck[] = {
        { "CINC", "alu", 1, [](Q& q, C k, bitLenInt s, bitLenInt l, const VB& c) { q->CINC(k, s, l, c); } },
        { "CDEC", "alu", -1, [](Q& q, C k, bitLenInt s, bitLenInt l, const VB& c) { q->CDEC(k, s, l, c); } },
        { "dCINC", "add", 1, [](Q& q, C k, bitLenInt s, bitLenInt l, const VB& c) { q->QInterface::CINC(k, s, l, c); } },
        { "dCDEC", "add", -1, [](Q& q, C k, bitLenInt s, bitLenInt l, const VB& c) { q->QInterface::CDEC(k, s, l, c); } },
    };
    // control generation helper: qubits outside [s,s+l)
    auto ctl = [](Gen& g, std::vector<std::pair<int, int>> used, int kmax, A& a) {
        std::vector<int> fr;
        for (int i = 0; i < g.n; i++) {
            bool u = false;
            for (auto& p : used)
                u = u || (i >= p.first && i < p.first + p.second);
            if (!u)
                fr.push_back(i);
        }
        for (size_t i = 0; i + 1 < fr.size(); i++)
            std::swap(fr[i], fr[i + g.pick(fr.size() - i)]);
        int k = g.pick(kmax + 1);
        if (k > (int)fr.size())
            k = fr.size();
        pushv(a, fr, 0, k);
    };
    for (auto& k : ck) {
        auto f = k.f;
        int sg = k.sgn;
        add({ k.nm, k.grp, [ctl](Gen& g, A& a) { int l = 1 + g.pick(g.n); int s = g.pick(g.n - l + 1); a = { (double)s, (double)l, (double)(g.r() & msk(l)) }; ctl(g, { { s, l } }, 3, a); return true; },
            [f](Q& q, const A& a) { size_t i = 3; VB c = vb(a, i); f(q, P(a[2]), B(a[0]), B(a[1]), c); return A(); },
            [sg](Ref& r, const A& a, const A&) {
                int s = a[0], l = a[1]; u64 k = a[2], cm = 0;
                size_t i0 = 3;
                for (int c : vi(a, i0)) cm |= 1ULL << c;
                r.map([=](u64 i) { return (i & cm) == cm ? setr(i, s, l, getr(i, s, l) + (sg > 0 ? k : 0 - k)) : i; });
                return std::string();
            } });
    }
    // --- carry variants: args start len carry k (carry measured first; it is then definite)
    // kinds: 0 INCDECC (carry cleared first) 1 INCC 2 DECC 3 QInterface::INCDECC
    struct KC { const char* nm; const char* grp; int kind; };
    static const KC kc[] = { { "INCDECC", "alu", 0 }, { "INCC", "alu", 1 }, { "DECC", "alu", 2 }, { "dINCDECC", "add", 3 } };
    for (auto& k : kc) {
        int kind = k.kind;
        add({ k.nm, k.grp, [](Gen& g, A& a) { if (g.n < 2) return false; int l = 1 + g.pick(g.n - 1); std::vector<int> st; if (!g.regs({ l, 1 }, st)) return false; a = { (double)st[0], (double)l, (double)st[1], (double)(g.pick(4) ? (g.r() & msk(l)) : (g.pick(2) ? msk(l) : 0)) }; return true; },
            [kind](Q& q, const A& a) {
                double c = pre(q, a[2], 1);
                QAluPtr al = kind == 3 ? nullptr : AL(q);
                if (kind == 0 || kind == 3) {
                    if (c) q->X(B(a[2]));
                    if (kind == 0) al->INCDECC(P(a[3]), B(a[0]), B(a[1]), B(a[2]));
                    else q->QInterface::INCDECC(P(a[3]), B(a[0]), B(a[1]), B(a[2]));
                } else if (kind == 1) al->INCC(P(a[3]), B(a[0]), B(a[1]), B(a[2]));
                else al->DECC(P(a[3]), B(a[0]), B(a[1]), B(a[2]));
                return A{ c };
            },
            [kind](Ref& r, const A& a, const A& o) {
                int s = a[0], l = a[1], cb = a[2]; u64 k = a[3], c = o[0];
                std::string e = proj(r, cb, 1, o[0]);
                if (e.size()) return e;
                r.map([=](u64 i) {
                    u64 v = getr(i, s, l), w = kind == 1 ? v + k + c : kind == 2 ? v + (1ULL << l) - k - (1 - c) : v + k;
                    return setr(setr(i, s, l, w), cb, 1, w >> l);
                });
                return std::string();
            } });
    }
    // --- signed: args start len overflow [carry] k
    for (int dec = 0; dec < 2; dec++)
        add({ dec ? "DECS" : "INCS", "alu", [](Gen& g, A& a) { if (g.n < 2) return false; int l = 1 + g.pick(g.n - 1); std::vector<int> st; if (!g.regs({ l, 1 }, st)) return false; a = { (double)st[0], (double)l, (double)st[1], (double)(g.r() & msk(l)) }; return true; },
            [dec](Q& q, const A& a) { QAluPtr al = AL(q); if (dec) al->DECS(P(a[3]), B(a[0]), B(a[1]), B(a[2])); else al->INCS(P(a[3]), B(a[0]), B(a[1]), B(a[2])); return A(); },
            [dec](Ref& r, const A& a, const A&) {
                int s = a[0], l = a[1], ob = a[2]; u64 k = dec ? (0 - (u64)a[3]) & msk(l) : (u64)a[3];
                r.map([=](u64 i) { return setr(i, s, l, getr(i, s, l) + k); }, [=](u64 i) { return cd(((i >> ob) & 1) && sovf(getr(i, s, l), k, l) ? -1 : 1); });
                return std::string();
            } });
    // kinds: 0 INCDECSC(ov,carry) 1 INCDECSC(carry) 2 INCSC(ov) 3 INCSC 4 DECSC(ov) 5 DECSC
    static const char* scn[] = { "INCDECSCo", "INCDECSC", "INCSCo", "INCSC", "DECSCo", "DECSC" };
    for (int kind = 0; kind < 6; kind++)
        add({ scn[kind], "alu",
            [kind](Gen& g, A& a) {
                if (g.n < 3) return false;
                int l = 1 + g.pick(g.n - 2);
                std::vector<int> st;
                if (!g.regs({ l, 1, 1 }, st)) return false;
                a = { (double)st[0], (double)l, (double)st[1], (double)st[2], (double)(g.r() & msk(l)) };
                return true;
            },
            [kind](Q& q, const A& a) {
                double c = pre(q, a[3], 1);
                QAluPtr al = AL(q);
                C k = P(a[4]);
                bitLenInt s = B(a[0]), l = B(a[1]), o = B(a[2]), cb = B(a[3]);
                if (kind < 2 && c) q->X(cb);
                switch (kind) {
                case 0: al->INCDECSC(k, s, l, o, cb); break;
                case 1: al->INCDECSC(k, s, l, cb); break;
                case 2: al->INCSC(k, s, l, o, cb); break;
                case 3: al->INCSC(k, s, l, cb); break;
                case 4: al->DECSC(k, s, l, o, cb); break;
                case 5: al->DECSC(k, s, l, cb); break;
                }
                return A{ c };
            },
            [kind](Ref& r, const A& a, const A& o) {
                int s = a[0], l = a[1], ob = a[2], cb = a[3]; u64 c = o[0], k = a[4];
                std::string e = proj(r, cb, 1, o[0]);
                if (e.size()) return e;
                u64 kk = kind < 2 ? k : kind < 4 ? k + c : (1ULL << l) - k - (1 - c);
                bool ov = (kind & 1) == 0;
                r.map([=](u64 i) { u64 w = getr(i, s, l) + kk; return setr(setr(i, s, l, w), cb, 1, w >> l); },
                    [=](u64 i) { return cd((!ov || ((i >> ob) & 1)) && sovf(getr(i, s, l), kk & msk(l), l) ? -1 : 1); });
                return std::string();
            } });
    // --- multiply / divide: args start carry len k [controls]; DIV undoes MUL
    for (int kind = 0; kind < 4; kind++) {
        static const char* nm[] = { "MUL", "MULDIV", "CMUL", "CMULDIV" };
        bool ctrl = kind >= 2, both = kind & 1;
        add({ nm[kind], "alu",
            [ctl, ctrl](Gen& g, A& a) {
                if (g.n < 2) return false;
                int l = 1 + g.pick(g.n / 2);
                std::vector<int> st;
                if (!g.regs({ l, l }, st)) return false;
                a = { (double)st[0], (double)st[1], (double)l, (double)(1 + g.r() % msk(l)) };
                if (ctrl) ctl(g, { { st[0], l }, { st[1], l } }, 2, a); else a.push_back(0);
                return true;
            },
            [ctrl, both](Q& q, const A& a) {
                double c = pre(q, a[1], a[2]);
                QAluPtr al = AL(q);
                size_t i = 4;
                VB ct = vb(a, i);
                bitLenInt s = B(a[0]), cs = B(a[1]), l = B(a[2]);
                C k = P(a[3]);
                if (ctrl) al->CMUL(k, s, cs, l, ct); else al->MUL(k, s, cs, l);
                if (both) { if (ctrl) al->CDIV(k, s, cs, l, ct); else al->DIV(k, s, cs, l); }
                return A{ c };
            },
            [both](Ref& r, const A& a, const A& o) {
                int s = a[0], cs = a[1], l = a[2]; u64 k = a[3], cm = 0;
                std::string e = proj(r, cs, l, o[0]);
                if (e.size()) return e;
                size_t i0 = 4;
                for (int c : vi(a, i0)) cm |= 1ULL << c;
                r.map([=](u64 i) { i = setr(i, cs, l, 0); if (both || (i & cm) != cm) return i; u64 w = getr(i, s, l) * k; return setr(setr(i, s, l, w), cs, l, w >> l); });
                return std::string();
            } });
    }
    // --- modular, out of place: args in out len k N [controls]
    for (int kind = 0; kind < 8; kind++) {
        static const char* nm[] = { "MULModNOut", "MULIMULModNOut", "POWModNOut", "dMULModNOut", "dMULIMULModNOut", "CMULModNOut", "CMULIMULModNOut", "CPOWModNOut" };
        static const char* nm2[] = { "dCMULModNOut", "dCMULIMULModNOut" };
        for (int d = 0; d < 2; d++) {
            if (d && !(kind == 5 || kind == 6)) continue;
            bool ctrl = kind >= 5, def = d || kind == 3 || kind == 4;
            int what = (kind == 1 || kind == 4 || kind == 6) ? 1 : (kind == 2 || kind == 7) ? 2 : 0;
            add({ d ? nm2[kind - 5] : nm[kind], def ? "addmod" : "alu",
                [ctl, ctrl](Gen& g, A& a) {
                    if (g.n < 2) return false;
                    int l = 1 + g.pick(g.n / 2);
                    std::vector<int> st;
                    if (!g.regs({ l, l }, st)) return false;
                    u64 N = 2 + g.r() % ((1ULL << l) - 1);
                    a = { (double)st[0], (double)st[1], (double)l, (double)(1 + g.r() % (N > 2 ? N - 1 : 1)), (double)N };
                    if (ctrl) ctl(g, { { st[0], l }, { st[1], l } }, 2, a); else a.push_back(0);
                    return true;
                },
                [ctrl, def, what](Q& q, const A& a) {
                    double c = pre(q, a[1], a[2]);
                    size_t i = 5;
                    VB ct = vb(a, i);
                    bitLenInt s = B(a[0]), os = B(a[1]), l = B(a[2]);
                    C k = P(a[3]), N = P(a[4]);
                    for (int t = 0; t < l; t++)
                        if (((u64)c >> t) & 1) q->X(os + t);
                    if (def) {
                        if (ctrl) q->QInterface::CMULModNOut(k, N, s, os, l, ct); else q->QInterface::MULModNOut(k, N, s, os, l);
                        if (what == 1) { if (ctrl) q->QInterface::CIMULModNOut(k, N, s, os, l, ct); else q->QInterface::IMULModNOut(k, N, s, os, l); }
                        return A{ c };
                    }
                    QAluPtr al = AL(q);
                    if (what == 2) { if (ctrl) al->CPOWModNOut(k, N, s, os, l, ct); else al->POWModNOut(k, N, s, os, l); return A{ c }; }
                    if (ctrl) al->CMULModNOut(k, N, s, os, l, ct); else al->MULModNOut(k, N, s, os, l);
                    if (what == 1) { if (ctrl) al->CIMULModNOut(k, N, s, os, l, ct); else al->IMULModNOut(k, N, s, os, l); }
                    return A{ c };
                },
                [what](Ref& r, const A& a, const A& o) {
                    int s = a[0], os = a[1], l = a[2]; u64 k = a[3], N = a[4], cm = 0;
                    std::string e = proj(r, os, l, o[0]);
                    if (e.size()) return e;
                    size_t i0 = 5;
                    for (int c : vi(a, i0)) cm |= 1ULL << c;
                    r.map([=](u64 i) { i = setr(i, os, l, 0); if (what == 1 || (i & cm) != cm) return i; u64 v = getr(i, s, l); return setr(i, os, l, what == 2 ? powmod(k, v, N) : (v * k) % N); });
                    return std::string();
                } });
        }
    }
    // --- table operations: args indexStart indexLen valueStart valueLen carry values...
    for (int kind = 0; kind < 3; kind++) {
        static const char* nm[] = { "IndexedLDA", "IndexedADC", "IndexedSBC" };
        add({ nm[kind], "alu",
            [kind](Gen& g, A& a) {
                if (g.n < 3) return false;
                int il = 1 + g.pick(g.n - 2 > 5 ? 5 : g.n - 2);
                int vl = 1 + g.pick(g.n - il - 1);
                std::vector<int> st;
                if (!g.regs({ il, vl, 1 }, st)) return false;
                a = { (double)st[0], (double)il, (double)st[1], (double)vl, (double)st[2] };
                for (int i = 0; i < (1 << il); i++)
                    a.push_back((double)(g.r() & msk(vl)));
                return true;
            },
            [kind](Q& q, const A& a) {
                QAluPtr al = AL(q);
                int vl = a[3], vbytes = (vl + 7) / 8;
                std::vector<unsigned char> t;
                for (size_t i = 5; i < a.size(); i++)
                    for (int b = 0; b < vbytes; b++)
                        t.push_back((unsigned char)((u64)a[i] >> (8 * b)));
                double c = kind == 0 ? pre(q, a[2], a[3]) : pre(q, a[4], 1);
                if (kind == 0) al->IndexedLDA(B(a[0]), B(a[1]), B(a[2]), B(a[3]), t.data(), true);
                else if (kind == 1) al->IndexedADC(B(a[0]), B(a[1]), B(a[2]), B(a[3]), B(a[4]), t.data());
                else al->IndexedSBC(B(a[0]), B(a[1]), B(a[2]), B(a[3]), B(a[4]), t.data());
                return A{ c };
            },
            [kind](Ref& r, const A& a, const A& o) {
                int is = a[0], il = a[1], vs = a[2], vl = a[3], cb = a[4];
                std::string e = kind == 0 ? proj(r, vs, vl, o[0]) : proj(r, cb, 1, o[0]);
                if (e.size()) return e;
                u64 c = o[0];
                r.map([&](u64 i) {
                    u64 t = (u64)a[5 + getr(i, is, il)], v = getr(i, vs, vl);
                    if (kind == 0) return setr(i, vs, vl, t);
                    u64 w = kind == 1 ? v + t + c : v + (1ULL << vl) - t - (1 - c);
                    return setr(setr(i, vs, vl, w), cb, 1, w >> vl);
                });
                return std::string();
            } });
    }
    add({ "Hash", "alu",
        [](Gen& g, A& a) {
            int l = 1 + g.pick(g.n < 6 ? g.n : 6);
            a = { (double)g.pick(g.n - l + 1), (double)l };
            std::vector<int> p(1 << l);
            for (size_t i = 0; i < p.size(); i++) p[i] = i;
            for (size_t i = 0; i + 1 < p.size(); i++) std::swap(p[i], p[i + g.pick(p.size() - i)]);
            for (int x : p) a.push_back(x);
            return true;
        },
        [](Q& q, const A& a) { std::vector<unsigned char> t; for (size_t i = 2; i < a.size(); i++) t.push_back((unsigned char)a[i]); AL(q)->Hash(B(a[0]), B(a[1]), t.data()); return A(); },
        [](Ref& r, const A& a, const A&) { int s = a[0], l = a[1]; r.map([&](u64 i) { return setr(i, s, l, (u64)a[2 + getr(i, s, l)]); }); return std::string(); } });
    add({ "PhaseFlipIfLess", "alu", [](Gen& g, A& a) { int l = 1 + g.pick(g.n); a = { (double)g.pick(g.n - l + 1), (double)l, (double)(g.r() % ((1ULL << l) + 1)) }; return true; },
        [](Q& q, const A& a) { AL(q)->PhaseFlipIfLess(P(a[2]), B(a[0]), B(a[1])); return A(); },
        [](Ref& r, const A& a, const A&) { r.diag([&](u64 i) { return cd(getr(i, a[0], a[1]) < (u64)a[2] ? -1 : 1); }); return std::string(); } });
    add({ "CPhaseFlipIfLess", "alu", [](Gen& g, A& a) { if (g.n < 2) return false; int l = 1 + g.pick(g.n - 1); std::vector<int> st; if (!g.regs({ l, 1 }, st)) return false; a = { (double)st[0], (double)l, (double)(g.r() % ((1ULL << l) + 1)), (double)st[1] }; return true; },
        [](Q& q, const A& a) { AL(q)->CPhaseFlipIfLess(P(a[2]), B(a[0]), B(a[1]), B(a[3])); return A(); },
        [](Ref& r, const A& a, const A&) { r.diag([&](u64 i) { return cd(getr(i, a[0], a[1]) < (u64)a[2] && ((i >> (int)a[3]) & 1) ? -1 : 1); }); return std::string(); } });
    // --- rotations and shifts: args start len shift
    for (int kind = 0; kind < 6; kind++) {
        static const char* nm[] = { "ROL", "ROR", "dROL", "dROR", "LSL", "LSR" };
        add({ nm[kind], kind < 2 ? "alu" : "add", [](Gen& g, A& a) { int l = 1 + g.pick(g.n); a = { (double)g.pick(g.n - l + 1), (double)l, (double)g.pick(l + 2) }; return true; },
            [kind](Q& q, const A& a) {
                bitLenInt s = B(a[0]), l = B(a[1]), h = B(a[2]);
                double c = kind < 4 ? 0 : pre(q, s, l);
                switch (kind) {
                case 0: q->ROL(h, s, l); break;
                case 1: q->ROR(h, s, l); break;
                case 2: q->QInterface::ROL(h, s, l); break;
                case 3: q->QInterface::ROR(h, s, l); break;
                case 4: q->LSL(h, s, l); break;
                case 5: q->LSR(h, s, l); break;
                }
                return A{ c };
            },
            [kind](Ref& r, const A& a, const A& o) {
                int s = a[0], l = a[1], h = a[2], hm = h % l;
                if (kind >= 4) { std::string e = proj(r, s, l, o[0]); if (e.size()) return e; }
                r.map([=](u64 i) {
                    u64 v = getr(i, s, l), w;
                    if (kind < 4) { int L = kind & 1 ? (l - hm) % l : hm; w = L ? (v << L) | (v >> (l - L)) : v; }
                    else w = kind == 4 ? v << h : v >> h;
                    return setr(i, s, l, w);
                });
                return std::string();
            } });
    }
    // --- classical logic: out ^= f(a,b)
    struct LK { const char* nm; int tt; void (*f)(Q&, bitLenInt, bitLenInt, bitLenInt); };
#define LG(n_, tt_) { #n_, tt_, [](Q& q, bitLenInt a, bitLenInt b, bitLenInt c) { q->n_(a, b, c); } }
    // truth table bit (a + 2b)
    static const LK lk[] = { LG(AND, 8), LG(OR, 14), LG(XOR, 6), LG(NAND, 7), LG(NOR, 1), LG(XNOR, 9) };
    for (auto& k : lk) {
        int tt = k.tt;
        auto f = k.f;
        add({ k.nm, "logic", [](Gen& g, A& a) { if (g.n < 3) return false; for (int x : g.dist(3)) a.push_back(x); if (g.pick(6) == 0) a[1] = a[0]; return true; },
            [f](Q& q, const A& a) { f(q, B(a[0]), B(a[1]), B(a[2])); return A(); },
            [tt](Ref& r, const A& a, const A&) { int x = a[0], y = a[1], z = a[2]; r.map([=](u64 i) { return i ^ ((u64)((tt >> (((i >> x) & 1) + 2 * ((i >> y) & 1))) & 1) << z); }); return std::string(); } });
    }
    struct LC { const char* nm; int tt; void (*f)(Q&, bitLenInt, bool, bitLenInt); };
#define LH(n_, tt_) { #n_, tt_, [](Q& q, bitLenInt a, bool b, bitLenInt c) { q->n_(a, b, c); } }
    static const LC lc[] = { LH(CLAND, 8), LH(CLOR, 14), LH(CLXOR, 6), LH(CLNAND, 7), LH(CLNOR, 1), LH(CLXNOR, 9) };
    for (auto& k : lc) {
        int tt = k.tt;
        auto f = k.f;
        add({ k.nm, "logic", [](Gen& g, A& a) { if (g.n < 2) return false; for (int x : g.dist(2)) a.push_back(x); a.push_back(g.pick(2)); return true; },
            [f](Q& q, const A& a) { f(q, B(a[0]), a[2] != 0, B(a[1])); return A(); },
            [tt](Ref& r, const A& a, const A&) { int x = a[0], z = a[1], y = a[2]; r.map([=](u64 i) { return i ^ ((u64)((tt >> (((i >> x) & 1) + 2 * y)) & 1) << z); }); return std::string(); } });
    }
    // --- full adder: a b carryIn/sum carryOut(=0) [controls]; inverse composes to the identity
    for (int kind = 0; kind < 8; kind++) {
        static const char* nm[] = { "FullAdd", "FullAddInv", "dFullAdd", "dFullAddInv", "CFullAdd", "CFullAddInv", "dCFullAdd", "dCFullAddInv" };
        bool ctrl = kind >= 4, def = kind & 2, inv = kind & 1;
        add({ nm[kind], "logic",
            [ctl, ctrl](Gen& g, A& a) {
                if (g.n < 4) return false;
                auto d = g.dist(4);
                for (int x : d) a.push_back(x);
                if (ctrl) ctl(g, { { d[0], 1 }, { d[1], 1 }, { d[2], 1 }, { d[3], 1 } }, 2, a); else a.push_back(0);
                return true;
            },
            [ctrl, def, inv](Q& q, const A& a) {
                bitLenInt x = B(a[0]), y = B(a[1]), s = B(a[2]), c = B(a[3]);
                size_t i = 4;
                VB ct = vb(a, i);
                double m = pre(q, c, 1);
                if (m) q->X(c);
                if (ctrl) {
                    if (def) q->QInterface::CFullAdd(ct, x, y, s, c); else q->CFullAdd(ct, x, y, s, c);
                    if (inv) { if (def) q->QInterface::CIFullAdd(ct, x, y, s, c); else q->CIFullAdd(ct, x, y, s, c); }
                } else {
                    if (def) q->QInterface::FullAdd(x, y, s, c); else q->FullAdd(x, y, s, c);
                    if (inv) { if (def) q->QInterface::IFullAdd(x, y, s, c); else q->IFullAdd(x, y, s, c); }
                }
                return A{ m };
            },
            [inv](Ref& r, const A& a, const A& o) {
                int x = a[0], y = a[1], s = a[2], c = a[3];
                std::string e = proj(r, c, 1, o[0]);
                if (e.size()) return e;
                u64 cm = 0;
                size_t i0 = 4;
                for (int k : vi(a, i0)) cm |= 1ULL << k;
                r.map([=](u64 i) {
                    i = setr(i, c, 1, 0);
                    if (inv || (i & cm) != cm) return i;
                    u64 w = ((i >> x) & 1) + ((i >> y) & 1) + ((i >> s) & 1);
                    return setr(setr(i, s, 1, w & 1), c, 1, w >> 1);
                });
                return std::string();
            } });
    }
    // --- ripple adder: in1 in2 out(=0) len carry [controls]
    for (int kind = 0; kind < 4; kind++) {
        static const char* nm[] = { "ADC", "ADCInv", "CADC", "CADCInv" };
        bool ctrl = kind >= 2, inv = kind & 1;
        add({ nm[kind], "logic",
            [ctl, ctrl](Gen& g, A& a) {
                if (g.n < 4) return false;
                int l = 1 + g.pick((g.n - 1) / 3);
                std::vector<int> st;
                if (!g.regs({ l, l, l, 1 }, st)) return false;
                a = { (double)st[0], (double)st[1], (double)st[2], (double)l, (double)st[3] };
                if (ctrl) ctl(g, { { st[0], l }, { st[1], l }, { st[2], l }, { st[3], 1 } }, 2, a); else a.push_back(0);
                return true;
            },
            [ctrl, inv](Q& q, const A& a) {
                double m = pre(q, a[2], a[3]);
                for (int t = 0; t < a[3]; t++)
                    if (((u64)m >> t) & 1) q->X(B(a[2] + t));
                size_t i = 5;
                VB ct = vb(a, i);
                bitLenInt x = B(a[0]), y = B(a[1]), z = B(a[2]), l = B(a[3]), c = B(a[4]);
                if (ctrl) { q->CADC(ct, x, y, z, l, c); if (inv) q->CIADC(ct, x, y, z, l, c); }
                else { q->ADC(x, y, z, l, c); if (inv) q->IADC(x, y, z, l, c); }
                return A{ m };
            },
            [inv](Ref& r, const A& a, const A& o) {
                int x = a[0], y = a[1], z = a[2], l = a[3], c = a[4];
                std::string e = proj(r, z, l, o[0]);
                if (e.size()) return e;
                u64 cm = 0;
                size_t i0 = 5;
                for (int k : vi(a, i0)) cm |= 1ULL << k;
                r.map([=](u64 i) {
                    i = setr(i, z, l, 0);
                    if (inv || (i & cm) != cm) return i;
                    u64 w = getr(i, x, l) + getr(i, y, l) + getr(i, c, 1);
                    return setr(setr(i, z, l, w), c, 1, w >> l);
                });
                return std::string();
            } });
    }
}
