// Operation table: how to draw arguments, how to call the real library, what the reference does.
#pragma once
#include "ref.hpp"
#include "qfactory.hpp"
using namespace Qrack;
typedef QInterfacePtr Q;
typedef std::vector<bitLenInt> VB;
struct Gen {
    std::mt19937_64& r;
    int n;
    bool cliff;
    long long hint = -1; // a basis state with a large amplitude, if known
    int pick(int k) { return (int)(r() % (u64)k); }
    double ang()
    {
        static const double sp[] = { 0, PI_, PI_ / 2, -PI_ / 2, PI_ / 4, 2 * PI_, 3 * PI_ };
        if (pick(4) == 0)
            return sp[pick(7)];
        return std::uniform_real_distribution<double>(-6.5, 6.5)(r);
    }
    std::vector<int> dist(int k)
    {
        std::vector<int> p(n);
        for (int i = 0; i < n; i++)
            p[i] = i;
        for (int i = 0; i < n && i < k; i++)
            std::swap(p[i], p[i + pick(n - i)]);
        p.resize(k < n ? k : n);
        return p;
    }
    // k disjoint registers of given lengths at random places; false when they do not fit
    bool regs(const std::vector<int>& len, std::vector<int>& st)
    {
        int tot = 0;
        for (int l : len)
            tot += l;
        if (tot > n)
            return false;
        std::vector<int> ord(len.size());
        for (size_t i = 0; i < ord.size(); i++)
            ord[i] = i;
        for (size_t i = 0; i + 1 < ord.size(); i++)
            std::swap(ord[i], ord[i + pick(ord.size() - i)]);
        int slack = n - tot, pos = 0;
        st.assign(len.size(), 0);
        for (int o : ord) {
            int g = pick(slack + 1);
            slack -= g;
            pos += g;
            st[o] = pos;
            pos += len[o];
        }
        return true;
    }
};
struct Op {
    std::string name, group;
    std::function<bool(Gen&, A&)> gen;
    std::function<A(Q&, const A&)> real;
    std::function<std::string(Ref&, const A&, const A&)> ref;
};
static std::map<std::string, Op> OPS;
static std::vector<std::string> ORDER;
static inline void add(const Op& o)
{
    OPS[o.name] = o;
    ORDER.push_back(o.name);
}
static const double S2 = sqrt(0.5);
static Mat2 mH = mk(S2, S2, S2, -S2), mX = mk(0, 1, 1, 0), mY = mk(0, -I1, I1, 0), mZ = mk(1, 0, 0, -1), mS = mk(1, 0, 0, I1), mIS = mk(1, 0, 0, -I1),
            mT = mk(1, 0, 0, cd(S2, S2)), mIT = mk(1, 0, 0, cd(S2, -S2)), mSX = mk(cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5)),
            mSY = mk(cd(.5, .5), cd(-.5, -.5), cd(.5, .5), cd(.5, .5)), mI = mk(1, 0, 0, 1);
static inline Mat2 mP(cd a, cd b) { return mk(a, 0, 0, b); }
static inline Mat2 mV(cd a, cd b) { return mk(0, a, b, 0); }
static inline cd ex(double t) { return std::polar(1.0, t); }
static inline Mat2 mU(double t, double p, double l) { return mk(cos(t / 2), -ex(l) * sin(t / 2), ex(p) * sin(t / 2), ex(p + l) * cos(t / 2)); }
static inline Mat2 rot(const Mat2& P, double t)
{
    Mat2 o;
    for (int i = 0; i < 4; i++)
        o.m[i] = mI.m[i] * cos(t / 2) - I1 * sin(t / 2) * P.m[i];
    return o;
}
static inline complex cc(cd x) { return complex((real1)x.real(), (real1)x.imag()); }
static inline void c4(const Mat2& u, complex* o)
{
    for (int i = 0; i < 4; i++)
        o[i] = cc(u.m[i]);
}
static inline bitLenInt B(double x) { return (bitLenInt)(long)x; }
static inline bitCapInt P(double x) { return (bitCapInt)(u64)x; }
static inline QParityPtr PA(Q& q)
{
    QParityPtr p = std::dynamic_pointer_cast<QParity>(q);
    if (!p)
        throw std::domain_error("no ALU");
    return p;
}
// vector argument: a[i] = length, then elements; i is advanced
static inline VB vb(const A& a, size_t& i)
{
    VB v;
    int k = (int)a[i++];
    for (int j = 0; j < k; j++)
        v.push_back(B(a[i++]));
    return v;
}
static inline std::vector<int> vi(const A& a, size_t& i)
{
    std::vector<int> v;
    int k = (int)a[i++];
    for (int j = 0; j < k; j++)
        v.push_back((int)a[i++]);
    return v;
}
static inline void pushv(A& a, const std::vector<int>& v, size_t from, size_t to)
{
    a.push_back(to - from);
    for (size_t i = from; i < to; i++)
        a.push_back(v[i]);
}
static inline Mat2 mat(const A& a, size_t i)
{
    return mk(cd(a[i], a[i + 1]), cd(a[i + 2], a[i + 3]), cd(a[i + 4], a[i + 5]), cd(a[i + 6], a[i + 7]));
}
static inline void pushm(A& a, const Mat2& u)
{
    for (int i = 0; i < 4; i++) {
        a.push_back(u.m[i].real());
        a.push_back(u.m[i].imag());
    }
}
static Mat2 cliff1(Gen& g)
{
    Mat2 u = mI;
    int k = g.pick(7);
    for (int i = 0; i < k; i++)
        u = mul(g.pick(2) ? mH : mS, u);
    cd f = ex(g.pick(4) * PI_ / 2);
    for (auto& x : u.m) {
        x *= f;
        // exact values where possible
        if (std::abs(x.real()) < 1e-9)
            x = cd(0, x.imag());
        if (std::abs(x.imag()) < 1e-9)
            x = cd(x.real(), 0);
    }
    return u;
}
static Mat2 anyu(Gen& g)
{
    if (g.cliff)
        return cliff1(g);
    switch (g.pick(6)) {
    case 0:
        return cliff1(g);
    case 1:
        return mP(ex(g.ang()), ex(g.ang()));
    case 2:
        return mV(ex(g.ang()), ex(g.ang()));
    default: {
        Mat2 u = mU(g.ang(), g.ang(), g.ang());
        cd f = ex(g.ang());
        for (auto& x : u.m)
            x *= f;
        return u;
    }
    }
}
// diagonal / anti-diagonal pair (controlled payloads: restricted to Pauli-like phases in Clifford mode)
static inline cd unitc(Gen& g) { return g.cliff ? ex(g.pick(4) * PI_ / 2) : ex(g.ang()); }
static inline cd clean(cd x)
{
    if (std::abs(x.real()) < 1e-9)
        x = cd(0, x.imag());
    if (std::abs(x.imag()) < 1e-9)
        x = cd(x.real(), 0);
    return x;
}
static void addOne(const char* nm, const char* grp, Mat2 u, void (*f)(Q&, bitLenInt))
{
    add({ nm, grp, [](Gen& g, A& a) { a = { (double)g.pick(g.n) }; return g.n >= 1; },
        [f](Q& q, const A& a) { f(q, B(a[0])); return A(); },
        [u](Ref& r, const A& a, const A&) { r.one((int)a[0], u); return std::string(); } });
}
static void addCtl(const char* nm, const char* grp, int nc, u64 perm, Mat2 u, void (*f)(Q&, const A&))
{
    add({ nm, grp,
        [nc](Gen& g, A& a) {
            if (g.n < nc + 1)
                return false;
            for (int x : g.dist(nc + 1))
                a.push_back(x);
            return true;
        },
        [f](Q& q, const A& a) { f(q, a); return A(); },
        [nc, perm, u](Ref& r, const A& a, const A&) {
            std::vector<int> c;
            for (int i = 0; i < nc; i++)
                c.push_back((int)a[i]);
            r.ctl(c, perm, (int)a[nc], u);
            return std::string();
        } });
}
// qubits + angles
static void addAng(const char* nm, const char* grp, int nq, int na, void (*f)(Q&, const A&), std::function<void(Ref&, const A&)> rf)
{
    add({ nm, grp,
        [nq, na](Gen& g, A& a) {
            if (g.n < nq)
                return false;
            for (int x : g.dist(nq))
                a.push_back(x);
            for (int i = 0; i < na; i++)
                a.push_back(g.ang());
            return true;
        },
        [f](Q& q, const A& a) { f(q, a); return A(); }, [rf](Ref& r, const A& a, const A&) { rf(r, a); return std::string(); } });
}
static const cd uSWAP[4][4] = { { 1, 0, 0, 0 }, { 0, 0, 1, 0 }, { 0, 1, 0, 0 }, { 0, 0, 0, 1 } };
static const cd uISWAP[4][4] = { { 1, 0, 0, 0 }, { 0, 0, I1, 0 }, { 0, I1, 0, 0 }, { 0, 0, 0, 1 } };
static const cd uIISWAP[4][4] = { { 1, 0, 0, 0 }, { 0, 0, -I1, 0 }, { 0, -I1, 0, 0 }, { 0, 0, 0, 1 } };
static const cd pp(.5, .5), pm(.5, -.5);
static const cd uSQSW[4][4] = { { 1, 0, 0, 0 }, { 0, pp, pm, 0 }, { 0, pm, pp, 0 }, { 0, 0, 0, 1 } };
static const cd uISQSW[4][4] = { { 1, 0, 0, 0 }, { 0, pm, pp, 0 }, { 0, pp, pm, 0 }, { 0, 0, 0, 1 } };
static void addSwap(const char* nm, const char* grp, const cd (&u)[4][4], void (*f)(Q&, bitLenInt, bitLenInt))
{
    const cd(*up)[4][4] = &u;
    add({ nm, grp,
        [](Gen& g, A& a) {
            if (g.n < 2)
                return false;
            if (g.pick(12) == 0) {
                double q = g.pick(g.n);
                a = { q, q };
                return true;
            }
            for (int x : g.dist(2))
                a.push_back(x);
            return true;
        },
        [f](Q& q, const A& a) { f(q, B(a[0]), B(a[1])); return A(); },
        [up](Ref& r, const A& a, const A&) {
            if (a[0] != a[1])
                r.two({}, 0, (int)a[0], (int)a[1], *up);
            return std::string();
        } });
}
static void addCSwap(const char* nm, const char* grp, bool anti, const cd (&u)[4][4], void (*f)(Q&, const VB&, bitLenInt, bitLenInt))
{
    const cd(*up)[4][4] = &u;
    add({ nm, grp,
        [](Gen& g, A& a) {
            int k = g.pick(3) + (g.pick(8) ? 1 : 0);
            if (g.n < k + 2)
                return false;
            auto d = g.dist(k + 2);
            a = { (double)d[0], (double)d[1] };
            if (g.pick(15) == 0)
                a[1] = a[0];
            pushv(a, d, 2, k + 2);
            return true;
        },
        [f](Q& q, const A& a) {
            size_t i = 2;
            f(q, vb(a, i), B(a[0]), B(a[1]));
            return A();
        },
        [up, anti](Ref& r, const A& a, const A&) {
            size_t i = 2;
            auto c = vi(a, i);
            if (a[0] != a[1])
                r.two(c, anti ? 0 : ~0ULL, (int)a[0], (int)a[1], *up);
            return std::string();
        } });
}
#define ONE(nm, grp, u) addOne(#nm, grp, u, [](Q& q, bitLenInt t) { q->nm(t); })
#define CT1(nm, grp, pm_, u) addCtl(#nm, grp, 1, pm_, u, [](Q& q, const A& a) { q->nm(B(a[0]), B(a[1])); })
#define CT2(nm, grp, pm_, u) addCtl(#nm, grp, 2, pm_, u, [](Q& q, const A& a) { q->nm(B(a[0]), B(a[1]), B(a[2])); })
#define SW(nm, grp, u) addSwap(#nm, grp, u, [](Q& q, bitLenInt x, bitLenInt y) { q->nm(x, y); })
#define CSW(nm, grp, an, u) addCSwap(#nm, grp, an, u, [](Q& q, const VB& c, bitLenInt x, bitLenInt y) { q->nm(c, x, y); })

static void opsGates()
{
    ONE(H, "cliff dec", mH);
    ONE(X, "cliff dec", mX);
    ONE(Y, "cliff dec", mY);
    ONE(Z, "cliff dec", mZ);
    ONE(S, "cliff dec", mS);
    ONE(IS, "cliff dec", mIS);
    ONE(T, "gate dec", mT);
    ONE(IT, "gate dec", mIT);
    ONE(SqrtX, "cliff dec", mSX);
    ONE(ISqrtX, "cliff dec", dag(mSX));
    ONE(SqrtY, "cliff dec", mSY);
    ONE(ISqrtY, "cliff dec", dag(mSY));
    ONE(SH, "cliff dec", mul(mS, mH));
    ONE(HIS, "cliff dec", mul(mH, mIS));
    {
        // sqrt(H) is the principal root (1+i)/2 I + (1-i)/2 H; sqrt(W) is [[1,-sqrt i],[sqrt -i,1]]/sqrt2
        Mat2 sh, sw = mk(S2, cd(-0.5, -0.5), cd(0.5, -0.5), S2);
        for (int i = 0; i < 4; i++) {
            sh.m[i] = pp * mI.m[i] + pm * mH.m[i];
        }
        ONE(SqrtH, "gate dec", sh);
        ONE(SqrtW, "gate dec", sw);
        ONE(ISqrtW, "gate dec", dag(sw));
    }
    CT1(CNOT, "cliff dec", 1, mX);
    CT1(CY, "cliff dec", 1, mY);
    CT1(CZ, "cliff dec", 1, mZ);
    CT1(AntiCNOT, "cliff dec", 0, mX);
    CT1(AntiCY, "cliff dec", 0, mY);
    CT1(AntiCZ, "cliff dec", 0, mZ);
    CT1(CH, "gate dec", 1, mH);
    CT1(AntiCH, "gate dec", 0, mH);
    CT1(CS, "gate dec", 1, mS);
    CT1(AntiCS, "gate dec", 0, mS);
    CT1(CIS, "gate dec", 1, mIS);
    CT1(AntiCIS, "gate dec", 0, mIS);
    CT1(CT, "gate dec", 1, mT);
    CT1(CIT, "gate dec", 1, mIT);
    CT2(CCNOT, "gate dec", 3, mX);
    CT2(AntiCCNOT, "gate dec", 0, mX);
    CT2(CCY, "gate dec", 3, mY);
    CT2(AntiCCY, "gate dec", 0, mY);
    CT2(CCZ, "gate dec", 3, mZ);
    CT2(AntiCCZ, "gate dec", 0, mZ);
    SW(Swap, "cliff swap dec", uSWAP);
    SW(ISwap, "cliff swap dec", uISWAP);
    SW(IISwap, "cliff swap dec", uIISWAP);
    SW(SqrtSwap, "gate swap dec", uSQSW);
    SW(ISqrtSwap, "gate swap dec", uISQSW);
    CSW(CSwap, "gate swap dec", false, uSWAP);
    CSW(AntiCSwap, "gate swap dec", true, uSWAP);
    CSW(CSqrtSwap, "gate swap dec", false, uSQSW);
    CSW(AntiCSqrtSwap, "gate swap dec", true, uSQSW);
    CSW(CISqrtSwap, "gate swap dec", false, uISQSW);
    CSW(AntiCISqrtSwap, "gate swap dec", true, uISQSW);
    addAng("FSim", "gate swap dec", 2, 2, [](Q& q, const A& a) { q->FSim((real1_f)a[2], (real1_f)a[3], B(a[0]), B(a[1])); },
        [](Ref& r, const A& a) {
            cd u[4][4] = { { 1, 0, 0, 0 }, { 0, cos(a[2]), -I1 * sin(a[2]), 0 }, { 0, -I1 * sin(a[2]), cos(a[2]), 0 }, { 0, 0, 0, ex(-a[3]) } };
            r.two({}, 0, (int)a[0], (int)a[1], u);
        });
    addAng("U", "gate dec", 1, 3, [](Q& q, const A& a) { q->U(B(a[0]), (real1_f)a[1], (real1_f)a[2], (real1_f)a[3]); },
        [](Ref& r, const A& a) { r.one((int)a[0], mU(a[1], a[2], a[3])); });
    addAng("U2", "gate dec", 1, 2, [](Q& q, const A& a) { q->U2(B(a[0]), (real1_f)a[1], (real1_f)a[2]); },
        [](Ref& r, const A& a) { r.one((int)a[0], mU(PI_ / 2, a[1], a[2])); });
    addAng("IU2", "gate dec", 1, 2, [](Q& q, const A& a) { q->IU2(B(a[0]), (real1_f)a[1], (real1_f)a[2]); },
        [](Ref& r, const A& a) { r.one((int)a[0], dag(mU(PI_ / 2, a[1], a[2]))); });
    auto ai = [](double az, double in) { return mk(cos(in / 2), -ex(-az) * sin(in / 2), ex(az) * sin(in / 2), cos(in / 2)); };
    addAng("AI", "gate dec", 1, 2, [](Q& q, const A& a) { q->AI(B(a[0]), (real1_f)a[1], (real1_f)a[2]); }, [ai](Ref& r, const A& a) { r.one((int)a[0], ai(a[1], a[2])); });
    addAng("IAI", "gate dec", 1, 2, [](Q& q, const A& a) { q->IAI(B(a[0]), (real1_f)a[1], (real1_f)a[2]); }, [ai](Ref& r, const A& a) { r.one((int)a[0], dag(ai(a[1], a[2]))); });
    addAng("CAI", "gate dec", 2, 2, [](Q& q, const A& a) { q->CAI(B(a[0]), B(a[1]), (real1_f)a[2], (real1_f)a[3]); }, [ai](Ref& r, const A& a) { r.ctl({ (int)a[0] }, 1, (int)a[1], ai(a[2], a[3])); });
    addAng("AntiCAI", "gate dec", 2, 2, [](Q& q, const A& a) { q->AntiCAI(B(a[0]), B(a[1]), (real1_f)a[2], (real1_f)a[3]); }, [ai](Ref& r, const A& a) { r.ctl({ (int)a[0] }, 0, (int)a[1], ai(a[2], a[3])); });
    addAng("CIAI", "gate dec", 2, 2, [](Q& q, const A& a) { q->CIAI(B(a[0]), B(a[1]), (real1_f)a[2], (real1_f)a[3]); }, [ai](Ref& r, const A& a) { r.ctl({ (int)a[0] }, 1, (int)a[1], dag(ai(a[2], a[3]))); });
    addAng("AntiCIAI", "gate dec", 2, 2, [](Q& q, const A& a) { q->AntiCIAI(B(a[0]), B(a[1]), (real1_f)a[2], (real1_f)a[3]); }, [ai](Ref& r, const A& a) { r.ctl({ (int)a[0] }, 0, (int)a[1], dag(ai(a[2], a[3]))); });
    addAng("CU", "gate dec", 3, 3, [](Q& q, const A& a) { q->CU(VB{ B(a[0]), B(a[1]) }, B(a[2]), (real1_f)a[3], (real1_f)a[4], (real1_f)a[5]); },
        [](Ref& r, const A& a) { r.ctl({ (int)a[0], (int)a[1] }, 3, (int)a[2], mU(a[3], a[4], a[5])); });
    addAng("AntiCU", "gate dec", 3, 3, [](Q& q, const A& a) { q->AntiCU(VB{ B(a[0]), B(a[1]) }, B(a[2]), (real1_f)a[3], (real1_f)a[4], (real1_f)a[5]); },
        [](Ref& r, const A& a) { r.ctl({ (int)a[0], (int)a[1] }, 0, (int)a[2], mU(a[3], a[4], a[5])); });
    addAng("RT", "gate dec", 1, 1, [](Q& q, const A& a) { q->RT((real1_f)a[1], B(a[0])); }, [](Ref& r, const A& a) { r.one((int)a[0], mP(1, ex(a[1] / 2))); });
    addAng("RX", "gate dec", 1, 1, [](Q& q, const A& a) { q->RX((real1_f)a[1], B(a[0])); }, [](Ref& r, const A& a) { r.one((int)a[0], rot(mX, a[1])); });
    addAng("RY", "gate dec", 1, 1, [](Q& q, const A& a) { q->RY((real1_f)a[1], B(a[0])); }, [](Ref& r, const A& a) { r.one((int)a[0], rot(mY, a[1])); });
    addAng("RZ", "gate dec", 1, 1, [](Q& q, const A& a) { q->RZ((real1_f)a[1], B(a[0])); }, [](Ref& r, const A& a) { r.one((int)a[0], rot(mZ, a[1])); });
    addAng("CRY", "gate dec", 2, 1, [](Q& q, const A& a) { q->CRY((real1_f)a[2], B(a[0]), B(a[1])); }, [](Ref& r, const A& a) { r.ctl({ (int)a[0] }, 1, (int)a[1], rot(mY, a[2])); });
    addAng("CRZ", "gate dec", 2, 1, [](Q& q, const A& a) { q->CRZ((real1_f)a[2], B(a[0]), B(a[1])); }, [](Ref& r, const A& a) { r.ctl({ (int)a[0] }, 1, (int)a[1], rot(mZ, a[2])); });
    auto rootn = [](const char* nm, int nc, bool inv, bool anti, void (*f)(Q&, const A&)) {
        add({ nm, "gate dec",
            [nc](Gen& g, A& a) {
                if (g.n < nc + 1)
                    return false;
                a.push_back(g.pick(7));
                for (int x : g.dist(nc + 1))
                    a.push_back(x);
                return true;
            },
            [f](Q& q, const A& a) { f(q, a); return A(); },
            [nc, inv, anti](Ref& r, const A& a, const A&) {
                // documented: phase rotation by -2 pi / 2^n; n = 0 is the identity
                double t = a[0] == 0 ? 0 : -PI_ / pow(2.0, a[0] - 1);
                Mat2 u = mP(1, ex(inv ? -t : t));
                std::vector<int> c;
                if (nc)
                    c.push_back((int)a[1]);
                r.ctl(c, anti ? 0 : 1, (int)a[1 + nc], u);
                return std::string();
            } });
    };
    rootn("PhaseRootN", 0, false, false, [](Q& q, const A& a) { q->PhaseRootN(B(a[0]), B(a[1])); });
    rootn("CPhaseRootN", 1, false, false, [](Q& q, const A& a) { q->CPhaseRootN(B(a[0]), B(a[1]), B(a[2])); });
    rootn("AntiCPhaseRootN", 1, false, true, [](Q& q, const A& a) { q->AntiCPhaseRootN(B(a[0]), B(a[1]), B(a[2])); });
    rootn("CIPhaseRootN", 1, true, false, [](Q& q, const A& a) { q->CIPhaseRootN(B(a[0]), B(a[1]), B(a[2])); });
    rootn("AntiCIPhaseRootN", 1, true, true, [](Q& q, const A& a) { q->AntiCIPhaseRootN(B(a[0]), B(a[1]), B(a[2])); });
    // payload gates
    add({ "Mtrx", "cliff pay", [](Gen& g, A& a) { a = { (double)g.pick(g.n) }; pushm(a, anyu(g)); return true; },
        [](Q& q, const A& a) { complex m[4]; c4(mat(a, 1), m); q->Mtrx(m, B(a[0])); return A(); },
        [](Ref& r, const A& a, const A&) { r.one((int)a[0], mat(a, 1)); return std::string(); } });
    struct PK {
        const char* nm;
        int kind;    // 0 matrix 1 phase 2 invert
        int perm;    // 1 ctrl, 0 anti, 2 explicit perm
        void (*f)(Q&, const VB&, const complex*, bitLenInt, const bitCapInt&);
    };
    static const PK pk[] = {
        { "MCMtrx", 0, 1, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt&) { q->MCMtrx(c, m, t); } },
        { "MACMtrx", 0, 0, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt&) { q->MACMtrx(c, m, t); } },
        { "UCMtrx", 0, 2, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt& p) { q->UCMtrx(c, m, t, p); } },
        { "MCPhase", 1, 1, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt&) { q->MCPhase(c, m[0], m[3], t); } },
        { "MACPhase", 1, 0, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt&) { q->MACPhase(c, m[0], m[3], t); } },
        { "UCPhase", 1, 2, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt& p) { q->UCPhase(c, m[0], m[3], t, p); } },
        { "MCInvert", 2, 1, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt&) { q->MCInvert(c, m[1], m[2], t); } },
        { "MACInvert", 2, 0, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt&) { q->MACInvert(c, m[1], m[2], t); } },
        { "UCInvert", 2, 2, [](Q& q, const VB& c, const complex* m, bitLenInt t, const bitCapInt& p) { q->UCInvert(c, m[1], m[2], t, p); } },
    };
    for (auto& k : pk) {
        int kind = k.kind, perm = k.perm;
        auto f = k.f;
        add({ k.nm, "cliff pay",
            [kind, perm](Gen& g, A& a) {
                int nc = g.cliff ? g.pick(2) : g.pick(4);
                if (g.n < nc + 1)
                    return false;
                auto d = g.dist(nc + 1);
                a.push_back(d[nc]);
                a.push_back(perm == 2 ? (double)(g.r() & ((1 << nc) - 1)) : perm == 1 ? (double)((1 << nc) - 1) : 0.0);
                pushv(a, d, 0, nc);
                Mat2 u;
                if (g.cliff && !nc && kind == 0) {
                    // without controls, a tableau refuses payloads that are neither diagonal nor anti-diagonal
                    u = g.pick(2) ? mP(clean(unitc(g)), clean(unitc(g))) : mV(clean(unitc(g)), clean(unitc(g)));
                } else if (g.cliff && nc) {
                    // a controlled payload is Clifford only when it is a Pauli up to a fourth root of unity
                    const Mat2 ps[] = { mI, mX, mY, mZ };
                    cd f = clean(unitc(g));
                    u = kind == 0 ? ps[g.pick(4)] : kind == 1 ? ps[g.pick(2) * 3] : ps[1 + g.pick(2)];
                    for (auto& x : u.m)
                        x *= f;
                } else
                    u = kind == 0 ? anyu(g) : kind == 1 ? mP(clean(unitc(g)), clean(unitc(g))) : mV(clean(unitc(g)), clean(unitc(g)));
                pushm(a, u);
                return true;
            },
            [f](Q& q, const A& a) {
                size_t i = 2;
                VB c = vb(a, i);
                complex m[4];
                c4(mat(a, i), m);
                f(q, c, m, B(a[0]), P(a[1]));
                return A();
            },
            [](Ref& r, const A& a, const A&) {
                size_t i = 2;
                auto c = vi(a, i);
                r.ctl(c, (u64)a[1], (int)a[0], mat(a, i));
                return std::string();
            } });
    }
    add({ "Phase", "cliff pay", [](Gen& g, A& a) { a = { (double)g.pick(g.n) }; pushm(a, mP(clean(unitc(g)), clean(unitc(g)))); return true; },
        [](Q& q, const A& a) { Mat2 u = mat(a, 1); q->Phase(cc(u.m[0]), cc(u.m[3]), B(a[0])); return A(); },
        [](Ref& r, const A& a, const A&) { r.one((int)a[0], mat(a, 1)); return std::string(); } });
    add({ "Invert", "cliff pay", [](Gen& g, A& a) { a = { (double)g.pick(g.n) }; pushm(a, mV(clean(unitc(g)), clean(unitc(g)))); return true; },
        [](Q& q, const A& a) { Mat2 u = mat(a, 1); q->Invert(cc(u.m[1]), cc(u.m[2]), B(a[0])); return A(); },
        [](Ref& r, const A& a, const A&) { r.one((int)a[0], mat(a, 1)); return std::string(); } });
    // masks and parity
    auto mask = [](const char* nm, const char* grp, int extra, void (*f)(Q&, const A&), std::function<void(Ref&, const A&)> rf) {
        add({ nm, grp,
            [extra](Gen& g, A& a) {
                u64 m = g.r() & ((1ULL << g.n) - 1);
                if (g.pick(4) == 0)
                    m = 1ULL << g.pick(g.n);
                if (!m)
                    m = 1;
                a = { (double)m };
                if (extra == 1)
                    a.push_back(g.ang());
                if (extra == 2)
                    a.push_back(g.pick(6));
                return true;
            },
            [f](Q& q, const A& a) { f(q, a); return A(); }, [rf](Ref& r, const A& a, const A&) { rf(r, a); return std::string(); } });
    };
    mask("XMask", "cliff mask dec", 0, [](Q& q, const A& a) { q->XMask(P(a[0])); }, [](Ref& r, const A& a) { u64 m = (u64)a[0]; r.map([m](u64 i) { return i ^ m; }); });
    mask("ZMask", "cliff mask dec gph", 0, [](Q& q, const A& a) { q->ZMask(P(a[0])); }, [](Ref& r, const A& a) { u64 m = (u64)a[0]; r.diag([m](u64 i) { return cd(pop(i & m) & 1 ? -1 : 1); }); });
    mask("YMask", "cliff mask dec gph", 0, [](Q& q, const A& a) { q->YMask(P(a[0])); },
        [](Ref& r, const A& a) { for (int t = 0; t < r.n; t++) if (((u64)a[0] >> t) & 1) r.one(t, mY); });
    mask("PhaseRootNMask", "gate mask dec gph", 2, [](Q& q, const A& a) { q->PhaseRootNMask(B(a[1]), P(a[0])); },
        [](Ref& r, const A& a) { double t = a[1] == 0 ? 0 : -PI_ / pow(2.0, a[1] - 1); u64 m = (u64)a[0]; r.diag([m, t](u64 i) { return ex(t * pop(i & m)); }); });
    mask("PhaseParity", "gate mask dec", 1, [](Q& q, const A& a) { q->PhaseParity((real1_f)a[1], P(a[0])); },
        [](Ref& r, const A& a) { u64 m = (u64)a[0]; double t = a[1] / 2; r.diag([m, t](u64 i) { return ex(pop(i & m) & 1 ? t : -t); }); });
    mask("UniformParityRZ", "gate mask", 1, [](Q& q, const A& a) { PA(q)->UniformParityRZ(P(a[0]), (real1_f)a[1]); },
        [](Ref& r, const A& a) { u64 m = (u64)a[0]; double t = a[1]; r.diag([m, t](u64 i) { return ex(pop(i & m) & 1 ? t : -t); }); });
    add({ "CUniformParityRZ", "gate mask",
        [](Gen& g, A& a) {
            if (g.n < 2)
                return false;
            int nc = 1 + g.pick(g.n - 1 < 3 ? g.n - 1 : 3);
            auto d = g.dist(g.n);
            u64 m = 0;
            for (size_t i = nc; i < d.size(); i++)
                if (g.pick(2) || (i == (size_t)nc))
                    m |= 1ULL << d[i];
            a = { (double)m, g.ang() };
            pushv(a, d, 0, nc);
            return true;
        },
        [](Q& q, const A& a) { size_t i = 2; VB c = vb(a, i); PA(q)->CUniformParityRZ(c, P(a[0]), (real1_f)a[1]); return A(); },
        [](Ref& r, const A& a, const A&) {
            size_t i = 2;
            auto c = vi(a, i);
            u64 cm = 0, m = (u64)a[0];
            for (int x : c)
                cm |= 1ULL << x;
            double t = a[1];
            r.diag([cm, m, t](u64 k) { return (k & cm) == cm ? ex(pop(k & m) & 1 ? t : -t) : cd(1); });
            return std::string();
        } });
    // uniformly controlled
    struct UK { const char* nm; int kind; };
    static const UK uk[] = { { "UniformlyControlledSingleBit", 0 }, { "UniformlyControlledRY", 1 }, { "UniformlyControlledRZ", 2 }, { "UCSBSkip", 3 } };
    for (auto& k : uk) {
        int kind = k.kind;
        add({ k.nm, "gate uni dec",
            [kind](Gen& g, A& a) {
                int nc = g.pick(4);
                if (g.n < nc + 1)
                    return false;
                auto d = g.dist(nc + 1);
                a.push_back(d[nc]);
                pushv(a, d, 0, nc);
                int sk = kind == 3 ? 1 : 0;
                if (kind == 3) {
                    a.push_back(g.pick(nc + 1)); // skipped bit position
                    a.push_back(g.pick(2));      // its value
                }
                for (int i = 0; i < (1 << (nc + sk)); i++) {
                    if (kind == 0 || kind == 3)
                        pushm(a, anyu(g));
                    else
                        a.push_back(g.ang());
                }
                return true;
            },
            [kind](Q& q, const A& a) {
                size_t i = 1;
                VB c = vb(a, i);
                bitLenInt t = B(a[0]);
                if (kind == 0 || kind == 3) {
                    bitCapInt pw = 0, val = 0;
                    int sk = 0;
                    if (kind == 3) {
                        pw = pow2(B(a[i]));
                        val = a[i + 1] ? pw : ZERO_BCI;
                        i += 2;
                        sk = 1;
                    }
                    std::vector<complex> m(4ULL << (c.size() + sk));
                    for (size_t j = 0; j < m.size() / 4; j++)
                        c4(mat(a, i + 8 * j), &m[4 * j]);
                    if (kind == 3)
                        q->UniformlyControlledSingleBit(c, t, m.data(), std::vector<bitCapInt>{ pw }, val);
                    else
                        q->UniformlyControlledSingleBit(c, t, m.data());
                } else {
                    std::vector<real1> an;
                    for (; i < a.size(); i++)
                        an.push_back((real1)a[i]);
                    if (kind == 1)
                        q->UniformlyControlledRY(c, t, an.data());
                    else
                        q->UniformlyControlledRZ(c, t, an.data());
                }
                return A();
            },
            [kind](Ref& r, const A& a, const A&) {
                size_t i = 1;
                auto c = vi(a, i);
                u64 pw = 0, val = 0;
                if (kind == 3) {
                    pw = (u64)a[i];
                    val = (u64)a[i + 1];
                    i += 2;
                }
                for (u64 k = 0; k < (1ULL << c.size()); k++) {
                    u64 idx = k;
                    if (kind == 3)
                        idx = (k & ((1ULL << pw) - 1)) | (val << pw) | ((k >> pw) << (pw + 1));
                    Mat2 u = (kind == 0 || kind == 3) ? mat(a, i + 8 * idx) : rot(kind == 1 ? mY : mZ, a[i + k]);
                    r.ctl(c, k, (int)a[0], u);
                }
                return std::string();
            } });
    }
    // register phases / transforms
    auto rg = [](const char* nm, const char* grp, void (*f)(Q&, const A&), std::function<void(Ref&, const A&)> rf) {
        add({ nm, grp,
            [](Gen& g, A& a) {
                int l = 1 + g.pick(g.n);
                a = { (double)g.pick(g.n - l + 1), (double)l };
                return true;
            },
            [f](Q& q, const A& a) { f(q, a); return A(); }, [rf](Ref& r, const A& a, const A&) { rf(r, a); return std::string(); } });
    };
    rg("ZeroPhaseFlip", "gate reg dec", [](Q& q, const A& a) { q->ZeroPhaseFlip(B(a[0]), B(a[1])); }, [](Ref& r, const A& a) { r.diag([&](u64 i) { return cd(getr(i, a[0], a[1]) ? 1 : -1); }); });
    rg("Reverse", "cliff reg dec", [](Q& q, const A& a) { q->Reverse(B(a[0]), B(a[0] + a[1])); },
        [](Ref& r, const A& a) { int s = a[0], l = a[1]; r.map([s, l](u64 i) { u64 v = getr(i, s, l), w = 0; for (int k = 0; k < l; k++) if ((v >> k) & 1) w |= 1ULL << (l - 1 - k); return setr(i, s, l, w); }); });
    rg("HReg", "cliff reg dec", [](Q& q, const A& a) { q->H(B(a[0]), B(a[1])); }, [](Ref& r, const A& a) { for (int k = 0; k < a[1]; k++) r.one(a[0] + k, mH); });
    rg("XReg", "cliff reg dec", [](Q& q, const A& a) { q->X(B(a[0]), B(a[1])); }, [](Ref& r, const A& a) { for (int k = 0; k < a[1]; k++) r.one(a[0] + k, mX); });
    auto qft = [](Ref& r, const std::vector<int>& qs, bool inv) {
        // |v> -> 2^{-L/2} sum_w exp(-2 pi i v w / 2^L)|rev-ordered w>; the library leaves the output in bit-reversed order:
        // qubit k of the output register carries weight 2^{L-1-k}.
        int L = qs.size();
        u64 D = 1ULL << L;
        u64 msk = 0;
        for (int x : qs)
            msk |= 1ULL << x;
        auto put = [&](u64 v) { u64 o = 0; for (int k = 0; k < L; k++) if ((v >> k) & 1) o |= 1ULL << qs[k]; return o; };
        auto rev = [&](u64 v) { u64 o = 0; for (int k = 0; k < L; k++) if ((v >> k) & 1) o |= 1ULL << (L - 1 - k); return o; };
        std::vector<cd> b(r.N());
        for (u64 base = 0; base < r.N(); base++) {
            if (base & msk)
                continue;
            for (u64 v = 0; v < D; v++)
                for (u64 w = 0; w < D; w++) {
                    double t = -2 * PI_ * (double)((v * w) % D) / D;
                    if (!inv)
                        b[base | put(rev(w))] += r.a[base | put(v)] * ex(t) / sqrt((double)D);
                    else
                        b[base | put(v)] += r.a[base | put(rev(w))] * ex(-t) / sqrt((double)D);
                }
        }
        r.a.swap(b);
    };
    auto rl = [](const A& a) { std::vector<int> v; for (int k = 0; k < a[1]; k++) v.push_back(a[0] + k); return v; };
    (void)qft;
    (void)rl;
    struct TK { const char* nm; bool inv; };
    rg("QFT", "gate reg dec", [](Q& q, const A& a) { q->QFT(B(a[0]), B(a[1])); }, [qft, rl](Ref& r, const A& a) { qft(r, rl(a), false); });
    rg("IQFT", "gate reg dec", [](Q& q, const A& a) { q->IQFT(B(a[0]), B(a[1])); }, [qft, rl](Ref& r, const A& a) { qft(r, rl(a), true); });
    for (int inv = 0; inv < 2; inv++)
        add({ inv ? "IQFTR" : "QFTR", "gate reg dec",
            [](Gen& g, A& a) { int k = 1 + g.pick(g.n); auto d = g.dist(k); pushv(a, d, 0, k); return true; },
            [inv](Q& q, const A& a) { size_t i = 0; VB v = vb(a, i); if (inv) q->IQFTR(v); else q->QFTR(v); return A(); },
            [inv, qft](Ref& r, const A& a, const A&) { size_t i = 0; qft(r, vi(a, i), inv); return std::string(); } });
    add({ "PhaseFlip", "gate reg dec", [](Gen& g, A&) { return g.n > 0; }, [](Q& q, const A&) { q->PhaseFlip(); return A(); },
        [](Ref& r, const A&, const A&) { r.diag([](u64) { return cd(-1); }); return std::string(); } });
}

// ---------------------------------------------------------------- measurement, probabilities
static const double TOLP = 2e-3;
static std::string near(double got, double want, const char* what, double tol = TOLP)
{
    if (std::abs(got - want) <= tol)
        return "";
    char b[200];
    snprintf(b, sizeof b, "%s = %.6f, expected %.6f", what, got, want);
    return b;
}
static void opsMeas()
{
    auto g1 = [](Gen& g, A& a) { a = { (double)g.pick(g.n) }; return true; };
    add({ "Prob", "prob", g1, [](Q& q, const A& a) { return A{ (double)q->Prob(B(a[0])) }; },
        [](Ref& r, const A& a, const A& o) { int t = a[0]; return near(o[0], r.prob([t](u64 i) { return (i >> t) & 1; }), "Prob"); } });
    for (int anti = 0; anti < 2; anti++)
        add({ anti ? "ACProb" : "CProb", "prob",
            [](Gen& g, A& a) { if (g.n < 2) return false; for (int x : g.dist(2)) a.push_back(x); return true; },
            [anti](Q& q, const A& a) { return A{ (double)(anti ? q->ACProb(B(a[0]), B(a[1])) : q->CProb(B(a[0]), B(a[1]))) }; },
            [anti](Ref& r, const A& a, const A& o) {
                int c = a[0], t = a[1];
                double pc = r.prob([&](u64 i) { return ((i >> c) & 1) != (u64)anti; });
                double pb = r.prob([&](u64 i) { return ((i >> c) & 1) != (u64)anti && ((i >> t) & 1); });
                if (pc < 1e-3)
                    return std::string();
                return near(o[0], pb / pc, "CProb", 1e-2);
            } });
    add({ "ProbAll", "prob", [](Gen& g, A& a) { a = { (double)g.pick(1 << g.n) }; return true; }, [](Q& q, const A& a) { return A{ (double)q->ProbAll(P(a[0])) }; },
        [](Ref& r, const A& a, const A& o) { return near(o[0], std::norm(r.a[(u64)a[0]]), "ProbAll"); } });
    add({ "GetAmplitude", "prob", [](Gen& g, A& a) { a = { (double)g.pick(1 << g.n) }; return true; },
        [](Q& q, const A& a) { complex c = q->GetAmplitude(P(a[0])); return A{ (double)c.real(), (double)c.imag() }; },
        [](Ref& r, const A& a, const A& o) { return near(std::norm(cd(o[0], o[1])), std::norm(r.a[(u64)a[0]]), "|GetAmplitude|^2"); } });
    add({ "ProbReg", "prob", [](Gen& g, A& a) { int l = 1 + g.pick(g.n); a = { (double)g.pick(g.n - l + 1), (double)l, (double)g.pick(1 << l) }; if (g.hint >= 0 && g.pick(2)) a[2] = (double)(((u64)g.hint >> (u64)a[0]) & ((1ULL << l) - 1)); return true; },
        [](Q& q, const A& a) { return A{ (double)q->ProbReg(B(a[0]), B(a[1]), P(a[2])) }; },
        [](Ref& r, const A& a, const A& o) { return near(o[0], r.prob([&](u64 i) { return getr(i, a[0], a[1]) == (u64)a[2]; }), "ProbReg"); } });
    add({ "ProbMask", "prob", [](Gen& g, A& a) { u64 m = 1 + g.pick((1 << g.n) - 1); a = { (double)m, (double)(g.hint >= 0 && g.pick(2) ? (u64)g.hint & m : g.r() & m) }; return true; },
        [](Q& q, const A& a) { return A{ (double)q->ProbMask(P(a[0]), P(a[1])) }; },
        [](Ref& r, const A& a, const A& o) { u64 m = a[0], p = a[1]; return near(o[0], r.prob([&](u64 i) { return (i & m) == p; }), "ProbMask"); } });
    add({ "ProbParity", "prob par", [](Gen& g, A& a) { u64 m = 1 + g.pick((1 << g.n) - 1); a = { (double)m }; return true; },
        [](Q& q, const A& a) { return A{ (double)PA(q)->ProbParity(P(a[0])) }; },
        [](Ref& r, const A& a, const A& o) { u64 m = a[0]; return near(o[0], r.prob([&](u64 i) { return pop(i & m) & 1; }), "ProbParity"); } });
    add({ "ProbMaskAll", "prob", [](Gen& g, A& a) { u64 m = 1 + g.pick((1 << g.n) - 1); a = { (double)m }; return true; },
        [](Q& q, const A& a) { std::vector<real1> p(1ULL << pop((u64)a[0])); q->ProbMaskAll(P(a[0]), p.data()); return A(p.begin(), p.end()); },
        [](Ref& r, const A& a, const A& o) {
            std::vector<int> qs;
            for (int t = 0; t < r.n; t++)
                if (((u64)a[0] >> t) & 1)
                    qs.push_back(t);
            for (u64 v = 0; v < o.size(); v++) {
                std::string e = near(o[v], r.prob([&](u64 i) { for (size_t k = 0; k < qs.size(); k++) if (((i >> qs[k]) & 1) != ((v >> k) & 1)) return false; return true; }), "ProbMaskAll entry");
                if (e.size())
                    return e;
            }
            return std::string();
        } });
    add({ "ProbBitsAll", "prob", [](Gen& g, A& a) { int k = 1 + g.pick(g.n); auto d = g.dist(k); pushv(a, d, 0, k); return true; },
        [](Q& q, const A& a) { size_t i = 0; VB v = vb(a, i); std::vector<real1> p(1ULL << v.size()); q->ProbBitsAll(v, p.data()); return A(p.begin(), p.end()); },
        [](Ref& r, const A& a, const A& o) {
            size_t i0 = 0;
            auto qs = vi(a, i0);
            for (u64 v = 0; v < o.size(); v++) {
                std::string e = near(o[v], r.prob([&](u64 i) { for (size_t k = 0; k < qs.size(); k++) if (((i >> qs[k]) & 1) != ((v >> k) & 1)) return false; return true; }), "ProbBitsAll entry");
                if (e.size())
                    return e;
            }
            return std::string();
        } });
    add({ "GetProbs", "prob", [](Gen&, A&) { return true; }, [](Q& q, const A&) { std::vector<real1> p((size_t)q->GetMaxQPower()); q->GetProbs(p.data()); return A(p.begin(), p.end()); },
        [](Ref& r, const A&, const A& o) {
            for (u64 v = 0; v < o.size(); v++) {
                std::string e = near(o[v], std::norm(r.a[v]), "GetProbs entry");
                if (e.size())
                    return e;
            }
            return std::string();
        } });
    auto bitsval = [](u64 i, const std::vector<int>& qs) { double v = 0; for (size_t k = 0; k < qs.size(); k++) if ((i >> qs[k]) & 1) v += (double)(1ULL << k); return v; };
    for (int var = 0; var < 2; var++) {
        add({ var ? "VarianceBitsAll" : "ExpectationBitsAll", "prob exp",
            [](Gen& g, A& a) { int k = 1 + g.pick(g.n); auto d = g.dist(k); a = { (double)g.pick(4) }; pushv(a, d, 0, k); return true; },
            [var](Q& q, const A& a) { size_t i = 1; VB v = vb(a, i); return A{ (double)(var ? q->VarianceBitsAll(v, P(a[0])) : q->ExpectationBitsAll(v, P(a[0]))) }; },
            [var, bitsval](Ref& r, const A& a, const A& o) {
                size_t i0 = 1;
                auto qs = vi(a, i0);
                double e = 0, e2 = 0;
                for (u64 i = 0; i < r.N(); i++) {
                    double v = bitsval(i, qs) + a[0];
                    e += v * std::norm(r.a[i]);
                    e2 += v * v * std::norm(r.a[i]);
                }
                double w = var ? e2 - e * e : e;
                return near(o[0], w, var ? "VarianceBitsAll" : "ExpectationBitsAll", 1e-2 * (1 + std::abs(w) + (var ? e * e : 0)));
            } });
        for (int fl = 0; fl < 2; fl++)
            add({ std::string(var ? "Variance" : "Expectation") + (fl ? "FloatsFactorized" : "BitsFactorized"), "prob exp",
                [fl](Gen& g, A& a) {
                    int k = 1 + g.pick(g.n);
                    auto d = g.dist(k);
                    pushv(a, d, 0, k);
                    for (int i = 0; i < 2 * k; i++)
                        a.push_back(fl ? (double)(g.pick(41) - 20) / 8 : (double)g.pick(9));
                    return true;
                },
                [var, fl](Q& q, const A& a) {
                    size_t i = 0;
                    VB v = vb(a, i);
                    double x;
                    if (fl) {
                        std::vector<real1_f> w;
                        for (; i < a.size(); i++)
                            w.push_back((real1_f)a[i]);
                        x = var ? q->VarianceFloatsFactorized(v, w) : q->ExpectationFloatsFactorized(v, w);
                    } else {
                        std::vector<bitCapInt> w;
                        for (; i < a.size(); i++)
                            w.push_back(P(a[i]));
                        x = var ? q->VarianceBitsFactorized(v, w) : q->ExpectationBitsFactorized(v, w);
                    }
                    return A{ x };
                },
                [var](Ref& r, const A& a, const A& o) {
                    size_t i0 = 0;
                    auto qs = vi(a, i0);
                    double e = 0, e2 = 0;
                    for (u64 i = 0; i < r.N(); i++) {
                        double v = 0;
                        for (size_t k = 0; k < qs.size(); k++)
                            v += a[i0 + 2 * k + ((i >> qs[k]) & 1)];
                        e += v * std::norm(r.a[i]);
                        e2 += v * v * std::norm(r.a[i]);
                    }
                    double w = var ? e2 - e * e : e;
                    return near(o[0], w, var ? "variance" : "expectation", 1e-2 * (1 + std::abs(w) + e * e));
                } });
        add({ var ? "VariancePauliAll" : "ExpectationPauliAll", "prob exp",
            [](Gen& g, A& a) { int k = 1 + g.pick(g.n); auto d = g.dist(k); pushv(a, d, 0, k); for (int i = 0; i < k; i++) a.push_back(g.pick(4)); return true; },
            [var](Q& q, const A& a) {
                size_t i = 0;
                VB v = vb(a, i);
                static const Pauli pl[4] = { PauliI, PauliX, PauliY, PauliZ };
                std::vector<Pauli> p;
                for (; i < a.size(); i++)
                    p.push_back(pl[(int)a[i]]);
                return A{ (double)(var ? q->VariancePauliAll(v, p) : q->ExpectationPauliAll(v, p)) };
            },
            [var](Ref& r, const A& a, const A& o) {
                size_t i0 = 0;
                auto qs = vi(a, i0);
                Ref s = r;
                const Mat2 pm4[4] = { mI, mX, mY, mZ };
                for (size_t k = 0; k < qs.size(); k++)
                    s.one(qs[k], pm4[(int)a[i0 + k]]);
                cd e = 0;
                for (u64 i = 0; i < r.N(); i++)
                    e += std::conj(r.a[i]) * s.a[i];
                double w = var ? 1 - e.real() * e.real() : e.real();
                return near(o[0], w, var ? "VariancePauliAll" : "ExpectationPauliAll", 1e-2);
            } });
    }
    // ---- measurement: the outcome reported must be possible, and the state must be the projection
    add({ "M", "meas", g1, [](Q& q, const A& a) { return A{ (double)q->M(B(a[0])) }; },
        [](Ref& r, const A& a, const A& o) {
            int t = a[0];
            u64 b = (u64)o[0];
            auto f = [t, b](u64 i) { return ((i >> t) & 1) == b; };
            if (r.prob(f) < 1e-5)
                return std::string("M reported an outcome of probability 0");
            r.project(f);
            return std::string();
        } });
    add({ "ForceM", "meas", [](Gen& g, A& a) { a = { (double)g.pick(g.n), (double)g.pick(2), (double)(g.pick(4) != 0) }; return true; },
        [](Q& q, const A& a) {
            // impossible outcomes are refused, not forced: only ask for a clearly possible one
            double p = q->Prob(B(a[0]));
            bool v = a[1] != 0;
            if ((v ? p : 1 - p) < 0.02)
                v = !v;
            return A{ (double)q->ForceM(B(a[0]), v, true, a[2] != 0), (double)v };
        },
        [](Ref& r, const A& a, const A& o) {
            int t = a[0];
            u64 b = (u64)o[0];
            if (o[0] != o[1])
                return std::string("ForceM returned another value than the forced one");
            if (a[2] != 0)
                r.project([t, b](u64 i) { return ((i >> t) & 1) == b; });
            return std::string();
        } });
    add({ "ForceMReg", "meas", [](Gen& g, A& a) { int l = 1 + g.pick(g.n); a = { (double)g.pick(g.n - l + 1), (double)l, (double)g.pick(1 << l), (double)g.pick(2) }; return true; },
        [](Q& q, const A& a) {
            bool force = a[3] != 0 && q->ProbReg(B(a[0]), B(a[1]), P(a[2])) > 0.02;
            bitCapInt v = q->ForceMReg(B(a[0]), B(a[1]), P(a[2]), force);
            return A{ (double)(u64)v, (double)force };
        },
        [](Ref& r, const A& a, const A& o) {
            u64 v = (u64)o[0];
            if (o[1] && v != (u64)a[2])
                return std::string("ForceMReg returned another value than the forced one");
            auto f = [&](u64 i) { return getr(i, a[0], a[1]) == v; };
            if (r.prob(f) < 1e-5)
                return std::string("ForceMReg reported an outcome of probability 0");
            r.project(f);
            return std::string();
        } });
    add({ "MBits", "meas", [](Gen& g, A& a) { int k = 1 + g.pick(g.n); auto d = g.dist(k); pushv(a, d, 0, k); return true; },
        [](Q& q, const A& a) { size_t i = 0; VB v = vb(a, i); return A{ (double)(u64)q->M(v) }; },
        [](Ref& r, const A& a, const A& o) {
            size_t i0 = 0;
            auto qs = vi(a, i0);
            u64 m = 0, v = 0, res = (u64)o[0];
            for (size_t k = 0; k < qs.size(); k++)
                m |= 1ULL << qs[k];
            v = res & m;
            if (res != v)
                return std::string("M(bits) reported a bit that was not measured");
            auto f = [&](u64 i) { return (i & m) == v; };
            if (r.prob(f) < 1e-5)
                return std::string("M(bits) reported an outcome of probability 0");
            r.project(f);
            return std::string();
        } });
    add({ "ForceMParity", "meas par", [](Gen& g, A& a) { u64 m = 1 + g.pick((1 << g.n) - 1); a = { (double)m, (double)g.pick(2), (double)g.pick(2) }; return true; },
        [](Q& q, const A& a) {
            QParityPtr p = PA(q);
            double pr = p->ProbParity(P(a[0]));
            bool v = a[1] != 0;
            if ((v ? pr : 1 - pr) < 0.02)
                v = !v;
            bool r = a[2] ? p->ForceMParity(P(a[0]), v, true) : p->MParity(P(a[0]));
            return A{ (double)r, (double)v };
        },
        [](Ref& r, const A& a, const A& o) {
            u64 m = (u64)a[0], b = (u64)o[0];
            if (a[2] && o[0] != o[1])
                return std::string("ForceMParity returned another value than the forced one");
            auto f = [&](u64 i) { return (u64)(pop(i & m) & 1) == b; };
            if (r.prob(f) < 1e-5)
                return std::string("ForceMParity reported an outcome of probability 0");
            r.project(f);
            return std::string();
        } });
    add({ "MAll", "measall", [](Gen&, A&) { return true; }, [](Q& q, const A&) { return A{ (double)(u64)q->MAll() }; },
        [](Ref& r, const A&, const A& o) {
            u64 v = (u64)o[0];
            if (v >= r.N() || std::norm(r.a[v]) < 1e-6)
                return std::string("MAll reported an outcome of probability 0");
            r.project([v](u64 i) { return i == v; });
            return std::string();
        } });
    add({ "MultiShot", "meas", [](Gen& g, A& a) { int k = 1 + g.pick(g.n); auto d = g.dist(k); pushv(a, d, 0, k); return true; },
        [](Q& q, const A& a) {
            size_t i = 0;
            VB v = vb(a, i);
            std::vector<bitCapInt> p;
            for (auto b : v)
                p.push_back(pow2(b));
            A o;
            for (auto& kv : q->MultiShotMeasureMask(p, 64)) {
                o.push_back((double)(u64)kv.first);
                o.push_back(kv.second);
            }
            return o;
        },
        [](Ref& r, const A& a, const A& o) {
            size_t i0 = 0;
            auto qs = vi(a, i0);
            double tot = 0;
            for (size_t j = 0; j + 1 < o.size(); j += 2) {
                u64 v = (u64)o[j];
                tot += o[j + 1];
                double p = r.prob([&](u64 i) { for (size_t k = 0; k < qs.size(); k++) if (((i >> qs[k]) & 1) != ((v >> k) & 1)) return false; return true; });
                if (p < 1e-6)
                    return std::string("MultiShotMeasureMask reported an outcome of probability 0");
                // Hoeffding-style bound with a failure probability far below 1e-12
                if (std::abs(o[j + 1] / 64 - p) > 0.55)
                    return std::string("MultiShotMeasureMask frequency far from the probability");
            }
            return tot == 64 ? std::string() : std::string("MultiShotMeasureMask lost shots");
        } });
    add({ "SetBit", "meas", [](Gen& g, A& a) { a = { (double)g.pick(g.n), (double)g.pick(2) }; return true; },
        [](Q& q, const A& a) { double p0 = q->Prob(B(a[0])); q->SetBit(B(a[0]), a[1] != 0); return A{ p0 }; },
        [](Ref& r, const A& a, const A& o) {
            // only checked from a definite bit (otherwise the discarded outcome is unknown): see the driver's resync flag
            int t = a[0];
            double p = r.prob([t](u64 i) { return (i >> t) & 1; });
            if (p > 1e-5 && p < 1 - 1e-5)
                return std::string("RESYNC");
            if ((p > 0.5) != (a[1] != 0))
                r.one(t, mX);
            return std::string();
        } });
}
