// Structural operations: compose, decompose, dispose, allocate, clone, state access.
#pragma once
#include "ops2.hpp"
static std::function<Q(int, u64)> MAKE; // builds a register of the stack under test
static std::vector<cd> grab(Q& q)
{
    std::vector<complex> v((size_t)q->GetMaxQPower());
    q->GetQuantumState(v.data());
    std::vector<cd> o(v.size());
    for (size_t i = 0; i < v.size(); i++)
        o[i] = cd(v[i].real(), v[i].imag());
    return o;
}
// random product/entangled register built from gates every stack accepts
static Q other(int m, u64 seed, bool cliff)
{
    std::mt19937_64 r(seed);
    Q o = MAKE(m, r() & msk(m));
    int k = (int)(r() % 7);
    for (int i = 0; i < k; i++) {
        int t = (int)(r() % m), c = (int)(r() % m);
        switch (r() % (cliff ? 4 : 6)) {
        case 0: o->H((bitLenInt)t); break;
        case 1: o->S((bitLenInt)t); break;
        case 2: if (c != t) o->CNOT((bitLenInt)c, (bitLenInt)t); break;
        case 3: o->X((bitLenInt)t); break;
        case 4: o->RY((real1_f)(0.3 + (double)(r() % 100) / 30), (bitLenInt)t); break;
        case 5: o->T((bitLenInt)t); break;
        }
    }
    return o;
}
static A flat(const std::vector<cd>& v)
{
    A o;
    for (auto& x : v) {
        o.push_back(x.real());
        o.push_back(x.imag());
    }
    return o;
}
static Ref unflat(const A& o, size_t from, int m)
{
    Ref r(m);
    for (u64 i = 0; i < r.N(); i++)
        r.a[i] = cd(o[from + 2 * i], o[from + 2 * i + 1]);
    return r;
}
static int MAXN = 8;
static void opsStruct()
{
    // args: m seed start(-1: end) cliff
    auto gcomp = [](Gen& g, A& a) {
        int m = 1 + g.pick(3);
        if (g.n + m > MAXN)
            return false;
        a = { (double)m, (double)(g.r() % 1000000), (double)(g.pick(g.n + 2) - 1), (double)g.cliff };
        return true;
    };
    // kinds: 0 Compose; 1 Compose then Decompose(start, dest); 2 then Decompose(start,len); 3 then Dispose(start,len); 4 then TryDecompose
    // 5 compose a permutation then Dispose(start,len,perm)
    static const char* nm[] = { "Compose", "ComposeDecompose", "ComposeDecomposeNew", "ComposeDispose", "ComposeTryDecompose", "ComposeDisposePerm", "ComposeNoClone" };
    for (int kind = 0; kind < 7; kind++)
        add({ nm[kind], kind == 4 ? "comp tryd" : "comp", gcomp,
            [kind](Q& q, const A& a) {
                int m = a[0], st = a[2] < 0 ? q->GetQubitCount() : (int)a[2];
                Q o;
                u64 pm = (u64)a[1] & msk(m);
                if (kind == 5)
                    o = MAKE(m, pm);
                else
                    o = other(m, (u64)a[1], a[3] != 0);
                A out = flat(grab(o));
                if (kind == 6) {
                    if (q->ComposeNoClone(o) != q->GetQubitCount() - m)
                        throw std::runtime_error("ComposeNoClone returned a wrong start index");
                    return out;
                }
                bitLenInt got = a[2] < 0 ? q->Compose(o) : q->Compose(o, (bitLenInt)st);
                (void)got;
                if (a[2] < 0 && got != st)
                    throw std::runtime_error("Compose returned a wrong start index");
                Q d;
                switch (kind) {
                case 1: d = MAKE(m, 0); q->Decompose((bitLenInt)st, d); break;
                case 2: d = q->Decompose((bitLenInt)st, (bitLenInt)m); break;
                case 3: q->Dispose((bitLenInt)st, (bitLenInt)m); break;
                case 4: d = MAKE(m, 0); if (!q->TryDecompose((bitLenInt)st, d, (real1_f)1e-4)) throw std::runtime_error("TryDecompose refused a separable register"); break;
                case 5: q->Dispose((bitLenInt)st, (bitLenInt)m, P(pm)); break;
                }
                if (d) {
                    if (d->GetQubitCount() != m)
                        throw std::runtime_error("Decompose produced a register of another width");
                    A f = flat(grab(d));
                    out.insert(out.end(), f.begin(), f.end());
                }
                return out;
            },
            [kind](Ref& r, const A& a, const A& o) {
                int m = a[0], st = (a[2] < 0 || kind == 6) ? r.n : (int)a[2];
                Ref x = unflat(o, 0, m);
                if (kind == 0 || kind == 6) {
                    r = compose(r, x, st);
                    return std::string();
                }
                if (o.size() > 2 * x.N()) {
                    Ref d = unflat(o, 2 * x.N(), m);
                    if (maxdiff(d.a, x.a, true) > 2e-3)
                        return std::string("the separated register is not the one that was composed");
                }
                return std::string();
            } });
    // a list of registers appended in one call; args: count, then (width, seed) each
    add({ "ComposeVec", "compx",
        [](Gen& g, A& a) {
            int c = 1 + g.pick(4), tot = g.n;
            a = { (double)c };
            for (int i = 0; i < c; i++) {
                int m = 1 + g.pick(2);
                tot += m;
                a.push_back(m);
                a.push_back((double)(g.r() % 1000000));
            }
            return tot <= MAXN + 1;
        },
        [](Q& q, const A& a) {
            std::vector<Q> v;
            A out;
            std::vector<bitLenInt> want;
            bitLenInt at = q->GetQubitCount();
            for (int i = 0; i < (int)a[0]; i++) {
                Q o = other((int)a[1 + 2 * i], (u64)a[2 + 2 * i], false);
                A f = flat(grab(o));
                out.insert(out.end(), f.begin(), f.end());
                v.push_back(o);
                want.push_back(at);
                at += o->GetQubitCount();
            }
            auto got = q->Compose(v);
            for (size_t i = 0; i < v.size(); i++)
                if (!got.count(v[i]) || got[v[i]] != want[i])
                    throw std::runtime_error("Compose(vector) reported a wrong position");
            return out;
        },
        [](Ref& r, const A& a, const A& o) {
            size_t from = 0;
            for (int i = 0; i < (int)a[0]; i++) {
                Ref x = unflat(o, from, (int)a[1 + 2 * i]);
                from += 2 * x.N();
                r = compose(r, x, r.n);
            }
            return std::string();
        } });
    // a normalising engine with an amplitude just overwritten (its normalisation is pending); args: m seed start(-1: end)
    add({ "ComposePending", "compx",
        [](Gen& g, A& a) { int m = 1 + g.pick(3); if (g.n + m > MAXN) return false; a = { (double)m, (double)(g.r() % 1000000), (double)(g.pick(g.n + 2) - 1) }; return true; },
        [](Q& q, const A& a) {
            int m = (int)a[0];
            std::mt19937_64 g((u64)a[1]);
            Ref x(m);
            x.random(g, 0);
            std::vector<complex> v;
            for (auto& y : x.a)
                v.push_back(cc(y));
            Q o = std::make_shared<QEngineCPU>((bitLenInt)m, ZERO_BCI, std::make_shared<qrack_rand_gen>(1U), ONE_CMPLX, true, false);
            o->SetQuantumState(v.data());
            o->SetAmplitude(ZERO_BCI, complex((real1)0.9f, (real1)0.2f));
            if (a[2] < 0)
                q->Compose(o);
            else
                q->Compose(o, (bitLenInt)a[2]);
            return A();
        },
        [](Ref& r, const A& a, const A&) {
            std::mt19937_64 g((u64)a[1]);
            Ref x((int)a[0]);
            x.random(g, 0);
            x.a[0] = cd(0.9, 0.2);
            double s = 0;
            for (auto& y : x.a)
                s += std::norm(y);
            for (auto& y : x.a)
                y /= std::sqrt(s);
            r = compose(r, x, a[2] < 0 ? r.n : (int)a[2]);
            return std::string();
        } });
    add({ "TryDecomposeEntangled", "tryd",
        [](Gen& g, A& a) { if (g.n + 2 > MAXN) return false; a = { (double)g.pick(g.n + 1) }; return true; },
        [](Q& q, const A& a) {
            // a Bell pair appended at the end; one half lies at the last index and is not separable
            bitLenInt n = q->GetQubitCount();
            q->Compose(MAKE(2, 0));
            q->H(n);
            q->CNOT(n, n + 1);
            Q d = MAKE(1, 0);
            if (q->TryDecompose(n, d))
                throw std::runtime_error("TryDecompose separated an entangled qubit");
            return A();
        },
        [](Ref& r, const A&, const A&) { Ref b(2); b.a[0] = b.a[3] = S2; r = compose(r, b, r.n); return std::string(); } });
    add({ "Allocate", "comp", [](Gen& g, A& a) { int m = 1 + g.pick(2); if (g.n + m > MAXN) return false; a = { (double)m, (double)(g.pick(g.n + 2) - 1) }; return true; },
        [](Q& q, const A& a) { if (a[1] < 0) q->Allocate(B(a[0])); else q->Allocate(B(a[1]), B(a[0])); return A(); },
        [](Ref& r, const A& a, const A&) { r = compose(r, Ref((int)a[0]), a[1] < 0 ? r.n : (int)a[1]); return std::string(); } });
    // clone, change the original, continue with the clone (or the reverse)
    add({ "Clone", "clone state", [](Gen& g, A& a) { a = { (double)g.pick(2) }; return true; },
        [](Q& q, const A& a) {
            Q c = q->Clone();
            Q x = a[0] ? q : c;
            if (!a[0])
                c = q;
            for (bitLenInt i = 0; i < x->GetQubitCount(); i++) {
                x->H(i);
                x->X(i);
            }
            x->MAll();
            x.reset();
            q = c;
            return A();
        },
        [](Ref&, const A&, const A&) { return std::string(); } });
    add({ "SetPermutation", "state", [](Gen& g, A& a) { a = { (double)(g.r() & msk(g.n)) }; return true; }, [](Q& q, const A& a) { q->SetPermutation(P(a[0])); return A(); },
        [](Ref& r, const A& a, const A&) { r = Ref(r.n, (u64)a[0]); return std::string(); } });
    add({ "SetReg", "state meas", [](Gen& g, A& a) { int l = 1 + g.pick(g.n); a = { (double)g.pick(g.n - l + 1), (double)l, (double)(g.r() & msk(l)) }; return true; },
        [](Q& q, const A& a) { double m = pre(q, a[0], a[1]); q->SetReg(B(a[0]), B(a[1]), P(a[2])); return A{ m }; },
        [](Ref& r, const A& a, const A& o) {
            int s = a[0], l = a[1]; u64 v = a[2];
            std::string e = proj(r, s, l, o[0]);
            if (e.size()) return e;
            r.map([=](u64 i) { return setr(i, s, l, v); });
            return std::string();
        } });
    add({ "SetQuantumState", "rawstate", [](Gen& g, A& a) { a = { (double)(g.r() % 1000000), (double)g.pick(3) / 3 }; return true; },
        [](Q& q, const A& a) {
            Ref r(q->GetQubitCount());
            std::mt19937_64 g((u64)a[0]);
            r.random(g, a[1]);
            std::vector<complex> v;
            for (auto& x : r.a)
                v.push_back(cc(x));
            q->SetQuantumState(v.data());
            return A();
        },
        [](Ref& r, const A& a, const A&) { std::mt19937_64 g((u64)a[0]); r.random(g, a[1]); return std::string(); } });
    add({ "SumSqrDiff", "state", [](Gen& g, A& a) { a = { (double)(g.r() % 1000000), (double)g.cliff }; return true; },
        [](Q& q, const A& a) { Q o = other(q->GetQubitCount(), (u64)a[0], a[1] != 0); A out{ (double)q->SumSqrDiff(o) }; A f = flat(grab(o)); out.insert(out.end(), f.begin(), f.end()); return out; },
        [](Ref& r, const A&, const A& o) {
            Ref x = unflat(o, 1, r.n);
            cd ip = 0;
            for (u64 i = 0; i < r.N(); i++)
                ip += std::conj(r.a[i]) * x.a[i];
            return near(o[0], 1 - std::norm(ip), "SumSqrDiff", 5e-3);
        } });
}
