// Reference simulator and case language shared by the replay harnesses.  Independent of qrack: dense double-precision
// state vector, textbook gate definitions.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
typedef std::complex<double> cd;
typedef std::vector<double> A;
typedef uint64_t u64;
struct Mat2 {
    cd m[4];
};
static const cd I1(0, 1);
static const double PI_ = 3.14159265358979323846;
static inline Mat2 mk(cd a, cd b, cd c, cd d) { return Mat2{ { a, b, c, d } }; }
static inline Mat2 mul(const Mat2& a, const Mat2& b)
{
    return mk(a.m[0] * b.m[0] + a.m[1] * b.m[2], a.m[0] * b.m[1] + a.m[1] * b.m[3], a.m[2] * b.m[0] + a.m[3] * b.m[2],
        a.m[2] * b.m[1] + a.m[3] * b.m[3]);
}
static inline Mat2 dag(const Mat2& a) { return mk(conj(a.m[0]), conj(a.m[2]), conj(a.m[1]), conj(a.m[3])); }

struct Ref {
    int n;
    std::vector<cd> a;
    Ref(int n_ = 0, u64 p = 0)
        : n(n_)
        , a(1ULL << n_)
    {
        a[p] = 1;
    }
    u64 N() const { return 1ULL << n; }
    void ctl(const std::vector<int>& c, u64 perm, int t, const Mat2& u)
    {
        u64 cm = 0, cv = 0;
        for (size_t i = 0; i < c.size(); i++) {
            cm |= 1ULL << c[i];
            if ((perm >> i) & 1)
                cv |= 1ULL << c[i];
        }
        u64 tb = 1ULL << t;
        for (u64 i = 0; i < N(); i++) {
            if ((i & tb) || ((i & cm) != cv))
                continue;
            cd x = a[i], y = a[i | tb];
            a[i] = u.m[0] * x + u.m[1] * y;
            a[i | tb] = u.m[2] * x + u.m[3] * y;
        }
    }
    void one(int t, const Mat2& u) { ctl({}, 0, t, u); }
    // 4x4 on (q1,q2): index = bit(q1) + 2*bit(q2), with controls
    void two(const std::vector<int>& c, u64 perm, int q1, int q2, const cd (&u)[4][4])
    {
        u64 cm = 0, cv = 0;
        for (size_t i = 0; i < c.size(); i++) {
            cm |= 1ULL << c[i];
            if ((perm >> i) & 1)
                cv |= 1ULL << c[i];
        }
        u64 b1 = 1ULL << q1, b2 = 1ULL << q2;
        for (u64 i = 0; i < N(); i++) {
            if ((i & b1) || (i & b2) || ((i & cm) != cv))
                continue;
            u64 ix[4] = { i, i | b1, i | b2, i | b1 | b2 };
            cd v[4], w[4];
            for (int k = 0; k < 4; k++)
                v[k] = a[ix[k]];
            for (int k = 0; k < 4; k++) {
                w[k] = 0;
                for (int l = 0; l < 4; l++)
                    w[k] += u[k][l] * v[l];
            }
            for (int k = 0; k < 4; k++)
                a[ix[k]] = w[k];
        }
    }
    // basis map: i -> f(i) with phase; must be injective on the support
    void map(const std::function<u64(u64)>& f, const std::function<cd(u64)>& ph = nullptr)
    {
        std::vector<cd> b(N());
        for (u64 i = 0; i < N(); i++)
            b[f(i)] += a[i] * (ph ? ph(i) : cd(1));
        a.swap(b);
    }
    void diag(const std::function<cd(u64)>& ph)
    {
        for (u64 i = 0; i < N(); i++)
            a[i] *= ph(i);
    }
    double prob(const std::function<bool(u64)>& f) const
    {
        double p = 0;
        for (u64 i = 0; i < N(); i++)
            if (f(i))
                p += std::norm(a[i]);
        return p;
    }
    void project(const std::function<bool(u64)>& f)
    {
        double p = prob(f);
        double s = p > 0 ? 1 / sqrt(p) : 0;
        for (u64 i = 0; i < N(); i++)
            a[i] = f(i) ? a[i] * s : cd(0);
    }
    double norm() const
    {
        double p = 0;
        for (auto& x : a)
            p += std::norm(x);
        return p;
    }
    void random(std::mt19937_64& r, double sparsity = 0)
    {
        std::normal_distribution<double> g;
        std::uniform_real_distribution<double> u;
        double p = 0;
        do {
            p = 0;
            for (auto& x : a) {
                x = (u(r) < sparsity) ? cd(0) : cd(g(r), g(r));
                p += std::norm(x);
            }
        } while (p == 0);
        for (auto& x : a)
            x /= sqrt(p);
    }
};
// insert the qubits of b into a at position start
static inline Ref compose(const Ref& a, const Ref& b, int start)
{
    Ref r(a.n + b.n);
    u64 lo = (1ULL << start) - 1;
    for (u64 i = 0; i < r.N(); i++) {
        u64 bi = (i >> start) & ((1ULL << b.n) - 1);
        u64 ai = (i & lo) | ((i >> b.n) & ~lo);
        r.a[i] = a.a[ai] * b.a[bi];
    }
    return r;
}
static inline double maxdiff(const std::vector<cd>& x, const std::vector<cd>& y, bool phase)
{
    cd f = 1;
    if (phase) {
        cd ip = 0;
        for (size_t i = 0; i < x.size(); i++)
            ip += std::conj(x[i]) * y[i];
        double m = std::abs(ip);
        if (m > 1e-12)
            f = ip / m;
    }
    double d = 0;
    for (size_t i = 0; i < x.size(); i++) {
        double e = std::abs(x[i] * f - y[i]);
        if (!(e <= d))
            d = e;
        if (e != e)
            return 1e9;
    }
    return d;
}
static inline double reg(u64 i, int s, int l) { return (double)((i >> s) & ((1ULL << l) - 1)); }
static inline u64 getr(u64 i, int s, int l) { return (i >> s) & ((1ULL << l) - 1); }
static inline u64 setr(u64 i, int s, int l, u64 v)
{
    u64 m = ((1ULL << l) - 1) << s;
    return (i & ~m) | ((v << s) & m);
}
static inline int pop(u64 x) { return __builtin_popcountll(x); }
