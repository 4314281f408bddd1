// Reference wide unsigned integers (little-endian 32-bit limbs, schoolbook, no shared code with the library) and conversion to and
// from the library's bitCapInt in every configuration (native unsigned __int128, or BigInteger of either word size).
#pragma once
#include "common/qrack_functions.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <random>
#include <string>
#include <vector>
using namespace Qrack;
static const int W = 1 << QBCAPPOW;
static const int L = W / 32;
struct N {
    uint32_t d[1 << 11 >> 5];
    N(uint64_t v = 0) { memset(d, 0, sizeof d); d[0] = (uint32_t)v; if (L > 1) d[1] = (uint32_t)(v >> 32); }
    bool bit(int i) const { return (d[i / 32] >> (i % 32)) & 1; }
    void set(int i) { d[i / 32] |= 1u << (i % 32); }
};
static int cmp(const N& a, const N& b) { for (int i = L - 1; i >= 0; --i) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
static bool zero(const N& a) { return cmp(a, N(0)) == 0; }
static N add(const N& a, const N& b) { N r; uint64_t c = 0; for (int i = 0; i < L; ++i) { c += (uint64_t)a.d[i] + b.d[i]; r.d[i] = (uint32_t)c; c >>= 32; } return r; }
static N neg(const N& a) { N r; for (int i = 0; i < L; ++i) r.d[i] = ~a.d[i]; return add(r, N(1)); }
static N sub(const N& a, const N& b) { return add(a, neg(b)); }
static N mul(const N& a, const N& b) {
    N r;
    for (int i = 0; i < L; ++i) { uint64_t c = 0; for (int j = 0; i + j < L; ++j) { c += (uint64_t)a.d[i] * b.d[j] + r.d[i + j]; r.d[i + j] = (uint32_t)c; c >>= 32; } }
    return r;
}
static N shl(const N& a, int n) { N r; for (int i = n; i < W; ++i) if (a.bit(i - n)) r.set(i); return r; }
static N shr(const N& a, int n) { N r; for (int i = 0; i + n < W; ++i) if (a.bit(i + n)) r.set(i); return r; }
static void divmod(const N& a, const N& b, N& q, N& r) {
    q = N(0); r = N(0);
    for (int i = W - 1; i >= 0; --i) {
        bool top = r.bit(W - 1);
        r = shl(r, 1);
        if (a.bit(i)) r.set(0);
        if (top || cmp(r, b) >= 0) { r = sub(r, b); q.set(i); }
    }
}
static int log2n(const N& a) { for (int i = W - 1; i > 0; --i) if (a.bit(i)) return i; return 0; }
static std::string hex(const N& a) { char b[16]; std::string s; for (int i = L - 1; i >= 0; --i) { snprintf(b, sizeof b, "%08x", a.d[i]); s += b; } size_t p = s.find_first_not_of('0'); return p == std::string::npos ? "0" : s.substr(p); }
static N unhex(const std::string& s) { N r; int n = 0; for (int i = (int)s.size() - 1; i >= 0 && n < W; --i, n += 4) { char c = s[i]; uint32_t v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; r.d[n / 32] |= v << (n % 32); } return r; }
static bitCapInt big(const N& a) { static_assert(sizeof(bitCapInt) == (1 << QBCAPPOW) / 8, "width"); bitCapInt b; memcpy((void*)&b, a.d, sizeof b); return b; }
static N num(const bitCapInt& b) { N a; memcpy(a.d, (const void*)&b, sizeof b); return a; }
static std::string dec(N a) { std::string s; if (zero(a)) return "0"; while (!zero(a)) { uint64_t r = 0; for (int i = L - 1; i >= 0; --i) { r = (r << 32) | a.d[i]; a.d[i] = (uint32_t)(r / 10); r %= 10; } s.insert(s.begin(), (char)('0' + r)); } return s; }
static std::mt19937_64 rng;
static N rnd() {
    N r;
    int kind = rng() % 8, len = rng() % (W + 1);
    if (kind == 0) { r = N(rng() % 5); return r; }
    if (kind == 1) { if (len < W) r.set(len); return r; }
    if (kind == 2) { for (int i = 0; i < len; ++i) r.set(i); return r; }
    if (kind == 3) { if (len < W) r.set(len); return (rng() & 1) ? add(r, N(rng() % 3)) : sub(r, N(1 + rng() % 3)); }
    for (int i = 0; i < L; ++i) { r.d[i] = (uint32_t)rng(); int z = rng() % 6; if (z == 0) r.d[i] = 0; if (z == 1) r.d[i] = 0xffffffffu; if (z == 2) r.d[i] = 1; if (z == 3) r.d[i] = 0x80000000u; }
    if (kind < 6) r = shr(r, rng() % W);
    return r;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
