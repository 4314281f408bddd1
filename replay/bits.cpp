// Differential test of the bit utilities, decimal printing and parsing, and 2x2 matrix helpers at one configuration.
// search SEED SECONDS [...] | run "op hexA hexB n"
#include "num.hpp"
#include <cmath>
#include <complex>
#include <sstream>
#if defined(__SIZEOF_INT128__)
#define NATIVE (QBCAPPOW < 8)
#define WORD 128
#else
#define NATIVE (QBCAPPOW < 7)
#define WORD 64
#endif
static const char* OPS[] = { "log2", "log2Ocl", "popCountOcl", "pow2", "pow2Mask", "bitSlice", "bitRegMask", "isPowerOfTwo", "isRegisterWrap", "isBadBitRange", "isBadPermRange",
    "overflow", "pushApart", "ids", "intPow", "decimal", "parse", "mul2x2", "inv2x2", "exp2x2", "log2x2" };
static const int NOPS = sizeof(OPS) / sizeof(*OPS);
typedef std::complex<double> cd;
static bool eq(const char* what, const N& got, const N& want, std::string& why) { if (cmp(got, want) == 0) return true; why = std::string(what) + " got " + hex(got) + " want " + hex(want); return false; }
static bool eqi(const char* what, long long got, long long want, std::string& why) { if (got == want) return true; why = std::string(what) + " got " + std::to_string(got) + " want " + std::to_string(want); return false; }
static uint64_t lo64(const N& a) { return a.d[0] | ((uint64_t)(L > 1 ? a.d[1] : 0) << 32); }
static N ones(int n) { N r; for (int i = 0; i < n && i < W; ++i) r.set(i); return r; }
static N band(const N& a, const N& b) { N r; for (int i = 0; i < L; ++i) r.d[i] = a.d[i] & b.d[i]; return r; }
static int pop(const N& a) { int c = 0; for (int i = 0; i < W; ++i) c += a.bit(i); return c; }
static bool eqm(const char* what, const complex* got, const cd* want, double tol, std::string& why)
{
    double s = 1; for (int i = 0; i < 4; ++i) s = std::max(s, std::abs(want[i]));
    for (int i = 0; i < 4; ++i) { double e = std::abs(cd(got[i]) - want[i]); if (!(e <= tol * s)) { char t[200]; snprintf(t, 200, "%s entry %d got (%.8g,%.8g) want (%.8g,%.8g)", what, i, real(got[i]), imag(got[i]), want[i].real(), want[i].imag()); why = t; return false; } }
    return true;
}
static void mm(const cd* a, const cd* b, cd* o) { cd t[4] = { a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3] }; for (int i = 0; i < 4; ++i) o[i] = t[i]; }
static void ex(const cd* a, cd* o)
{
    cd h[4], t[4] = { 1, 0, 0, 1 }; for (int i = 0; i < 4; ++i) { h[i] = a[i] / 64.0; o[i] = t[i]; }
    for (int k = 1; k < 30; ++k) { mm(t, h, t); for (int i = 0; i < 4; ++i) { t[i] /= (double)k; o[i] += t[i]; } }
    for (int k = 0; k < 6; ++k) mm(o, o, o);
}
static double u(uint64_t x) { return (double)(int64_t)(x >> 40) / (1 << 23) - 1; }
static bool one(const std::string& op, const N& a, const N& b, int n, std::string& why)
{
    bitCapInt x = big(a), y = big(b);
    const uint64_t a64 = lo64(a), b64 = lo64(b);
    const int n64 = n & 63;
    if (op == "log2") { if (zero(a)) return true; return eqi("log2", Qrack::log2(x), log2n(a), why) && eqi("bi_log2", bi_log2(x), log2n(a), why); }
    if (op == "log2Ocl") { if (!a64) return true; return eqi("log2Ocl", log2Ocl(a64), log2n(N(a64)), why); }
    if (op == "popCountOcl") return eqi("popCountOcl", popCountOcl(a64), pop(N(a64)), why);
    if (op == "pow2") return eq("pow2", num(pow2((bitLenInt)n)), shl(N(1), n), why) && eq("pow2Ocl", N(pow2Ocl((bitLenInt)n64)), shl(N(1), n64), why);
    if (op == "pow2Mask") return eq("pow2Mask", num(pow2Mask((bitLenInt)n)), ones(n), why) && eq("pow2MaskOcl", N(pow2MaskOcl((bitLenInt)n64)), ones(n64), why);
    if (op == "bitSlice") return eq("bitSlice", num(bitSlice((bitLenInt)n, x)), band(shl(N(1), n), a), why) && eq("bitSliceOcl", N(bitSliceOcl((bitLenInt)n64, a64)), band(shl(N(1), n64), N(a64)), why);
    if (op == "bitRegMask") { int l = a64 % W; return eq("bitRegMask", num(bitRegMask((bitLenInt)n, (bitLenInt)l)), shl(ones(l), n), why) && eq("bitRegMaskOcl", N(bitRegMaskOcl((bitLenInt)n64, (bitLenInt)(l & 63))), N(n64 ? lo64(shl(ones(l & 63), 0)) << n64 : lo64(ones(l & 63))), why); }
    if (op == "isPowerOfTwo") return eqi("isPowerOfTwo", isPowerOfTwo(x), pop(a) == 1, why) && eqi("isPowerOfTwoOcl", isPowerOfTwoOcl(a64), pop(N(a64)) == 1, why);
    if (op == "isRegisterWrap") { N c = (a64 & 1) ? shl(a, n) : a; return eqi("isRegisterWrap", isRegisterWrap(big(c), (bitLenInt)n), zero(band(c, ones(n))), why); }
    if (op == "isBadBitRange") { bitLenInt s = (bitLenInt)a64, l = (bitLenInt)b64, q = (bitLenInt)(a64 >> 32); return eqi("isBadBitRange", isBadBitRange(s, l, q), (long)s + (long)l > (long)q, why); }
    if (op == "isBadPermRange") { uint64_t s = a64, l = (n & 1) ? b64 : 0 - a64 + (n >> 1), q = (n & 2) ? ~0ULL : a64 + (n >> 2); unsigned long long t = s + l; return eqi("isBadPermRange", isBadPermRange(s, l, q), t < s || t > q, why); }
    if (op == "overflow") {
        int len = 1 + n % 63; uint64_t lp = 1ULL << len, sm = lp >> 1, p = a64 & (lp - 1), q = b64 & (lp - 1);
        if (n & 1) q = (lp - p) & (lp - 1); else if (n & 2) q = (sm - p) & (lp - 1);
        __int128 sp = (p & sm) ? (__int128)p - lp : p, sq = (q & sm) ? (__int128)q - lp : q, lo = -(__int128)sm, hi = sm;
        return eqi("isOverflowAdd", isOverflowAdd(p, q, sm, lp), sp + sq < lo || sp + sq >= hi, why) && eqi("isOverflowSub", isOverflowSub(p, q, sm, lp), sp - sq < lo || sp - sq >= hi, why);
    }
    if (op == "pushApart") {
        std::vector<bitCapInt> sk; std::vector<int> pos;
        int c = b64 % 6; for (int i = 0, p = 0; i < c && p < W; ++i) { p += (int)((b64 >> (8 + 8 * i)) % (W / 6)); if (p < W && (pos.empty() || pos.back() < p)) { pos.push_back(p); sk.push_back(big(shl(N(1), p))); } ++p; }
        N want; int d = 0; size_t k = 0;
        for (int i = 0; i < W; ++i) { while (k < pos.size() && d == pos[k]) { ++d; ++k; } if (d < W && a.bit(i)) want.set(d); ++d; }
        return eq("pushApartBits", num(pushApartBits(x, sk)), want, why);
    }
    if (op == "ids") {
        int c = a64 % 7, q = (a64 >> 8) % 16; std::vector<bitLenInt> v; bool bad = false;
        for (int i = 0; i < c; ++i) { v.push_back((b64 >> (8 * i)) % 13); if (v[i] >= q) bad = true; for (int j = 0; j < i; ++j) if (v[j] == v[i]) bad = true; }
        bool threw = false; try { ThrowIfQbIdArrayIsBad(v, (bitLenInt)q, "bad"); } catch (const std::invalid_argument&) { threw = true; }
        return eqi("ThrowIfQbIdArrayIsBad", threw, bad, why);
    }
    if (op == "intPow") {
        N r(1), e = b; int k = 0; for (int i = W - 1; i >= 0; --i) { r = mul(r, r); if (e.bit(i)) r = mul(r, a); }
        uint64_t s = 1; for (int i = 63; i >= 0; --i) { s *= s; if ((b64 >> i) & 1) s *= a64; } (void)k;
        return eq("intPow", num(intPow(x, y)), r, why) && eq("intPowOcl", N(intPowOcl(a64, b64)), N(s), why);
    }
    if (op == "decimal") { std::ostringstream os; os << x; if (os.str() != dec(a)) { why = "decimal got " + os.str() + " want " + dec(a); return false; } std::istringstream is(os.str()); bitCapInt z = big(b); is >> z; return eq("parse of the printed number", num(z), a, why); }
    if (op == "parse") { std::string s(n % 3, '0'); s += dec(a); std::istringstream is(s + " 7"); bitCapInt z = big(b); is >> z; return eq("parse", num(z), a, why); }
    if (op.find("2x2") != std::string::npos) {
        std::mt19937_64 g(a64 ^ (b64 * 0x9E3779B97F4A7C15ULL)); cd A[4], B[4], Z[4]; complex fa[4], fb[4], fo[4];
        for (int i = 0; i < 4; ++i) { A[i] = cd(u(g()), u(g())); B[i] = cd(u(g()), u(g())); }
        if (op == "exp2x2" || op == "log2x2") { // i times a Hermitian matrix with well separated eigenvalues
            double p = u(g()), q = u(g()), r = u(g()), s = u(g()), t = u(g()) * 0.4, k = std::sqrt(p * p + q * q + r * r) + 1e-9, f = (0.3 + 0.6 * std::fabs(s)) / k; p *= f; q *= f; r *= f;
            if (n % 4 == 1) { p = q = 0; r = 0.5; } if (n % 4 == 2) r = 0;
            A[0] = cd(0, t + r); A[3] = cd(0, t - r); A[1] = cd(q, p); A[2] = cd(-q, p);
            if (op == "log2x2") { ex(A, B); }
        }
        for (int i = 0; i < 4; ++i) { fa[i] = complex((real1)A[i].real(), (real1)A[i].imag()); fb[i] = complex((real1)B[i].real(), (real1)B[i].imag()); }
        if (op == "mul2x2") { mm(A, B, Z); mul2x2(fa, fb, fo); return eqm("mul2x2", fo, Z, 1e-5, why); }
        if (op == "inv2x2") { cd det = A[0] * A[3] - A[1] * A[2]; if (std::abs(det) < 0.2) return true; cd I[4] = { A[3] / det, -A[1] / det, -A[2] / det, A[0] / det }; inv2x2(fa, fo); return eqm("inv2x2", fo, I, 1e-4, why); }
        if (op == "exp2x2") { ex(A, Z); exp2x2(fa, fo); return eqm("exp2x2", fo, Z, 1e-3, why); }
        log2x2(fb, fo); return eqm("log2x2", fo, A, 2e-3, why);
    }
    why = "unknown operation";
    return false;
}
int main(int argc, char** argv)
{
    std::string why;
    if (argc > 2 && std::string(argv[1]) == "run") {
        char op[32], A[600], B[600]; int n = 0;
        const char* p = strrchr(argv[2], '/');
        if (sscanf(p ? p + 1 : argv[2], "%*d %31s %599s %599s %d", op, A, B, &n) != 4) return 2;
        bool ok = one(op, unhex(A), unhex(B), n, why);
        printf("%s %s\n", ok ? "ok" : "FAIL", why.c_str());
        return ok ? 0 : 1;
    }
    rng.seed(atoi(argv[2]) * 7919 + 13);
    double end = now() + atof(argv[3]) / PARTS;
    long n = 0;
    while (n % 1024 || now() < end) {
        N a = rnd(), b = rnd();
        int s = rng() % 3 ? rng() % W : (int)((rng() % (W / 32)) * 32 + (int[]){ 0, 1, 31 }[rng() % 3]);
        const char* op = OPS[n % NOPS];
        ++n;
        if (!one(op, a, b, s, why)) { printf("FAIL %d-bit/%d %s %s %s %d : %s\n", W, WORD, op, hex(a).c_str(), hex(b).c_str(), s, why.c_str()); return 0; }
    }
    printf("COV {\"cases_%d_%d\": %ld}\n", W, WORD, n);
    return 0;
}
