// Differential test of the wide-integer operations at one configuration (QBCAPPOW, word size) against num.hpp.
// search SEED SECONDS [...] | run "op hexA hexB n"
#include "num.hpp"
#include <cmath>
#ifdef __SIZEOF_INT128__
typedef unsigned __int128 word_t;
typedef uint64_t half_t_;
#else
typedef uint64_t word_t;
typedef uint32_t half_t_;
#endif
#define NATIVE ((QBCAPPOW < 7) || ((QBCAPPOW < 8) && defined(__SIZEOF_INT128__)))
static const char* OPS[] = { "+", "-", "*", "&", "|", "^", "~", "<<", ">>", "add_ip", "sub_ip", "and_ip", "or_ip", "xor_ip", "not_ip", "lshift_ip", "rshift_ip",
    "inc", "dec", "cmp", "cmp0", "cmp1", "rel", "and1", "log2", "double", "divmod", "divmod_q", "divmod_r", "small", "small_q", "small_r", "mulhalf", "ctor", "conv", "++", "--", "wshift" };
static const int NOPS = sizeof(OPS) / sizeof(*OPS);
static N low(const N& a, int bits) { N r; for (int i = 0; i < bits && i < W; ++i) if (a.bit(i)) r.set(i); return r; }
static word_t wordof(const N& a) { word_t v = 0; for (int i = (int)(sizeof(word_t) / 4) - 1; i >= 0; --i) v = (v << 16 << 16) | (i < L ? a.d[i] : 0); return v; }
static bool eq(const char* what, const N& got, const N& want, std::string& why) { if (cmp(got, want) == 0) return true; why = std::string(what) + " got " + hex(got) + " want " + hex(want); return false; }
static bool eqi(const char* what, long got, long want, std::string& why) { if (got == want) return true; why = std::string(what) + " got " + std::to_string(got) + " want " + std::to_string(want); return false; }
static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static bool one(const std::string& op, const N& a, const N& b, int n, std::string& why)
{
    bitCapInt x = big(a), y = big(b);
    const bitCapInt x0 = x, y0 = y;
    N q, r;
#define BIN(NAME, EXPR, REF) if (op == NAME) { bitCapInt z = EXPR; return eq(NAME, num(z), REF, why) && eq("left operand", num(x), a, why) && eq("right operand", num(y), b, why); }
#define IP(NAME, CALL, REF) if (op == NAME) { CALL; return eq(NAME, num(x), REF, why) && eq("right operand", num(y), b, why); }
    N an, o, e; for (int i = 0; i < L; ++i) { an.d[i] = a.d[i] & b.d[i]; o.d[i] = a.d[i] | b.d[i]; e.d[i] = a.d[i] ^ b.d[i]; }
    BIN("+", x + y, add(a, b)) BIN("-", x - y, sub(a, b)) BIN("*", x * y, mul(a, b)) BIN("&", x & y, an) BIN("|", x | y, o) BIN("^", x ^ y, e)
    BIN("~", ~x, sub(neg(a), N(1))) BIN("<<", x << n, shl(a, n)) BIN(">>", x >> n, shr(a, n))
    IP("add_ip", bi_add_ip(&x, y), add(a, b)) IP("sub_ip", bi_sub_ip(&x, y), sub(a, b)) IP("and_ip", bi_and_ip(&x, y), an) IP("or_ip", bi_or_ip(&x, y), o) IP("xor_ip", bi_xor_ip(&x, y), e)
    IP("not_ip", bi_not_ip(&x), sub(neg(a), N(1))) IP("lshift_ip", bi_lshift_ip(&x, n), shl(a, n)) IP("rshift_ip", bi_rshift_ip(&x, n), shr(a, n))
    if (op == "inc") { bi_increment(&x, wordof(b)); return eq("bi_increment", num(x), add(a, low(b, 8 * sizeof(word_t))), why); }
    if (op == "dec") { bi_decrement(&x, wordof(b)); return eq("bi_decrement", num(x), sub(a, low(b, 8 * sizeof(word_t))), why); }
    if (op == "++") { bitCapInt z = ++x; return eq("++ value", num(z), add(a, N(1)), why) && eq("++ operand", num(x), add(a, N(1)), why); }
    if (op == "--") { bitCapInt z = --x; return eq("-- value", num(z), sub(a, N(1)), why) && eq("-- operand", num(x), sub(a, N(1)), why); }
    if (op == "cmp") return eqi("bi_compare", sgn(bi_compare(x, y)), cmp(a, b), why) && eqi("bi_compare self", bi_compare(x, x0), 0, why);
    if (op == "cmp0") return eqi("bi_compare_0", bi_compare_0(x), zero(a) ? 0 : 1, why);
    if (op == "cmp1") return eqi("bi_compare_1", sgn(bi_compare_1(x)), cmp(a, N(1)), why);
    if (op == "rel") { int c = cmp(a, b); return eqi("==", x == y, c == 0, why) && eqi("<", x < y, c < 0, why) && eqi("<=", x <= y, c <= 0, why) && eqi(">", x > y, c > 0, why) && eqi(">=", x >= y, c >= 0, why); }
    if (op == "and1") return eqi("bi_and_1", bi_and_1(x), a.bit(0), why);
    if (op == "log2") return eqi("bi_log2", bi_log2(x), log2n(a), why);
    if (op == "double") {
        double want = 0; for (int i = L - 1; i >= 0; --i) want = want * 4294967296.0 + a.d[i];
        double got = bi_to_double(x); if (!(fabs(got - want) <= 1e-14 * want)) { char t[99]; snprintf(t, 99, "bi_to_double got %.17g want %.17g", got, want); why = t; return false; } return true;
    }
    if (op.compare(0, 6, "divmod") == 0) {
        if (zero(b)) return true;
        divmod(a, b, q, r);
        bitCapInt Q = big(N(12345)), R = big(N(54321));
        bi_div_mod(x, y, op == "divmod_r" ? (bitCapInt*)0 : &Q, op == "divmod_q" ? (bitCapInt*)0 : &R);
        return (op == "divmod_r" || eq("quotient", num(Q), q, why)) && (op == "divmod_q" || eq("remainder", num(R), r, why)) && eq("left operand", num(x), a, why) && eq("right operand", num(y), b, why);
    }
    if (op.compare(0, 5, "small") == 0) {
        half_t_ h = (half_t_)wordof(b);
        if (!h) h = 3;
        N hb = low(b, 8 * sizeof(half_t_)); if (zero(hb)) hb = N(3);
        divmod(a, hb, q, r);
        bitCapInt Q = big(N(999)); half_t_ R = 77;
        bi_div_mod_small(x, h, op == "small_r" ? (bitCapInt*)0 : &Q, op == "small_q" ? (half_t_*)0 : &R);
        return (op == "small_r" || eq("small quotient", num(Q), q, why)) && (op == "small_q" || eq("small remainder", N((uint64_t)R), r, why));
    }
#if !NATIVE
    if (op == "mulhalf") { bitCapInt z = x * (half_t_)wordof(b); return eq("half-word product", num(z), mul(a, low(b, 8 * sizeof(half_t_))), why); }
    if (op == "wshift") {
        int k = n / (8 * sizeof(word_t));
        int s = k * 8 * sizeof(word_t);
        bitCapInt z = x; bi_lshift_word_ip(&z, k); bitCapInt t = x; bi_rshift_word_ip(&t, k);
        return eq("bi_lshift_word", num(bi_lshift_word(x, k)), shl(a, s), why) && eq("bi_rshift_word", num(bi_rshift_word(x, k)), shr(a, s), why) && eq("bi_lshift_word_ip", num(z), shl(a, s), why) && eq("bi_rshift_word_ip", num(t), shr(a, s), why);
    }
    if (op == "ctor") { bitCapInt z(wordof(a)); bitCapInt c(x); bitCapInt d; bi_copy_ip(x, &d); bitCapInt s0 = x; bi_set_0(&s0); return eq("from word", num(z), low(a, 8 * sizeof(word_t)), why) && eq("copy", num(c), a, why) && eq("bi_copy_ip", num(d), a, why) && eq("bi_copy", num(bi_copy(x)), a, why) && eq("bi_set_0", num(s0), N(0), why); }
#else
    if (op == "mulhalf" || op == "wshift") return true;
    if (op == "ctor") { bitCapInt z(wordof(a)); return eq("from word", num(z), low(a, 8 * sizeof(word_t)), why); }
#endif
    if (op == "conv") return eqi("(uint32_t)", (uint32_t)x, a.d[0], why) && eqi("(uint64_t)", (long)(uint64_t)x, (long)((uint64_t)a.d[0] | ((uint64_t)(L > 1 ? a.d[1] : 0) << 32)), why);
    why = "unknown operation";
    return false;
}
int main(int argc, char** argv)
{
    std::string why;
    if (argc > 2 && std::string(argv[1]) == "run") {
        char op[32], A[600], B[600]; int n = 0;
        const char* p = strrchr(argv[2], '/');
        if (sscanf(p ? p + 1 : argv[2], "%*d %31s %599s %599s %d", op, A, B, &n) != 4) return 2;
        bool ok = one(op, unhex(A), unhex(B), n, why);
        printf("%s %s\n", ok ? "ok" : "FAIL", why.c_str());
        return ok ? 0 : 1;
    }
    rng.seed(atoi(argv[2]) * 7919 + 13);
    double end = now() + atof(argv[3]) / PARTS;
    long n = 0;
    while (n % 1024 || now() < end) {
        N a = rnd(), b = rnd();
        if (rng() % 9 == 0) b = a;
        int s = rng() % 3 ? rng() % W : (int)((rng() % (W / 32)) * 32 + (int[]){ 0, 1, 31 }[rng() % 3]);
        const char* op = OPS[n % NOPS];
        ++n;
        if (!one(op, a, b, s, why)) { printf("FAIL %d-bit/%d %s %s %s %d : %s\n", W, (int)(8 * sizeof(word_t)), op, hex(a).c_str(), hex(b).c_str(), s, why.c_str()); return 0; }
    }
    printf("COV {\"cases_%d_%d\": %ld}\n", W, (int)(8 * sizeof(word_t)), n);
    return 0;
}
