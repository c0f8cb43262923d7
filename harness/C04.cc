#include "harness.h"
#include "tools.h"
using namespace NTL;
using namespace H;
static ZZ bin(int64_t n, int64_t k) { if (k > n - k) k = n - k; ZZ r(1); for (int64_t i = 1; i <= k; ++i) { r *= ZZ(n - k + i); r /= ZZ(i); } return r; }
static int64_t PR[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 31, 43, 47, 97, 101, 127, 251, 257, 509, 1009, 2003, 7919, 65537, 1000003, 2147483647LL, 4294967311LL, 1000000007LL, 999999999989LL};
static const int NP = sizeof(PR) / sizeof(PR[0]);
static void run(Case &c) {
    Rng &r = c.r; int op = c.k % 5;
    if (op == 0 || op == 1) {
        int64_t n, k;
        long q = c.k / 5;
        if (op == 0 && q < 75 * 76 / 2) { n = 0; while ((n + 1) * (n + 2) / 2 <= q) ++n; k = q - n * (n + 1) / 2; }
        else { int m = r.in(0, 3); if (m == 0) { n = r.in(0, 80); k = r.in(0, n); } else if (m == 1) { n = r.in(60, 3000); k = r.coin() ? r.in(0, 8) : n - r.in(0, 8); if (k < 0) k = 0; if (k > n) k = n; } else if (m == 2) { n = r.in(1000, 4000000); k = n - r.in(0, 3); } else { n = r.in(60, 70); k = r.in(24, n - 24); } }
        c.d << "binomial(" << n << "," << k << ")"; c.publish();
        ZZ e = bin(n, k);
        if (n - k < 5000 && n < 100000) same(binomial_ZZ(n, k), e, "binomial_ZZ");
        if (NumBits(e) <= 63) { if (n - k < 5000) same(ZZ(binomial(n, k)), e, "binomial"); }
        else if (r.one_in(6)) ok(ends([&] { volatile int64_t x = binomial(n, k); (void)x; }), "binomial returned a value although " + str(e) + " does not fit");
        else c.trivial = true;
    } else if (op == 2) {
        int64_t a = r.in(1, 30), b = r.in(0, 60); if (c.k < 200) { a = 1; b = c.k / 5; } if (r.one_in(5)) b = a - r.in(0, 1);
        c.d << "factorial(" << b << "," << a << ")"; c.publish();
        ZZ e(1); for (int64_t i = a; i <= b; ++i) e *= ZZ(i);
        same(factorial<ZZ>(b, a), e, "factorial<ZZ>"); if (a == 1) same(factorial<ZZ>(b), e, "factorial<ZZ> default start");
        if (NumBits(e) <= 63) same(ZZ(factorial<int64_t>(b, a)), e, "factorial<int64_t>");
        ZZ m = r.bits(r.in(4, 90)) + 2; ZZ_p::init(m); same(rep(factorial<ZZ_p>(b, a)), e % m, "factorial<ZZ_p>");
    } else if (op == 3) {
        int64_t p = PR[r.in(0, NP - 1)], n; int m = r.in(0, 4);
        n = m == 0 ? r.in(0, 50) : m == 1 ? r.in(0, 5000) : m == 2 ? (int64_t)(r.next() >> r.in(1, 40)) : m == 3 ? (p < 3000000000LL ? p * r.in(0, 2 * p < 2000000000LL ? 2 * p : 2) + r.in(-1, 1) : p + r.in(-1, 1)) : INT64_MAX - r.in(0, 3);
        if (n < 0) n = 0;
        if (c.k < 2000) { p = PR[c.k / 5 % 6]; n = c.k / 30; }
        c.d << "valuation_of_factorial(" << n << "," << p << ")"; c.publish();
        int64_t e = 0; for (int64_t t = n; t; ) { t /= p; e += t; }
        same(valuation_of_factorial(n, p), e, "valuation of n!");
    } else {
        int64_t p = PR[r.in(0, 14)]; int64_t a = r.one_in(3) ? r.in(1, 200) : 1, b = r.in(0, 300); if (r.one_in(8)) { p = PR[r.in(0, 3)]; b = r.in(300, 2500); } if (r.one_in(6)) { b = p * r.in(1, 3); if (b > 3000) b = 3000; a = r.coin() ? 1 : (b > 3 ? b - r.in(0, 2) : 1); } if (r.one_in(10)) { b = ppow(2, r.in(1, 11)); p = 2; }
        int64_t e = r.in(1, 20); ZZ q = power(ZZ(p), e);
        c.d << "factorial_p_adic(n=" << b << ",p=" << p << ",start=" << a << ") mod p^" << e; c.publish();
        int64_t v = 0; ZZ u(1); for (int64_t i = a; i <= b; ++i) { int64_t t = i; while (t % p == 0) { t /= p; ++v; } u = u * ZZ(t) % q; }
        ZZ_p::init(q); ZZ_p res; if (r.coin()) res = to_ZZ_p(ZZ(5));
        int64_t g = factorial_p_adic(res, b, p, a); same(g, v, "valuation"); same(rep(res), u % q, "unit part");
        if (a == 1) { ZZ_p r2; same(factorial_p_adic(r2, b, p), v, "valuation, default start"); same(rep(r2), u % q, "unit part, default start"); }
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 15000, 400000); }
