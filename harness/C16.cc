#include "harness.h"
#include "tools.h"
#include <algorithm>
using namespace H; using namespace NTL;
// number of roots of the numerator, and how many of them have each slope position of the Hodge polygon
static std::vector<int64_t> hodge(int n, int d) {   // h[i]: basis elements of pole order i+1: monomials x^a, 0 <= a_j <= d-2, sum a = (i+1)d-(n+1)
    std::vector<int64_t> h(n, 0), cnt(1, 1);
    for (int v = 0; v <= n; ++v) { std::vector<int64_t> t(cnt.size() + d - 2, 0); for (size_t i = 0; i < cnt.size(); ++i) for (int a = 0; a <= d - 2; ++a) t[i + a] += cnt[i]; cnt.swap(t); }
    for (int i = 0; i < n; ++i) { int s = (i + 1) * d - (n + 1); if (s >= 0 && s < (int)cnt.size()) h[i] = cnt[s]; }
    return h;
}
static void run(Case &c) {
    Rng &r = c.r; static const int nd[][2] = {{2, 3}, {2, 4}, {2, 5}, {2, 6}, {2, 7}, {2, 8}, {2, 9}, {3, 4}, {3, 5}, {3, 6}};
    int64_t prec = r.in(-5, 5); Vec<int64_t> N, cp; if (r.coin()) { N.SetLength(r.in(0, 9)); for (auto &x : N) x = r.in(0, 99); cp = N; }
    bool unsup = c.k % 12 == 11; int n, d; int64_t p;
    if (unsup) { do { n = r.in(1, 6); d = r.in(1, 12); } while (n == 2 ? d >= 3 && d <= 9 : n == 3 && d >= 4 && d <= 6); p = r.in(2, 101); c.d << "unsupported n=" << n << " d=" << d; c.publish(); int64_t P = prec; if (!ends([&]() { default_args(P, N, cp, p, n, d); })) fail("an unsupported pair was answered"); return; }
    const int *q = nd[r.in(0, 9)]; n = q[0]; d = q[1];
    if (c.k < 10 * 60) { q = nd[c.k % 10]; n = q[0]; d = q[1]; p = 2; for (long i = c.k / 10; i >= 0; --i) p = NextPrime(p + 1); }
    else if (r.coin()) p = NextPrime(r.in(3, 1000)); else p = NextPrime((long)(r.next() >> r.in(4, 40)) % ((1L << 49)) + 3);
    while (d % p == 0) p = NextPrime(p + 1);
    c.d << "n=" << n << " d=" << d << " p=" << p; c.publish(); default_args(prec, N, cp, p, n, d);
    std::vector<int64_t> h = hodge(n, d); int64_t deg = 0; for (auto x : h) deg += x;
    same(N.length(), (long)n, "number of term counts"); same(cp.length(), (long)(deg + 1), "number of coefficient precisions"); ok(prec >= 1, "working precision not positive"); for (auto x : N) ok(x >= 0, "negative term count"); for (auto x : cp) ok(x >= 1, "coefficient precision not positive");
    int w = n - 1; std::vector<int64_t> s(cp.begin(), cp.end());
    for (int64_t i = 0; i <= deg / 2; ++i) { int64_t sh = (deg - 2 * i) * w / 2; if (s[i] >= s[deg - i] + sh) s[deg - i] = s[i] - sh; else s[i] = s[deg - i] + sh; }
    for (int64_t k = 1; k <= deg; ++k) { // k p^prec > 2 deg p^(wk/2)
        ZZ L = sqr(ZZ(k)) * power_ZZ(p, 2 * s[deg - k]), R = 4 * sqr(ZZ(deg)) * power_ZZ(p, w * k); if (!(L > R)) fail("precision of coefficient " + std::to_string(deg - k) + " does not determine it"); }
    // the matrix really is known to the declared precisions: column of pole order i+1 is divisible by p^(n-1-i) and known to relative precision r_i = N_i + (i+1) - n
    if (p > 2 * n + prec) {
        ZZ mx; int64_t need = 0; std::vector<std::pair<int64_t, int64_t> > col;
        for (int i = 0; i < n; ++i) { int64_t ri = N[i] + i + 1 - n; if (N[i] == 0) ri = 0; for (int64_t t = 0; t < h[i]; ++t) col.push_back({n - 1 - i, ri + n - 1 - i}); int64_t a = p * (i + N[i]) - 1, v = 0; for (ZZ x(p); x <= a; x *= p) v += to_long(ZZ(a) / x); if (N[i]) need = std::max(need, ri + std::max<int64_t>(0, v - i)); }
        ok(prec >= need, "working precision too small for the term counts"); std::sort(col.begin(), col.end());
        for (int64_t k = 1; k <= deg; ++k) { int64_t best = -1; for (int64_t j = 0; j < deg; ++j) { int64_t sum = 0, left = k - 1; for (int64_t t = 0; t < deg && left; ++t) if (t != j) { sum += col[t].first; --left; } if (best < 0 || sum + col[j].second < best) best = sum + col[j].second; } if ((k < deg || w % 2 == 0) && cp[deg - k] > best) fail("declared precision of coefficient " + std::to_string(deg - k) + " exceeds what the matrix gives"); }
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 4000, 200000); }
