#include "harness.h"
#include "vec_int64.h"
using namespace NTL;
using namespace H;
static void run(Case &c) {
    Rng &r = c.r;
    int n = c.k < 20 ? c.k % 6 : r.in(0, 12); if (r.one_in(20)) n = r.in(20, 80);
    Vec<int64_t> v; v.SetLength(n); int64_t tot = 0; int mode = r.in(0, 4);
    for (int i = 0; i < n; ++i) { v[i] = mode == 0 ? 0 : mode == 1 ? r.in(0, 1) : mode == 2 ? r.in(0, 4) : mode == 3 ? (r.one_in(3) ? r.in(0, 30) : 0) : r.in(0, 60); tot += v[i]; }
    if (r.one_in(12) && n) { int i = r.in(0, n - 1); v[i] = INT64_MAX - r.in(0, 1); tot = 1 << 12; }
    const Vec<int64_t> v0 = v;
    int64_t q = r.one_in(5) ? tot + r.in(0, 3) : r.in(0, tot < 1 ? 1 : (tot > 3000 ? 3000 : tot)); int64_t s = r.in(0, 8);
    c.d << "v=" << v << " r=" << q << " s=" << s; c.publish();
    auto naive = [&](Vec<int64_t> w, int64_t k) { for (int i = 0; i < w.length() && k > 0; ++i) { int64_t t = w[i] < k ? w[i] : k; if (w[i] > 0) { w[i] -= t; k -= t; } } return w; };
    same(tweak_step(v), naive(v, 1), "tweak_step"); ok(v == v0, "tweak_step modified its argument");
    Vec<int64_t> t = tweak(v, q); same(t, naive(v, q), "tweak"); ok(v == v0, "tweak modified its argument");
    same(tweak(t, s), tweak(v, q + s), "tweak r then s"); 
    same(tweak(v, 0), v0, "tweak by 0");
    for (int i = 0; i < n; ++i) {
        if (v[i] > 0) { Vec<int64_t> d = diff(v, i), e = v0; --e[i]; same(d, e, "diff at " + std::to_string(i)); }
        ok(v == v0, "diff modified its argument");
    }
    if (r.one_in(300) && n) { int i = r.in(0, n - 1); if (v[i] == 0) ok(ends([&] { Vec<int64_t> d = diff(v, i); volatile int64_t x = d[0]; (void)x; }), "diff of a zero entry returned"); }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 20000, 600000); }
