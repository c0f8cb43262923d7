#include "hs.h"
#include "matrix.h"
using namespace H;
static void run(Case &c) {
    Rng &r = c.r; static const int64_t ps[] = {2, 3, 5, 7, 11, 13, 101, 65537, 1000003, 1073741827};
    if (c.k % 4) { int64_t p = ps[r.in(0, 9)]; int n = r.one_in(5) ? r.in(1, 25) : r.in(1, 6); zz_p::init(p); ZZ_p::init(power_ZZ(p, r.in(1, 3))); SetSeed(ZZ((long)r.in(0, 1L << 40))); c.d << "SL size " << n << " p=" << p; c.publish();
        Mat<zz_p> M = random_SL_matrix(n); ok(M.NumRows() == n && M.NumCols() == n, "dimensions"); std::vector<std::vector<int64_t> > a(n, std::vector<int64_t>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = rep(M[i][j]);
        int64_t det = 1; for (int k = 0; k < n; ++k) { int s = k; while (s < n && !a[s][k]) ++s; if (s == n) { det = 0; break; } if (s != k) { std::swap(a[s], a[k]); det = (p - det) % p; } det = (int64_t)((__int128)det * a[k][k] % p); int64_t iv = pw(a[k][k], p - 2, p); for (int i = k + 1; i < n; ++i) { int64_t m = (int64_t)((__int128)(p - a[i][k]) % p * iv % p); for (int j = k; j < n; ++j) a[i][j] = (a[i][j] + (int64_t)((__int128)m * a[k][j] % p)) % p; } }
        same(det, (int64_t)(1 % p), "determinant"); return; }
    static const int64_t qs[] = {3, 5, 7, 11, 13, 31, 101}; int n = r.one_in(4) ? 1 : 2, d = n == 1 ? r.in(2, 5) : r.one_in(4) ? 4 : 3, nv = n + 1; int64_t p = qs[r.in(0, 6)]; if (r.one_in(6)) p = 2; if (d % p == 0) p = 7; zz_p::init(p); ZZ_p::init(power_ZZ(p, r.in(1, 3))); SetSeed(ZZ((long)r.in(0, 1L << 40)));
    poly f; std::vector<vi> ms; monos(nv, d, ms); int want = r.in(0, 3); // 0: non-degenerate, 1: no pure powers, 2: anything, 3: singular
    for (int t = 0; t < 40; ++t) { f = pred(randf(r, nv, d, p, want == 1 ? 2 : r.in(0, 3)), ZZ(p)); if (want == 1) for (int i = 0; i < nv; ++i) if (r.coin()) { vi m(nv, 0); m[i] = d; f.erase(m); } if (f.empty()) continue; if (want == 0 && !fullrank(f, nv, d, p, true)) continue; if (want == 1 && !fullrank(f, nv, d, p, false)) continue; if (want == 3) { poly l; for (int i = 0; i < nv; ++i) { vi e(nv, 0); e[i] = 1; padd(l, e, ZZ(r.in(0, p - 1))); } l = pred(l, ZZ(p)); poly g = l; if (l.empty()) continue; for (int i = 1; i < d; ++i) g = pmul(g, l); f = pred(g, ZZ(p)); if (f.empty()) continue; } break; }
    if (f.empty()) { c.trivial = true; return; }
    int64_t N = want == 3 ? r.in(0, 5) : r.one_in(4) ? r.in(0, 3) : 30; bool nd = fullrank(f, nv, d, p, true); c.d << "search n=" << n << " d=" << d << " p=" << p << " tries " << N << " f=" << str(f); c.publish();
    mzs g = to_mzs(f); Mat<zz_p> M = find_change_of_variables(g, N); ok(M.NumRows() == nv && M.NumCols() == nv, "dimensions"); if (nd) { ok(IsIdent(M, nv), "a non-degenerate polynomial did not get the identity: " + str(M)); return; }
    if (IsZero(M)) return; ok(N > 0, "no tries, yet a matrix"); ok(determinant(M) == 1, "determinant is not one: " + str(M)); std::vector<std::vector<ZZ> > A(nv, std::vector<ZZ>(nv)); for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j) A[i][j] = rep(M[i][j]);
    poly h = pred(linsub(f, A, nv), ZZ(p)); if (h.empty() || !fullrank(h, nv, d, p, true)) fail("the substituted polynomial is degenerate: " + str(M));
}
int main(int argc, char **argv) { return main_(argc, argv, run, 12000, 300000); }
