#include "hs.h"
using namespace H;
static void tables(de_Rham_local &D, int n, int d) {
    D.n = n; D.d = d; D.verbose = false; D.tuple_list.SetLength((n + 1) * d + 1); D.tuple_dict.SetLength((n + 1) * d + 1);
    for (int i = 0; i <= (n + 1) * d; ++i) { tuple_list_generator(D.tuple_list[i], i, (int64_t)(n + 1)); for (long j = 0; j < D.tuple_list[i].length(); ++j) D.tuple_dict[i][D.tuple_list[i][j]] = j; }
}
static void run(Case &c) {
    Rng &r = c.r; int op = c.k % 4;
    static const int64_t ps[] = {2, 3, 5, 7, 11, 101, 1000003};
    int n = r.in(1, 3), d = r.in(2, n == 1 ? 7 : n == 2 ? 5 : 3); if (n == 3 && op != 1 && r.one_in(3)) d = 4; int64_t p = ps[r.in(0, 6)]; int e = r.in(1, 6);
    zz_p::init(p); ZZ_p::init(power_ZZ(p, e)); ZZ q = ZZ_p::modulus();
    if (op == 0 || op == 1) {
        poly f; std::vector<vi> ms; monos(n + 1, d, ms); int keep = r.in(1, 4); for (auto &m : ms) if (r.one_in(keep)) { ZZ x = r.below(q); if (r.one_in(4)) x = x * p % q; if (!IsZero(x)) f[m] = x; } if (f.empty()) f[r.pick(ms)] = 1;
        int l = r.in(0, (n + 1) * d); bool J = r.coin(); c.d << (J ? "matrix_J" : "matrix_ND") << " n=" << n << " d=" << d << " p=" << p << "^" << e << " level " << l << " f=" << str(f); c.publish();
        de_Rham_non_degenerate_local D; D.p = p; D.precision = e; tables(D, n, d); D.f = to_mzp(f); mzp f0 = D.f;
        Mat<ZZ_p> M; if (r.coin()) { M.SetDims(r.in(1, 4), r.in(1, 4)); for (long i = 0; i < M.NumRows(); ++i) for (long j = 0; j < M.NumCols(); ++j) M[i][j] = 1; }
        if (J) D.matrix_J(M, l); else D.matrix_ND(M, l);
        ok(D.f == f0, "f was modified");
        std::vector<vi> rows, cols; monos(n + 1, l, rows); int h = J ? l - (d - 1) : l - d; if (h >= 0) monos(n + 1, h, cols);
        same((long)M.NumRows(), (long)rows.size(), "rows"); same((long)M.NumCols(), (long)((n + 1) * cols.size()), "columns");
        for (int i = 0; i <= n; ++i) { poly g = pder(f, i); for (size_t j = 0; j < cols.size(); ++j) { poly w; for (auto &t : g) { vi m = t.first + cols[j]; if (!J) m[i]++; padd(w, m, t.second); } w = pred(w, q);
            for (size_t a = 0; a < rows.size(); ++a) { ZZ x(0); poly::iterator it = w.find(rows[a]); if (it != w.end()) x = it->second; if (rep(M[a][i * cols.size() + j]) != x) fail("entry row " + str(rows[a]) + " column (" + std::to_string(i) + "," + str(cols[j]) + "): got " + str(M[a][i * cols.size() + j]) + " expected " + str(x)); } } }
    } else {
        bool toric = op == 3; if (toric && n == 3 && d == 4) d = 3;
        int kind = r.in(0, 4); poly f; std::vector<vi> ms; monos(n + 1, d, ms); int known = -1;
        if (kind == 0) { // singular at a rational point (in the torus, or with some zero coordinates)
            vi pt(n + 1); bool nz = false; do { nz = false; for (auto &x : pt) { x = r.one_in(3) ? 0 : r.in(0, p - 1); if (x) nz = true; } } while (!nz);
            std::vector<poly> L; for (int t = 0; t < 2 * n + 3; ++t) { poly a; do { a.clear(); vi cf(n + 1); int64_t s = 0; int piv = 0; while (!pt[piv]) ++piv; for (int i = 0; i <= n; ++i) if (i != piv) { cf[i] = r.in(0, p - 1); s = (s + (__int128)cf[i] * pt[i]) % p; } cf[piv] = (int64_t)((__int128)(p - s) % p * pw(pt[piv], p - 2, p) % p); if (p == 2) cf[piv] = s % 2; for (int i = 0; i <= n; ++i) { vi m(n + 1, 0); m[i] = 1; padd(a, m, ZZ(cf[i])); } } while (false); L.push_back(a); }
            std::vector<vi> hs; monos(n + 1, d - 2, hs);
            for (int t = 0; t < 2 * n + 2; ++t) { poly h; for (auto &m : hs) if (r.coin()) padd(h, m, ZZ(r.in(0, p - 1))); poly g = pmul(pmul(L[t], L[t + 1]), h); for (auto &x : g) padd(f, x.first, x.second); }
            f = pred(f, ZZ(p)); known = 0;
        } else if (kind == 1 && d % p != 0) { // diagonal: smooth and non-degenerate; a linear change keeps smoothness
            for (int i = 0; i <= n; ++i) { vi m(n + 1, 0); m[i] = d; f[m] = ZZ(r.in(1, p - 1)); } known = 1;
            if (!toric) { std::vector<std::vector<ZZ> > M(n + 1, std::vector<ZZ>(n + 1)); for (int i = 0; i <= n; ++i) { M[i][i] = 1; for (int j = i + 1; j <= n; ++j) M[i][j] = r.in(0, p - 1); } if (r.coin()) std::swap(M[0], M[n]); f = pred(linsub(f, M, n + 1), ZZ(p)); }
        } else if (kind == 2) { for (auto &m : ms) if (r.one_in(3)) { ZZ x(r.in(0, p - 1)); if (!IsZero(x)) f[m] = x; } }
        else f = randf(r, n + 1, d, p, r.in(0, 3));
        f = pred(f, ZZ(p));
        if (f.empty()) { f[r.pick(ms)] = 1; known = -1; }
        c.d << (toric ? "isND" : "isSmooth") << " n=" << n << " d=" << d << " p=" << p << " f=" << str(f); c.publish();
        mzs F = to_mzs(f); if (r.coin()) for (auto &m : ms) if (r.one_in(4)) F[tovec(m)];   // explicit zero coefficients
        mzs F0 = F; bool got = toric ? isND(F) : isSmooth(F);
        ok(F == F0, "f was modified");
        if (known == 0) ok(!got, "a polynomial with a rational singular point was accepted");
        if (known == 1) ok(got, "a smooth (diagonal) polynomial was refused");
        same(got, fullrank(f, n + 1, d, p, toric), "rank criterion");
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 6000, 100000); }
