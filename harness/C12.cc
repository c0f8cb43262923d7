#include "hs.h"
#include <flint/fmpz_vec.h>
using namespace H;
static void run(Case &c) {
    Rng &r = c.r;
    if (c.k % 3 == 0) {   // the stepping routine alone, on arbitrary polynomials with matrix coefficients
        de_Rham_non_degenerate_local D; int n = r.in(1, 4), L = r.in(1, 6); D.n = n;
        ZZ md = r.one_in(4) ? ZZ(r.in(2, 50)) : r.coin() ? power_ZZ(r.pick(std::vector<long>{2, 3, 5, 7, 11, 101, 1000003}), r.in(1, 20)) : r.one_in(3) ? r.bits(200) + 2 : r.bits(64) + 2; if (r.one_in(12)) md = power2_ZZ(64) - r.in(1, 100); if (r.one_in(12)) md = power2_ZZ(64) + r.in(-3, 3); if (md < 2) md = 2;
        int64_t k = r.one_in(4) ? r.in(0, n + 1) : r.one_in(4) ? n + 2 : r.in(n + 2, 40); if (r.one_in(10)) k = r.in(41, 400);
        std::vector<std::vector<std::vector<ZZ> > > P(n + 2, std::vector<std::vector<ZZ> >(L, std::vector<ZZ>(L))); int dens = r.in(0, 4), top = r.in(0, 3);
        for (int i = 0; i < n + 2; ++i) for (int a = 0; a < L; ++a) for (int b = 0; b < L; ++b) { if (i == n + 1 && a) continue; if (top < 2 && i > n - top) continue; if (dens == 0 ? r.one_in(L) : dens == 1 ? (i == 0 || r.one_in(8)) : dens == 2 ? (a <= L - 1 - i && b >= i) : true) P[i][a][b] = r.one_in(3) ? md - 1 : r.below(md); }
        std::vector<ZZ> G(L); for (auto &x : G) x = r.one_in(3) ? md - 1 : r.below(md);
        c.d << "steps n=" << n << " size " << L << " modulus " << md << " k=" << k << " M="; for (auto &m : P) { c.d << "["; for (auto &a : m) { for (auto &b : a) c.d << b << " "; c.d << ";"; } c.d << "]"; } c.d << " G="; for (auto &x : G) c.d << x << " "; c.publish();
        fmpz_mat_struct *M = new fmpz_mat_struct[n + 2]; fmpz *g = _fmpz_vec_init(L), *o = _fmpz_vec_init(L); fmpz_t m; fmpz_init(m); fmpz_set_str(m, str(md).c_str(), 10);
        for (int i = 0; i < n + 2; ++i) { fmpz_mat_init(M + i, L, L); for (int a = 0; a < L; ++a) for (int b = 0; b < L; ++b) fmpz_set_str(fmpz_mat_entry(M + i, a, b), str(P[i][a][b]).c_str(), 10); }
        for (int a = 0; a < L; ++a) { fmpz_set_str(g + a, str(G[a]).c_str(), 10); fmpz_set_si(o + a, 99); }
        bool alias = r.one_in(3);
        D.reduce_vector_ND_poly_flint(alias ? g : o, M, k, g, m);
        std::vector<ZZ> R = G; for (int64_t x = k - 1; x >= 0; --x) { std::vector<ZZ> T(L); for (int a = 0; a < L; ++a) { for (int b = 0; b < L; ++b) { ZZ e(0); for (int i = n + 1; i >= 0; --i) e = e * x + P[i][a][b]; T[a] += (e % md) * R[b]; } T[a] %= md; } R = T; }
        for (int a = 0; a < L; ++a) { char *s = fmpz_get_str(0, 10, (alias ? g : o) + a); if (std::string(s) != str(R[a])) fail("entry " + std::to_string(a) + ": got " + s + " expected " + str(R[a])); free(s); }
        for (int i = 0; i < n + 2; ++i) for (int a = 0; a < L; ++a) for (int b = 0; b < L; ++b) { char *s = fmpz_get_str(0, 10, fmpz_mat_entry(M + i, a, b)); if (std::string(s) != str(P[i][a][b])) fail("input polynomial modified"); free(s); }
        return;
    }
    Conf g = conf(r, 0); if (g.d > 4) g.d = 4; if (g.d % g.p == 0) { g.p = 7; } int n = g.n, d = g.d, nv = n + 1; setmod(g); ZZ q = ZZ_p::modulus();
    poly f = goodf(r, nv, d, g.p, true, r.in(0, 4)); if (f.empty()) { c.trivial = true; return; }
    for (auto &t : f) if (g.e > 1 && r.one_in(3)) t.second = (t.second + g.p * r.below(q)) % q;
    int64_t m = r.in(1, 3); vi v = rsum(r, nv, d, 0), u = rsum(r, nv, d * m, r.coin() ? 1 : 0); bool big = r.one_in(3); vi ub = u; if (big) { ub = rsum(r, nv, d * r.in(1, 100000000), 0); }
    int64_t k = r.one_in(5) ? 0 : r.one_in(4) ? n + 1 : r.in(1, 14); bool sm = r.coin(); int order = r.in(0, 4);
    c.d << g << " f=" << str(f) << " u=" << str(u) << " v=" << str(v) << " k=" << k << " save_memory=" << sm << " order " << order << " base " << str(ub); c.publish();
    de_Rham_non_degenerate_local D(g.p, g.e, to_mzp(f), false, sm);
    Vec<int64_t> U = tovec(u), V = tovec(v), UB = tovec(ub);
    if (order == 1) D.compute_reduction_matrix_ND_poly_ZZ(V); if (order == 2) D.compute_reduction_matrix_ND_ZZ(V); if (order == 3) D.compute_reduction_matrix_ND_poly(V); if (order == 4) { D.compute_reduction_matrix_ND(V); D.compute_reduction_matrix_ND_poly_ZZ(V); }
    long L = D.coKernels_ND_basis.length(); same(L, (long)ppow(d, n), "size of the toric basis");
    Mat<ZZ_p> M = D.get_reduction_matrix_ND(U, V); ok(M.NumRows() == L && M.NumCols() == L, "shape");
    // meaning: the class of x^(u+v) e is the class of the combination of x^u e' (checked with the other model)
    bool pos = true; for (auto x : u) if (x < 1) pos = false;
    if (pos && n <= 2) {
        int64_t tries = n == 2 ? 3 : 6;
        std::vector<Vec<ZZ_p> > cl(L); for (long b = 0; b < L; ++b) cl[b] = D.monomial_to_basis_J(tovec(u + tovi(D.coKernels_ND_basis[b])));
        for (int64_t t = 0; t < tries; ++t) { long e = r.in(0, L - 1); Vec<ZZ_p> a = D.monomial_to_basis_J(tovec(u + v + tovi(D.coKernels_ND_basis[e]))), s; s.SetLength(a.length()); for (long b = 0; b < L; ++b) s += M[b][e] * cl[b]; if (s != a) fail("column of x^" + str(D.coKernels_ND_basis[e]) + " does not represent the same cohomology class"); }
    }
    Vec<ZZ> G; G.SetLength(L); int gk = r.in(0, 2); for (long i = 0; i < L; ++i) G[i] = gk == 0 ? ZZ(i == L - 1 - r.in(0, 1)) : gk == 1 ? r.below(q) : (r.one_in(3) ? q - 1 : ZZ(0)); Vec<ZZ_p> Gp = to_vec_ZZ_p(G);
    Mat<ZZ_p> MB = D.get_reduction_matrix_ND(UB, V); Mat<ZZ> ZB = D.get_reduction_matrix_ND_ZZ(UB, V); ok(to_mat_ZZ_p(ZB) == MB, "integer matrix form"); Vec<ZZ> R1 = mv(MB, G);
    Vec<ZZ_p> Rp; Vec<ZZ> RZ; if (r.coin()) { Rp.SetLength(2); Rp[0] = 5; RZ.SetLength(4); RZ[3] = 9; }
    D.reduce_vector_ND(Rp, UB, V, Gp); same(lift(Rp), R1, "vector form"); D.reduce_vector_ND_ZZ(RZ, UB, V, G); same(modv(RZ), R1, "integer vector form");
    Vec<ZZ> R = G; for (int64_t x = k - 1; x >= 0; --x) R = mv(D.get_reduction_matrix_ND(tovec(ub + x * v), V), R);
    D.reduce_vector_ND_poly(Rp, UB, V, k, Gp); same(lift(Rp), R, "k steps at once"); D.reduce_vector_ND_poly_ZZ(RZ, UB, V, k, G); same(modv(RZ), R, "k integer steps at once");
    Vec<ZZ> Ga = G; D.reduce_vector_ND_poly_ZZ(Ga, UB, V, k, Ga); same(modv(Ga), R, "k integer steps, output is the input");
    fmpz_mat_struct *PM = new fmpz_mat_struct[n + 2]; for (int i = 0; i < n + 2; ++i) fmpz_mat_init(PM + i, L, L); D.get_ND_poly_flint(PM, UB, V); fmpz *gg = _fmpz_vec_init(L), *oo = _fmpz_vec_init(L); fmpz_t md; fmpz_init(md); fmpz_set_str(md, str(q).c_str(), 10); for (long i = 0; i < L; ++i) fmpz_set_str(gg + i, str(G[i]).c_str(), 10);
    D.reduce_vector_ND_poly_flint(oo, PM, k, gg, md); for (long i = 0; i < L; ++i) { char *s = fmpz_get_str(0, 10, oo + i); ZZ z = to_ZZ(s) % q; free(s); if (z != R[i]) fail("FLINT steps, entry " + std::to_string(i)); }
    ok(D.get_reduction_matrix_ND(U, V) == M, "asking again changed the matrix");
}
int main(int argc, char **argv) { return main_(argc, argv, run, 2400, 60000); }
