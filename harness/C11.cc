#include "hs.h"
using namespace H;
static void run(Case &c) {
    Rng &r = c.r; Conf g = conf(r, 40); if (c.k < 4) { g.n = 2; g.d = 3; g.p = 7; g.e = 3; } int n = g.n, d = g.d, nv = n + 1; setmod(g); ZZ q = ZZ_p::modulus();
    poly f = goodf(r, nv, d, g.p, false, r.in(0, 4)); if (f.empty()) { c.trivial = true; return; }
    for (auto &t : f) if (g.e > 1 && r.one_in(3)) t.second = (t.second + g.p * r.below(q)) % q; 
    vi v = rsum(r, nv, d, 0), u(nv, 0); int uk = r.in(0, 3); for (int i = 0; i < nv; ++i) if (v[i]) u[i] = uk == 0 ? r.in(0, 3) : uk == 1 ? r.in(0, 100) : uk == 2 ? r.in(0, 1000000000LL) : g.p * r.in(0, 5);
    int64_t k = r.one_in(5) ? 0 : r.one_in(5) ? 1 : r.in(2, 12); if (n < 3 && r.one_in(30)) k = r.in(13, 60);
    bool sm = r.coin(), zzfirst = r.coin();
    c.d << g << " f=" << str(f) << " u=" << str(u) << " v=" << str(v) << " k=" << k << " save_memory=" << sm << (zzfirst ? " ZZ first" : ""); c.publish();
    de_Rham_local D(g.p, g.e, to_mzp(f), false, sm);
    Vec<int64_t> U = tovec(u), V = tovec(v);
    std::vector<vi> Gs, Fs; monos(nv, d * n - n, Gs); monos(nv, d * n - 2 * n, Fs); std::map<vi, int> gi; for (size_t i = 0; i < Gs.size(); ++i) gi[Gs[i]] = i;
    if (zzfirst) { Mat<ZZ> z = D.get_reduction_matrix_J_ZZ(U, V); (void)z; }
    // the matrix polynomial: column of x^w comes from writing x^(w+v-1) in the Jacobian ideal
    Vec<Mat<ZZ_p> > P = D.compute_reduction_matrix_J(V)->second; same((long)P.length(), (long)(n + 2), "number of coefficients");
    for (long i = 0; i < P.length(); ++i) ok(P[i].NumRows() == (long)Gs.size() && P[i].NumCols() == (long)Gs.size(), "shape of a coefficient");
    std::vector<poly> df(nv); for (int i = 0; i < nv; ++i) df[i] = pred(pder(f, i), q);
    std::vector<size_t> colsel; if (Gs.size() <= 25) for (size_t i = 0; i < Gs.size(); ++i) colsel.push_back(i); else for (int i = 0; i < 12; ++i) colsel.push_back(r.in(0, Gs.size() - 1));
    for (size_t ci : colsel) {
        vi w = Gs[ci] + v; bool adm = true; for (auto &x : w) if (--x < 0) adm = false;
        poly acc; std::vector<ZZ> m0(Gs.size());
        for (int i = 0; i < nv; ++i) { size_t seen = 0; for (auto &s : Fs) { vi row(s); for (int t = 0; t < nv; ++t) if (t != i) row[t]++; int ri = gi[row]; ZZ a = rep(P[i + 1][ri][ci]); if (IsZero(a)) continue; ++seen; m0[ri] += a * s[i]; for (auto &t : df[i]) padd(acc, s + t.first, a * t.second); }
            size_t nz = 0; for (size_t ri = 0; ri < Gs.size(); ++ri) if (!IsZero(P[i + 1][ri][ci])) ++nz; same(nz, seen, "coefficient of u_" + std::to_string(i) + " has entries outside x^s*x_0..x_n/x_i"); }
        poly want; if (adm) want[w] = 1;
        same(str(pred(acc, q)), str(want), "sum F_i df_i for the monomial " + str(Gs[ci]));
        for (size_t ri = 0; ri < Gs.size(); ++ri) if (m0[ri] % q != rep(P[0][ri][ci])) fail("constant coefficient is not sum x_i dF_i/dx_i at row " + str(Gs[ri]) + " column " + str(Gs[ci]));
    }
    // evaluation
    Mat<ZZ_p> M = D.get_reduction_matrix_J(U, V); Mat<ZZ> Z = D.get_reduction_matrix_J_ZZ(U, V);
    ok(M.NumRows() == (long)Gs.size() && M.NumCols() == (long)Gs.size() && Z.NumRows() == M.NumRows() && Z.NumCols() == M.NumCols(), "shape of the evaluated matrix");
    for (size_t i = 0; i < Gs.size(); ++i) for (size_t j = 0; j < Gs.size(); ++j) { ZZ s = rep(P[0][i][j]); for (int t = 0; t < nv; ++t) s += u[t] * rep(P[t + 1][i][j]); s %= q; if (rep(M[i][j]) != s) fail("matrix is not M0 + sum u_i M_i"); if (Z[i][j] % q != s) fail("integer matrix differs from M0 + sum u_i M_i modulo p^r"); }
    Vec<ZZ> G; G.SetLength(Gs.size()); int gk = r.in(0, 2); for (long i = 0; i < G.length(); ++i) G[i] = gk == 0 ? ZZ(i == r.in(0, G.length() - 1)) : gk == 1 ? r.below(q) : (r.one_in(3) ? q - 1 : ZZ(0));
    Vec<ZZ_p> Gp = to_vec_ZZ_p(G); Vec<ZZ> R1 = mv(M, G);
    same(lift(D.reduce_vector_J(U, V, Gp)), R1, "vector form"); Vec<ZZ> RZ; if (r.coin()) { RZ.SetLength(3); RZ[0] = 7; } D.reduce_vector_J_ZZ(RZ, U, V, G); same(modv(RZ), R1, "integer vector form");
    // k steps
    Vec<ZZ> R = G; for (int64_t x = k - 1; x >= 0; --x) { Vec<int64_t> ux = tovec(u + x * v); R = mv(D.get_reduction_matrix_J(ux, V), R); }
    Vec<ZZ_p> Rp; if (r.coin()) { Rp.SetLength(2); Rp[1] = 3; } D.reduce_vector_J_poly(Rp, U, V, k, Gp); same(lift(Rp), R, "k steps at once");
    D.reduce_vector_J_poly_ZZ(RZ, U, V, k, G); same(modv(RZ), R, "k integer steps at once");
    Vec<ZZ> Ga = G; D.reduce_vector_J_poly_ZZ(Ga, U, V, k, Ga); same(modv(Ga), R, "k integer steps, output is the input"); Vec<ZZ_p> Gb = Gp; D.reduce_vector_J_poly(Gb, U, V, k, Gb); same(lift(Gb), R, "k steps, output is the input");
    Mat<ZZ_p> M2 = D.get_reduction_matrix_J(U, V); ok(M2 == M, "asking again changed the matrix");
}
int main(int argc, char **argv) { return main_(argc, argv, run, 1600, 40000); }
