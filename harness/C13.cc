#include "hs.h"
using namespace H;
static Vec<ZZ_p> comb(const std::vector<std::pair<ZZ, vi> > &t, const std::function<Vec<ZZ_p>(const vi &)> &F, long L) { Vec<ZZ_p> s; s.SetLength(L); for (auto &x : t) { Vec<ZZ_p> a = F(x.second); if (a.length() != L) fail("wrong number of coordinates"); s += to_ZZ_p(x.first) * a; } return s; }
static void run(Case &c) {
    Rng &r = c.r; Conf g = conf(r, 0); int op = c.k % 6; if (g.d > 4 && op > 2) g.d = 4; if (g.d % g.p == 0) g.p = 7; int n = g.n, d = g.d, nv = n + 1; setmod(g); ZZ q = ZZ_p::modulus();
    bool toric = op >= 2;
    poly f = goodf(r, nv, d, g.p, toric, r.in(0, 4)); if (f.empty()) { c.trivial = true; return; }
    for (auto &t : f) if (g.e > 1 && r.one_in(3)) t.second = (t.second + g.p * r.below(q)) % q;
    bool sm = r.coin(); int64_t m = r.in(1, n + 2); vi u; bool big = m * d >= nv; if (!big) { m = n + 1; } u = rsum(r, nv, m * d, 1);
    c.d << "op " << op << " " << g << " f=" << str(f) << " save_memory=" << sm << " u=" << str(u); c.publish();
    std::shared_ptr<de_Rham_local> D; std::shared_ptr<de_Rham_non_degenerate_local> N;
    if (toric) { N = std::make_shared<de_Rham_non_degenerate_local>(g.p, g.e, to_mzp(f), false, sm); D = N; } else D = std::make_shared<de_Rham_local>(g.p, g.e, to_mzp(f), false, sm);
    long L = D->coKernels_J_basis.length();
    { int64_t b = 0; ZZ w = power_ZZ(d - 1, n + 1) + (n % 2 ? d - 1 : -(d - 1)) * 1; w = (power_ZZ(d - 1, n + 1) + ((n + 1) % 2 ? -1 : 1) * ZZ(d - 1)) / d; b = to_long(w); same(L, (long)b, "dimension of the primitive cohomology"); }
    auto FJ = [&](const vi &x) { return D->monomial_to_basis_J(tovec(x)); };
    std::function<Vec<ZZ_p>(const vi &)> Fm = FJ; if (toric && (op == 3 || op == 5)) Fm = [&](const vi &x) { return N->monomial_to_basis_ND(tovec(x)); };
    vi one(nv, 1);
    if (op == 0) {   // shapes and entries of the tables
        for (int k = 1; k <= n; ++k) { Mat<ZZ_p> F = *D->get_final_reduction_matrix_J(k); std::vector<vi> ms; monos(nv, k * d - nv, ms); same((long)F.NumRows(), L, "rows of the final map"); same((long)F.NumCols(), (long)ms.size(), "columns of the final map");
            ZZ fact(1); for (int i = 1; i < k; ++i) fact *= i;
            std::map<vi, int> ix; for (size_t i = 0; i < ms.size(); ++i) ix[ms[i]] = i;
            for (long b = 0; b < L; ++b) { vi e = tovi(D->coKernels_J_basis[b]); if (!ix.count(e)) continue; for (long i = 0; i < L; ++i) if (rep(F[i][ix[e]]) != (i == b ? fact % q : ZZ(0))) fail("final map on the basis element " + str(e)); }
            // A = sum F_i df_i  =>  (k-1)! A / f^k ~ (k-2)! sum dF_i/dx_i / f^(k-1)
            if (k >= 2) { Mat<ZZ_p> Fl = *D->get_final_reduction_matrix_J(k - 1); std::vector<vi> ml, mf; monos(nv, (k - 1) * d - nv, ml); monos(nv, k * d - nv - (d - 1), mf); std::map<vi, int> il; for (size_t i = 0; i < ml.size(); ++i) il[ml[i]] = i;
                for (int t = 0; t < 8 && mf.size(); ++t) { vi s = r.pick(mf); int i = r.in(0, n); Vec<ZZ_p> a, b; a.SetLength(L); b.SetLength(L); for (auto &x : pder(f, i)) for (long j = 0; j < L; ++j) a[j] += to_ZZ_p(x.second) * F[j][ix[s + x.first]]; if (s[i]) { vi w(s); w[i]--; for (long j = 0; j < L; ++j) b[j] += s[i] * Fl[j][il[w]]; } if (a != b) fail("final map of pole order " + std::to_string(k) + " does not kill the exact form of " + str(s)); } }
        }
        std::vector<vi> gs, us, hs; monos(nv, d * n - n, gs); monos(nv, n, us); monos(nv, d * n - nv, hs); std::map<vi, int> hi; for (size_t i = 0; i < hs.size(); ++i) hi[hs[i]] = i;
        for (int t = 0; t < 3; ++t) { vi w = r.pick(us); Mat<ZZ_p> I = *D->get_inclusion_matrix_J(tovec(w)); same((long)I.NumRows(), (long)hs.size(), "rows of the inclusion"); same((long)I.NumCols(), (long)gs.size(), "columns of the inclusion"); for (size_t j = 0; j < gs.size(); ++j) { vi x = gs[j] + w; bool okk = true; for (auto &z : x) if (--z < 0) okk = false; for (size_t i = 0; i < hs.size(); ++i) if (rep(I[i][j]) != (okk && (int)i == hi[x] ? 1 : 0)) fail("inclusion entry for " + str(gs[j])); } }
    } else if (op == 1 || op == 2 || op == 3) {
        // basis elements, and multiplication of numerator and denominator by f^l
        long b = r.in(0, L - 1); vi e = tovi(D->coKernels_J_basis[b]) + one; int64_t mb = total(e) / d; bool any = r.one_in(3); vi s = any ? u : e; if (!any) mb = total(e) / d; else mb = m;
        Vec<ZZ_p> base = Fm(s);
        if (!any) { ZZ fact(1); for (int i = 1; i < mb; ++i) fact *= i; for (long i = 0; i < L; ++i) if (rep(base[i]) != (i == b ? fact % q : ZZ(0))) fail("coordinates of the basis element " + str(e)); }
        int l = r.in(1, f.size() > 6 ? 1 : 2); poly fp; fp[vi(nv, 0)] = 1; for (int i = 0; i < l; ++i) fp = pmul(fp, f); ZZ mult(1); for (int i = 0; i < l; ++i) mult *= mb + i;
        std::vector<std::pair<ZZ, vi> > t; for (auto &x : fp) t.push_back({x.second, s + x.first}); Vec<ZZ_p> a = comb(t, Fm, L); if (a != to_ZZ_p(mult) * base) fail("multiplying by f^" + std::to_string(l) + " changed the coordinates of " + str(s));
    } else if (op == 4) {
        for (int t = 0; t < 3; ++t) { vi w = t ? rsum(r, nv, r.in(1, n + 3) * (int64_t)d + (d < nv ? d : 0), 1) : u; Vec<ZZ_p> a = D->monomial_to_basis_J(tovec(w)), b = N->monomial_to_basis_ND(tovec(w)); if (a != b) fail("the two models disagree on " + str(w)); }
        // the map of the toric basis
        vi w = rsum(r, nv, d, 1); Mat<ZZ_p> B = *N->get_coKernels_ND_to_basis(tovec(w)); same((long)B.NumRows(), L, "rows of the toric map"); same((long)B.NumCols(), (long)N->coKernels_ND_basis.length(), "columns of the toric map");
        for (int t = 0; t < 4; ++t) { long j = r.in(0, B.NumCols() - 1); Vec<ZZ_p> a = D->monomial_to_basis_J(tovec(w + tovi(N->coKernels_ND_basis[j]))); for (long i = 0; i < L; ++i) if (B[i][j] != a[i]) fail("toric map on x^" + str(w) + " times basis element " + std::to_string(j)); }
    }
    if (op != 0 && op != 4) {  // exact forms: d/dx_i of A / f^m
        for (int t = 0; t < 2; ++t) { int64_t mm = r.in(1, n + 1); int64_t s = mm * d - n; if (s < 0) continue; vi a = rsum(r, nv, s, 0); int i = r.in(0, n);
            // (mm-1)! dA/f^mm - mm! A df_i / f^(mm+1) is exact; with Omega/(x0..xn) exponents are one larger
            std::vector<std::pair<ZZ, vi> > L1, R1; if (a[i]) { vi x = a + one; x[i]--; bool p = true; for (auto z : x) if (z < 1) p = false; if (p) L1.push_back({ZZ(a[i]), x}); }
            for (auto &x : pder(f, i)) R1.push_back({x.second, a + x.first + one});
            if (comb(L1, Fm, L) != comb(R1, Fm, L)) fail("the exact form of " + str(a) + " in direction " + std::to_string(i) + " has non-zero coordinates"); }
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 2400, 60000); }
