#include "hs.h"
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace H;
static std::string s(const Vec<ZZ_p> &v) { return str(v); }
static void run(Case &c) {
    Rng &r = c.r; int n = 2, d = r.coin() ? 3 : 4; if (r.one_in(8)) { n = 1; d = r.in(2, 5); } else if (r.one_in(60)) { n = 3; d = 4; }
    static const int64_t ps[] = {2, 3, 5, 7, 11, 13, 17, 23}; int64_t p; do p = ps[r.in(0, n == 3 ? 2 : d == 4 ? 4 : 7)]; while (d % p == 0);
    int N = r.in(1, n == 3 ? 1 : d == 4 ? 2 : 3), nv = n + 1; int64_t val = 0; for (int64_t q = p; q <= p * (n + N - 1) - 1; q *= p) val += (p * (n + N - 1) - 1) / q;
    int e = std::max<int64_t>(1, val - (n - 1)) + r.in(0, 3); if (r.one_in(5)) e += r.in(10, 30);
    bool toric = !r.one_in(5); zz_p::init(p); ZZ_p::init(power_ZZ(p, e)); poly f = goodf(r, nv, d, p, toric, r.in(0, 4)); if (f.empty()) { c.trivial = true; return; }
    if (r.coin()) for (auto &t : f) t.second += ZZ(p) * r.in(0, 1000);     // another lift
    c.d << (toric ? "toric " : "jacobian ") << "n=" << n << " d=" << d << " p=" << p << "^" << e << " N=" << N << " f=" << str(f); c.publish();
    std::shared_ptr<hypersurface> h; std::shared_ptr<hypersurface_non_degenerate> t;
    if (toric) { t = std::make_shared<hypersurface_non_degenerate>(p, e, to_mzp(f), false); h = t; } else h = std::make_shared<hypersurface>(p, e, to_mzp(f), false);
    hypersurface plain(p, e, to_mzp(f), false);
    long nb = h->dR->coKernels_J_basis.length(); int nt = n == 3 ? 1 : 2;
    for (int q = 0; q < nt && nb; ++q) {
        long k = r.in(0, nb - 1); c.d << " col " << k; c.publish();
        Vec<ZZ_p> a = h->frob_J_ZZ(k, N, 0); same(s(plain.frob_J_ZZ(k, N, 0)), s(a), "the Jacobian algorithm differs between the two classes");
        int l = r.in(1, 2); same(s(h->frob_J_ZZ(k, N, l)), s(a), "frob_J_ZZ loop " + std::to_string(l)); int l2 = r.in(0, 2); same(s(h->frob_J_ZZ_p(k, N, l2)), s(a), "frob_J_ZZ_p loop " + std::to_string(l2)); same(s(h->frob_J(k, N)), s(a), "frob_J");
        if (!toric) continue;
        Vec<ZZ_p> b = t->frob_ND(k, N);
        same(s(t->frob_ND_flint(k, N)), s(b), "frob_ND_flint"); l = r.in(0, 2); same(s(t->frob_ND_ZZ(k, N, l)), s(b), "frob_ND_ZZ loop " + std::to_string(l)); l = r.in(0, 1); same(s(t->frob_ND_ZZ_p(k, N, l)), s(b), "frob_ND_ZZ_p loop " + std::to_string(l));
#ifdef _OPENMP
        omp_set_num_threads(r.in(2, 4)); Vec<ZZ_p> b4 = t->frob_ND_flint(k, N); omp_set_num_threads(1); same(s(b4), s(b), "frob_ND_flint with several threads");
#endif
        for (long i = 0; i < a.length(); ++i) if (a[i] != b[i]) fail("the toric and the Jacobian algorithm differ: " + s(a) + " and " + s(b));
    }
    if (n < 3 && nb <= 8 && r.one_in(3)) {
        Vec<int64_t> NN; NN.SetLength(n); for (auto &x : NN) x = r.in(0, N); c.d << " matrix N=" << str(NN); c.publish();
        std::vector<int> th = {1, (int)r.in(2, 4)};
        for (int th_ : th) {
#ifdef _OPENMP
            omp_set_num_threads(th_);
#endif
            for (int w = 0; w < (toric ? 2 : 1); ++w) {
                Mat<ZZ_p> F = w ? t->frob_matrix_ND(NN) : h->frob_matrix_J(NN); ok(F.NumRows() == nb && F.NumCols() == nb, "dimensions of the Frobenius matrix");
#ifdef _OPENMP
                omp_set_num_threads(1);
#endif
                for (long k = 0; k < nb; ++k) { int64_t m = (total(tovi(h->dR->coKernels_J_basis[k])) + nv) / d; Vec<ZZ_p> col; col.SetLength(nb); if (NN[m - 1] > 0) col = w ? t->frob_ND(k, NN[m - 1]) : h->frob_J(k, NN[m - 1]); for (long i = 0; i < nb; ++i) if (F[i][k] != col[i]) fail(std::string("column ") + std::to_string(k) + " of the " + (w ? "toric" : "Jacobian") + " matrix with " + std::to_string(th_) + " threads"); }
#ifdef _OPENMP
                omp_set_num_threads(th_);
#endif
            }
#ifdef _OPENMP
            omp_set_num_threads(1);
#endif
        }
    }
}
int main(int argc, char **argv) {
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    return main_(argc, argv, run, 4000, 60000);
}
