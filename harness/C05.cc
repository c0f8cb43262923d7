#include "harness.h"
#include "tools.h"
#include "hypersurface.h"
using namespace NTL;
using namespace H;
typedef std::map<Vec<int64_t>, ZZ, vi64less> mz; typedef std::map<Vec<int64_t>, ZZ_p, vi64less> mzp; typedef std::map<Vec<int64_t>, zz_p, vi64less> mzs; typedef std::map<Vec<int64_t>, int64_t, vi64less> mi;
static poly rpoly(Rng &r, int n, int d, int cb, bool hom) {
    poly f; std::vector<vi> ms; monos(hom ? n : n + 1, d, ms); int keep = r.in(0, 4);
    for (auto m : ms) { if (!hom) m.pop_back(); if (keep == 0 ? r.one_in(4) : keep == 4 || r.coin()) { ZZ c = r.bits(cb); if (r.coin()) c = -c; if (!IsZero(c)) f[m] = c; } }
    if (f.empty()) f[ms.size() ? (hom ? ms[0] : vi(n, 0)) : vi(n, 0)] = 1;
    return f;
}
// naive composition: substitute x_i -> sum_j M[i][j] x_j
static poly subst(const poly &f, const std::vector<std::vector<ZZ> > &M, int n) {
    std::vector<poly> L(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vi e(n, 0); e[j] = 1; if (!IsZero(M[i][j])) padd(L[i], e, M[i][j]); }
    poly r;
    for (auto &t : f) { poly q; q[vi(n, 0)] = t.second; for (int i = 0; i < n; ++i) for (int k = 0; k < t.first[i]; ++k) q = pmul(q, L[i]); for (auto &s : q) padd(r, s.first, s.second); }
    return r;
}
template <class T> static poly from(const std::map<Vec<int64_t>, T, vi64less> &g, ZZ (*cv)(const T &)) { poly r; for (auto &t : g) { ZZ c = cv(t.second); if (!IsZero(c)) r[tovi(t.first)] = c; } return r; }
static ZZ cz(const ZZ &a) { return a; } static ZZ cp(const ZZ_p &a) { return rep(a); } static ZZ cs(const zz_p &a) { return ZZ(rep(a)); } static ZZ ci(const int64_t &a) { return ZZ(a); }
static void run(Case &c) {
    Rng &r = c.r; int op = c.k % 4;
    if (op <= 1) {
        int n = r.in(1, 4), d = r.in(0, n >= 4 ? 4 : 6), cb = r.in(1, 9); bool hom = r.coin();
        poly f = rpoly(r, n, d, cb, hom);
        std::vector<std::vector<ZZ> > M(n, std::vector<ZZ>(n)); int mk = r.in(0, 5);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i][j] = mk == 0 ? ZZ(i == j) : mk == 1 ? ZZ(r.in(0, 1)) : mk == 2 ? (r.one_in(3) ? ZZ(r.in(-5, 5)) : ZZ(0)) : mk == 3 ? ZZ(j == (i + 1) % n) : ZZ(r.in(-9, 9));
        if (mk == 4 && n > 1) { M[r.in(0, n - 1)] = M[0]; }
        std::ostringstream ms; for (auto &row : M) { for (auto &x : row) ms << x << " "; ms << "; "; }
        int ring = r.in(0, 3); static const long ps[] = {2, 3, 5, 7, 101, 1000003};
        long p = ps[r.in(0, 5)]; int e = r.in(1, 5);
        c.d << "change_of_variables ring " << ring << " p " << p << "^" << e << " f=" << str(f) << " M=" << ms.str(); c.publish();
        poly exact = subst(f, M, n);
        if (ring == 0) {
            mz F; for (auto &t : f) F[tovec(t.first)] = t.second; Mat<ZZ> A; A.SetDims(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = M[i][j];
            mz F0 = F; same(str(from(change_of_variables<ZZ>(F, A), cz)), str(exact), "composition over ZZ");
            if (mk == 0) { mz g = change_of_variables<ZZ>(F, A); ok(from(g, cz) == f, "identity"); }
        } else if (ring == 1) {
            ZZ q = power_ZZ(p, e); ZZ_p::init(q); mzp F; for (auto &t : f) F[tovec(t.first)] = to_ZZ_p(t.second); Mat<ZZ_p> A; A.SetDims(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = to_ZZ_p(M[i][j]);
            same(str(from(change_of_variables<ZZ_p>(F, A), cp)), str(pred(exact, q)), "composition over ZZ_p");
        } else if (ring == 2) {
            zz_p::init(p); mzs F; for (auto &t : f) F[tovec(t.first)] = to_zz_p(t.second); Mat<zz_p> A; A.SetDims(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = to_zz_p(M[i][j]);
            same(str(from(change_of_variables<zz_p>(F, A), cs)), str(pred(exact, ZZ(p))), "composition over zz_p");
        } else {
            ZZ q = power_ZZ(p, 150); ZZ_p::init(q); mzp F; for (auto &t : f) F[tovec(t.first)] = to_ZZ_p(t.second); Mat<ZZ_p> A; A.SetDims(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i][j] = to_ZZ_p(M[i][j]);
            mzp G = change_of_variables<ZZ_p>(F, A);
            same(str(from(G, cp)), str(pred(exact, q)), "composition over ZZ_p, large modulus");
        }
    } else if (op == 2) {
        int n = r.in(1, 5); vi u(n), v(n); int m = r.in(0, 3); int64_t tot = 0;
        for (int i = 0; i < n; ++i) { u[i] = r.in(0, m == 0 ? 2 : m == 1 ? 8 : n <= 2 ? 25 : 6); v[i] = m == 2 ? r.in(0, 1) : r.in(-3, m == 1 ? 2 : 6); if (m == 3 && tot > 14) u[i] = r.in(0, 2); tot += u[i]; }
        c.d << "change_of_variables_monomial u=" << str(u) << " v=" << str(v); c.publish();
        poly e; e[vi(n + 1, 0)] = 1;
        for (int i = 0; i < n; ++i) { poly L; vi a(n + 1, 0), b(n + 1, 0); a[i] = 1; b[n] = 1; L[a] = 1; if (v[i]) L[b] = ZZ(v[i]); for (int k = 0; k < u[i]; ++k) e = pmul(e, L); }
        for (auto &t : e) if (NumBits(t.second) > 62) { c.trivial = true; return; }
        // intermediate coefficients are bounded by those of |v|
        { poly q; q[vi(n + 1, 0)] = 1; for (int i = 0; i < n; ++i) { poly L; vi a(n + 1, 0), b(n + 1, 0); a[i] = 1; b[n] = 1; L[a] = 1; if (v[i]) L[b] = ZZ(std::labs(v[i])); for (int k = 0; k < u[i]; ++k) q = pmul(q, L); } for (auto &t : q) if (NumBits(t.second) > 62) { c.trivial = true; return; } }
        same(str(from(change_of_variables_monomial(tovec(u), tovec(v)), ci)), str(e), "expansion");
    } else {
        // powers of f, any request order.  Small smooth polynomials so that the constructor is cheap.
        static const int cfg[][3] = {{5, 2, 3}, {7, 2, 3}, {7, 2, 4}, {5, 2, 4}, {3, 1, 2}, {11, 2, 3}, {11, 1, 4}, {5, 3, 4}};
        const int *g = cfg[r.in(0, 7)]; long p = g[0], n = g[1], d = g[2]; long e = r.in(1, 4);
        zz_p::init(p); ZZ_p::init(power_ZZ(p, e));
        mzp f; poly fe; ZZ q = ZZ_p::modulus();
        for (int i = 0; i <= n; ++i) { vi m(n + 1, 0); m[i] = d; fe[m] = ZZ(r.in(1, p - 1)); }
        if (d % p == 0) { c.trivial = true; return; }
        { std::vector<vi> ms; monos(n + 1, d, ms); for (int t = 0; t < 3; ++t) { vi m = ms[r.in(0, ms.size() - 1)]; int big = 0; for (auto x : m) if (x == d) big = 1; if (!big) fe[m] = ZZ(p) * ZZ(r.in(1, 50)) % q; } }
        fe = pred(fe, q); for (auto &t : fe) f[tovec(t.first)] = to_ZZ_p(t.second);
        std::vector<int64_t> reqs; int nr = r.in(1, 4); for (int i = 0; i < nr; ++i) reqs.push_back(r.in(0, 6));
        c.d << "powers p=" << p << " e=" << e << " f=" << str(fe) << " requests " << str(reqs); c.publish();
        hypersurface hs(p, e, f, false);
        int64_t mx = 1;
        for (auto x : reqs) { hs.compute_fpow(x); if (x > mx) mx = x; ok(hs.fpow.length() > x, "power not available after the request"); }
        poly w; w[vi(n + 1, 0)] = 1;
        for (int64_t k = 0; k < hs.fpow.length(); ++k) { same(str(from(hs.fpow[k], cp)), str(pred(w, q)), "power " + std::to_string(k)); w = pred(pmul(w, fe), q); }
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 6000, 200000); }
