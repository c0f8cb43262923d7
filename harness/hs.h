// Shared by the hypersurface harnesses: independent smoothness oracle and generator of polynomials.
#ifndef HS_H
#define HS_H
#include "harness.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
namespace H {
typedef std::map<NTL::Vec<int64_t>, NTL::ZZ_p, vi64less> mzp;
typedef std::map<NTL::Vec<int64_t>, NTL::zz_p, vi64less> mzs;
inline int64_t pw(int64_t a, int64_t e, int64_t p) { __int128 r = 1, b = a % p; while (e) { if (e & 1) r = r * b % p; b = b * b % p; e >>= 1; } return (int64_t)r; }
// rank of the degree-l part of the ideal generated by the (toric) partials, mod p, by plain elimination
inline bool fullrank(const poly &f, int nv, int d, int64_t p, bool toric) {
    int l = toric ? (d - 1) * nv + 1 : (d - 2) * nv + 1, h = toric ? l - d : l - (d - 1);
    std::vector<vi> ms, hs; monos(nv, l, ms); if (h >= 0) monos(nv, h, hs);
    std::map<vi, int> ix; for (size_t i = 0; i < ms.size(); ++i) ix[ms[i]] = i;
    std::vector<std::vector<int64_t> > piv(ms.size()); size_t rank = 0;
    for (int i = 0; i < nv; ++i) { poly g = pder(f, i); for (auto &w : hs) {
        std::vector<int64_t> row(ms.size(), 0);
        for (auto &t : g) { vi m(t.first); if (toric) m[i]++; for (int k = 0; k < nv; ++k) m[k] += w[k]; int64_t c = NTL::to_long(t.second % p); row[ix[m]] = (row[ix[m]] + c) % p; }
        for (size_t c = 0; c < row.size(); ++c) if (row[c]) {
            if (piv[c].empty()) { int64_t iv = pw(row[c], p - 2, p); for (size_t k = c; k < row.size(); ++k) if (row[k]) row[k] = (int64_t)((__int128)row[k] * iv % p); piv[c] = row; ++rank; break; }
            int64_t a = p - row[c]; const std::vector<int64_t> &q = piv[c]; for (size_t k = c; k < row.size(); ++k) if (q[k]) row[k] = (int64_t)((row[k] + (__int128)a * q[k]) % p);
        }
        if (rank == ms.size()) return true;
    } }
    return rank == ms.size();
}
inline poly linsub(const poly &f, const std::vector<std::vector<NTL::ZZ> > &M, int n) {   // x_i -> sum_j M[i][j] x_j
    std::vector<poly> L(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vi e(n, 0); e[j] = 1; if (!NTL::IsZero(M[i][j])) padd(L[i], e, M[i][j]); }
    poly r;
    for (auto &t : f) { poly q; q[vi(n, 0)] = t.second; for (int i = 0; i < n; ++i) for (int k = 0; k < t.first[i]; ++k) q = pmul(q, L[i]); for (auto &s : q) padd(r, s.first, s.second); }
    return r;
}
inline bool pure(const vi &m) { int c = 0; for (auto x : m) c += x != 0; return c == 1; }
// style 0: diagonal, 1: diagonal plus a few terms, 2: dense, 3: sparse chain, 4: diagonal plus p-multiples; coefficients in [1,p)
inline poly randf(Rng &r, int nv, int d, int64_t p, int style) {
    poly f; std::vector<vi> ms; monos(nv, d, ms);
    for (int i = 0; i < nv; ++i) { vi m(nv, 0); if (style == 3 && r.coin()) { m[i] = d - 1; m[(i + 1) % nv] += 1; } else m[i] = d; padd(f, m, NTL::ZZ(r.in(1, p - 1))); }
    if (style == 1) for (int t = r.in(1, 3); t > 0; --t) padd(f, r.pick(ms), NTL::ZZ(r.in(1, p - 1)));
    if (style == 2) { f.clear(); for (auto &m : ms) { int64_t c = r.in(0, p - 1); if (c) f[m] = NTL::ZZ(c); } }
    f = pred(f, NTL::ZZ(p));
    if (style == 4) for (int t = r.in(1, 4); t > 0; --t) padd(f, r.pick(ms), NTL::ZZ(p) * r.in(1, 1000000));
    if (f.empty()) f[ms[0]] = 1;
    return f;
}
// a polynomial that is smooth (and non-degenerate if toric) modulo p; empty if none was found
inline poly goodf(Rng &r, int nv, int d, int64_t p, bool toric, int style) {
    for (int t = 0; t < 40; ++t) { poly f = randf(r, nv, d, p, t < 20 ? style : (t % 3 == 0 ? 0 : 4)); bool has = false; for (auto &x : f) if (x.second % p != 0) has = true; if (has && fullrank(f, nv, d, p, toric) && (!toric || fullrank(f, nv, d, p, false))) return f; }
    return poly();
}
inline mzp to_mzp(const poly &f) { mzp g; for (auto &t : f) g[tovec(t.first)] = NTL::to_ZZ_p(t.second); return g; }
inline mzs to_mzs(const poly &f) { mzs g; for (auto &t : f) g[tovec(t.first)] = NTL::to_zz_p(t.second); return g; }
inline vi operator+(vi a, const vi &b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
inline vi operator-(vi a, const vi &b) { for (size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
inline vi operator*(int64_t k, vi a) { for (auto &x : a) x *= k; return a; }
inline int64_t total(const vi &a) { int64_t s = 0; for (auto x : a) s += x; return s; }
// random vector with nv entries >= lo summing to s (s >= nv*lo)
inline vi rsum(Rng &r, int nv, int64_t s, int64_t lo) { vi u(nv, lo); s -= nv * lo; int m = r.in(0, 2); if (m == 0) { while (s > 0) { int64_t k = s < 30 ? 1 : r.in(1, s / 4); u[r.in(0, nv - 1)] += k; s -= k; } } else if (m == 1) u[r.in(0, nv - 1)] += s; else { for (int i = 0; i < nv - 1; ++i) { int64_t k = r.in(0, s); u[i] += k; s -= k; } u[nv - 1] += s; } return u; }
struct Conf { int n, d; int64_t p; int e; };
inline Conf conf(Rng &r, int heavy) {     // heavy: 1 in `heavy` cases is a quartic surface (0: never)
    static const int nd[][2] = {{1, 2}, {1, 3}, {1, 4}, {1, 5}, {2, 3}, {2, 3}, {2, 4}, {2, 4}, {2, 5}};
    static const int64_t ps[] = {2, 3, 5, 7, 11, 13, 101, 65537, 1000003};
    Conf c; const int *q = nd[r.in(0, 8)]; c.n = q[0]; c.d = q[1];
    if (heavy && r.one_in(heavy)) { c.n = 3; c.d = 4; }
    do c.p = ps[r.in(0, 8)]; while (c.d % c.p == 0);
    c.e = r.in(1, 4); if (r.one_in(4)) c.e = r.in(5, 12);
    return c;
}
inline std::ostream &operator<<(std::ostream &s, const Conf &c) { return s << "n=" << c.n << " d=" << c.d << " p=" << c.p << "^" << c.e; }
inline void setmod(const Conf &c) { NTL::zz_p::init(c.p); NTL::ZZ_p::init(NTL::power_ZZ(c.p, c.e)); }
inline NTL::Vec<NTL::ZZ> modv(const NTL::Vec<NTL::ZZ> &a) { NTL::Vec<NTL::ZZ> r(a); for (long i = 0; i < r.length(); ++i) r[i] %= NTL::ZZ_p::modulus(); return r; }
inline NTL::Vec<NTL::ZZ> lift(const NTL::Vec<NTL::ZZ_p> &a) { NTL::Vec<NTL::ZZ> r; r.SetLength(a.length()); for (long i = 0; i < r.length(); ++i) r[i] = rep(a[i]); return r; }
// own product matrix * vector modulo the current modulus
inline NTL::Vec<NTL::ZZ> mv(const NTL::Mat<NTL::ZZ_p> &M, const NTL::Vec<NTL::ZZ> &g) { NTL::Vec<NTL::ZZ> r; r.SetLength(M.NumRows()); ok(M.NumCols() == g.length(), "matrix has the wrong number of columns"); for (long i = 0; i < M.NumRows(); ++i) { NTL::ZZ s(0); for (long j = 0; j < g.length(); ++j) s += rep(M[i][j]) * g[j]; r[i] = s % NTL::ZZ_p::modulus(); } return r; }
}  // namespace H
#endif
