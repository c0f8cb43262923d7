#include "harness.h"
#include "solve_system.h"
using namespace H; using namespace NTL;
static std::vector<std::vector<long> > M; 
static long inv_(long a, long p) { return InvMod(((a % p) + p) % p, p); }
// rank over F_p of a list of columns (vectors of length m)
static int rk(std::vector<std::vector<long> > a, int m, long p) { int r = 0; for (int col = 0; col < m && r < (int)a.size(); ++col) { int s = -1; for (int i = r; i < (int)a.size(); ++i) if (a[i][col] % p) { s = i; break; } if (s < 0) continue; std::swap(a[s], a[r]); long iv = inv_(a[r][col], p); for (int i = 0; i < (int)a.size(); ++i) if (i != r && a[i][col] % p) { long f = MulMod(a[i][col], iv, p); for (int j = 0; j < m; ++j) a[i][j] = SubMod(a[i][j], MulMod(f, a[r][j], p), p); } ++r; } return r; }
static void run(Case &c) {
    Rng &r = c.r; static const long ps[] = {2, 3, 5, 7, 11, 101, 1009, 65537, 1048583, 1073741827};
    long p = ps[r.in(0, 9)]; int m = r.in(1, 8), n = r.in(0, 10), e = r.in(1, 5); if (r.one_in(5)) e = r.in(6, 40); if (c.k < 60) { m = c.k % 4 + 1; n = c.k / 4 % 5; } if (r.one_in(30)) { m = r.in(9, 25); n = r.in(5, 30); }
    int rank = r.in(0, m < n ? m : n); if (r.coin()) rank = m < n ? m : n;
    ZZ q = power_ZZ(p, e);
    // T = L * R with L m x rank, R rank x n of full rank mod p (checked), lifted over Z/p^e: column span has the same dimension mod p
    Mat<ZZ> L, R, T; L.SetDims(m, rank); R.SetDims(rank, n); T.SetDims(m, n); int sp = r.in(0, 3);
    for (int i = 0; i < m; ++i) for (int j = 0; j < rank; ++j) L[i][j] = sp == 1 ? (r.one_in(3) ? r.below(q) : ZZ(0)) : sp == 2 ? ZZ(r.in(0, 1)) : r.below(q);
    for (int i = 0; i < rank; ++i) for (int j = 0; j < n; ++j) R[i][j] = sp == 1 ? (r.one_in(3) ? r.below(q) : ZZ(0)) : sp == 2 ? ZZ(r.in(0, 1)) : r.below(q);
    for (int i = 0; i < rank && sp != 3; ++i) { if (r.coin()) L[r.in(0, m - 1)][i] += 1; if (r.coin() && n) R[i][r.in(0, n - 1)] += 1; }
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { ZZ s(0); for (int t = 0; t < rank; ++t) s += L[i][t] * R[t][j]; T[i][j] = s % q; }
    std::vector<std::vector<long> > cols(n, std::vector<long>(m)); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) cols[j][i] = T[i][j] % p;
    int rr = rk(cols, m, p);
    if (rr < rank && e > 1) {   // L*R may have extra span mod p^e; then make T a lift with free image by choosing e = 1
        e = 1; q = p; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) T[i][j] = ZZ(T[i][j] % p);
    }
    c.d << "solve p=" << p << " e=" << e << " rank " << rr << " T=" << T; c.publish();
    zz_p::init(p); ZZ_p::init(q);
    Vec<int64_t> Bs[5]; 
    for (int variant = 0; variant < 5; ++variant) {
        std::string w = variant == 0 ? "padic flint" : variant == 1 ? "padic NTL" : variant == 2 ? "mod p flint" : variant == 3 ? "mod p NTL" : "padic default";
        Vec<int64_t> &B = Bs[variant]; if (r.coin()) { B.SetLength(r.in(0, m + 2)); for (long i = 0; i < B.length(); ++i) B[i] = 50; }
        Mat<ZZ> U; ZZ mod = q; int dirty = r.in(0, 2), dr = r.in(0, n + m), dc = r.coin() ? m : r.in(1, m + 1);
        if (variant < 2 || variant == 4) { Mat<ZZ_p> t = to_mat_ZZ_p(T), u; if (dirty) { u.SetDims(dirty == 2 ? n + m - rr : dr, dirty == 2 ? m : dc); for (long i = 0; i < u.NumRows(); ++i) for (long j = 0; j < u.NumCols(); ++j) u[i][j] = 3; } Mat<ZZ_p> t0 = t; if (variant == 4) solve_system_padic(B, u, t, e); else solve_system_padic(B, u, t, e, variant == 0); ok(t == t0, w + ": input modified"); U.SetDims(u.NumRows(), u.NumCols()); for (long i = 0; i < u.NumRows(); ++i) for (long j = 0; j < u.NumCols(); ++j) U[i][j] = rep(u[i][j]); ok(ZZ_p::modulus() == q && zz_p::modulus() == p, w + ": modulus changed"); }
        else { mod = p; Mat<zz_p> t, u; conv(t, T); if (dirty) { u.SetDims(dirty == 2 ? n + m - rr : dr, dirty == 2 ? m : dc); for (long i = 0; i < u.NumRows(); ++i) for (long j = 0; j < u.NumCols(); ++j) u[i][j] = 3; } Mat<zz_p> t0 = t; solve_system_zz_p(B, u, t, variant == 2); ok(t == t0, w + ": input modified"); U.SetDims(u.NumRows(), u.NumCols()); for (long i = 0; i < u.NumRows(); ++i) for (long j = 0; j < u.NumCols(); ++j) U[i][j] = rep(u[i][j]); }
        same((long)B.length(), (long)m - rr, w + ": number of complement indices");
        for (long i = 0; i < B.length(); ++i) { ok(B[i] >= 0 && B[i] < m, w + ": index out of range"); if (i) ok(B[i - 1] < B[i], w + ": indices not increasing"); }
        std::vector<std::vector<long> > all = cols; for (long i = 0; i < B.length(); ++i) { std::vector<long> x(m, 0); x[B[i]] = 1; all.push_back(x); }
        same(rk(all, m, p), m, w + ": span of [T|J_B]");
        same((long)U.NumRows(), (long)n + B.length(), w + ": rows of U"); same((long)U.NumCols(), (long)m, w + ": columns of U");
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { ZZ s(0); for (int t = 0; t < n; ++t) s += T[i][t] * U[t][j]; for (long t = 0; t < B.length(); ++t) if (B[t] == i) s += U[n + t][j]; if ((s - (i == j)) % mod != 0) fail(w + ": [T|J_B]*U differs from the identity at (" + std::to_string(i) + "," + std::to_string(j) + ")"); }
    }
    for (int v = 1; v < 5; ++v) ok(Bs[v] == Bs[0], "back ends disagree on B");
}
int main(int argc, char **argv) { return main_(argc, argv, run, 8000, 300000); }
