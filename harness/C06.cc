#include "harness.h"
#include "matrix.h"
#include "conv.h"
#include <flint/fmpz_vec.h>
using namespace H;
static ZZ big(Rng &r) { ZZ x; switch (r.in(0, 6)) { case 0: x = 0; break; case 1: x = r.in(0, 5); break; case 2: x = power2_ZZ(r.in(0, 200)); break; case 3: x = power2_ZZ(8 * r.in(1, 24)) - 1; break; case 4: x = r.bits(r.in(1, 70)); break; case 5: x = r.bits(8 * r.in(1, 40)); break; default: x = r.bits(r.in(1, 600)); } return r.coin() ? -x : x; }
struct MP { mpz_t *a; int64_t n; MP(int64_t k) : n(k) { a = new mpz_t[k + 4]; for (int64_t i = 0; i < k + 4; ++i) { mpz_init(a[i]); mpz_set_si(a[i], 424242 + i); } } ~MP() { for (int64_t i = 0; i < n + 4; ++i) mpz_clear(a[i]); delete[] a; } mpz_t *p() { return a + 2; }
    void guard(const char *w) { for (int i = 0; i < 2; ++i) ok(mpz_cmp_si(a[i], 424242 + i) == 0 && mpz_cmp_si(a[n + 2 + i], 424242 + n + 2 + i) == 0, std::string("wrote outside ") + w); } };
static ZZ zz(const mpz_t x) { char *s = mpz_get_str(0, 10, x); ZZ r = to_ZZ(s); free(s); return r; }
static void put(mpz_t x, const ZZ &v) { mpz_set_str(x, str(v).c_str(), 10); }
static ZZ fz(const fmpz_t x) { char *s = fmpz_get_str(0, 10, x); ZZ r = to_ZZ(s); free(s); return r; }
static void fput(fmpz_t x, const ZZ &v) { fmpz_set_str(x, str(v).c_str(), 10); }
typedef std::vector<std::vector<ZZ> > M;
static M rm(Rng &r, int a, int b) { M m(a, std::vector<ZZ>(b)); for (auto &x : m) for (auto &y : x) y = big(r); return m; }
static M mul0(const M &A, const M &B, int n, int k, int m) { M R(n, std::vector<ZZ>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { ZZ s(0); for (int t = 0; t < k; ++t) s += A[i][t] * B[t][j]; R[i][j] = s; } return R; }
static M tr(const M &A, int n, int m) { M R(m, std::vector<ZZ>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) R[j][i] = A[i][j]; return R; }
static std::string sh(const M &m) { std::ostringstream s; for (auto &x : m) { s << "["; for (auto &y : x) s << y << " "; s << "]"; } return s.str(); }
static void eq(const ZZ &a, const ZZ &b, const std::string &w, int i, int j) { if (a != b) fail(w + " entry (" + std::to_string(i) + "," + std::to_string(j) + "): got " + str(a) + " expected " + str(b)); }
static void load(MP &x, const M &A) { int64_t t = 0; for (auto &r : A) for (auto &y : r) put(x.p()[t++], y); }
static Mat<ZZ> nt(const M &A, int n, int m) { Mat<ZZ> R; R.SetDims(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) R[i][j] = A[i][j]; return R; }
static void run(Case &c) {
    Rng &r = c.r; int op = c.k % 16;
    int n = r.in(0, 6), k = r.in(1, 6), m = r.in(0, 6); if (c.k < 400) { n = c.k / 16 % 3 + 1; k = c.k / 48 % 3 + 1; m = c.k / 144 % 3 + 1; } if (r.one_in(4)) n = k = m = r.in(1, 7); if (r.one_in(40)) { n = r.in(1, 20); k = r.in(1, 20); m = r.in(1, 20); }
    c.d << "op " << op << " shapes " << n << "x" << k << "x" << m << " ";
    ZZ q = r.bits(r.in(2, 200)) + 2; 
    if (op == 0 || op == 1) {
        M A = rm(r, n, k), B = rm(r, k, m), R = mul0(A, B, n, k, m); c.d << "mpz A*B" << (op ? "^T " : " ") << sh(A) << " " << sh(B); c.publish();
        MP a(n * k), b(k * m), o(n * m); load(a, A); load(b, op ? tr(B, k, m) : B);
        if (op) mul_transpose(o.p(), a.p(), n, k, b.p(), k, m); else mul(o.p(), a.p(), n, k, b.p(), k, m);
        for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) eq(zz(o.p()[i * m + j]), R[i][j], "product", i, j);
        a.guard("A"); b.guard("B"); o.guard("result");
        for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(zz(a.p()[i * k + j]), A[i][j], "input A changed", i, j);
    } else if (op == 2) {
        M A = rm(r, n, k); ZZ s = big(r); c.d << "mpz s*A " << s << " " << sh(A); c.publish(); MP a(n * k), o(n * k); load(a, A); mpz_t x; mpz_init(x); put(x, s);
        mul(o.p(), x, a.p(), n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(zz(o.p()[i * k + j]), s * A[i][j], "scaled", i, j); o.guard("result"); eq(zz(x), s, "scalar changed", 0, 0); mpz_clear(x);
    } else if (op == 3) {
        M A = rm(r, n, k), v = rm(r, k, 1); c.d << "mpz A*v " << sh(A) << sh(v); c.publish(); MP a(n * k), b(k), o(n); load(a, A); load(b, v);
        mul(o.p(), a.p(), n, k, b.p(), k); M R = mul0(A, v, n, k, 1); for (int i = 0; i < n; ++i) eq(zz(o.p()[i]), R[i][0], "matrix*vector", i, 0); o.guard("result");
    } else if (op == 4) {
        M v = rm(r, n, 1); ZZ s = big(r); c.d << "mpz s*v " << s << sh(v); c.publish(); MP a(n), o(n); load(a, v); mpz_t x; mpz_init(x); put(x, s); mul(o.p(), x, a.p(), n); for (int i = 0; i < n; ++i) eq(zz(o.p()[i]), s * v[i][0], "scaled vector", i, 0); o.guard("result"); mpz_clear(x);
    } else if (op == 5) {
        M u = rm(r, 1, k), v = rm(r, k, 1); c.d << "mpz u.v " << sh(u) << sh(v); c.publish(); MP a(k), b(k); load(a, u); load(b, v); mpz_t x; mpz_init(x); put(x, big(r)); mul(x, a.p(), k, b.p(), k); eq(zz(x), mul0(u, v, 1, k, 1)[0][0], "inner product", 0, 0); mpz_clear(x);
    } else if (op == 6) {
        if (r.one_in(8)) k = 0;
        M A = rm(r, n, k), v = rm(r, k, 1); c.d << "fmpz A*v " << sh(A) << sh(v); c.publish(); fmpz_mat_t a; fmpz_mat_init(a, n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) fput(fmpz_mat_entry(a, i, j), A[i][j]);
        fmpz *b = _fmpz_vec_init(k + 1), *o = _fmpz_vec_init(n + 2); for (int i = 0; i < k; ++i) fput(b + i, v[i][0]); fmpz_set_si(o, 55); fmpz_set_si(o + n + 1, 66);
        mul(o + 1, a, b); M R = mul0(A, v, n, k, 1); for (int i = 0; i < n; ++i) eq(fz(o + 1 + i), R[i][0], "fmpz matrix*vector", i, 0); ok(fmpz_equal_si(o, 55) && fmpz_equal_si(o + n + 1, 66), "wrote outside the result");
        fmpz_t t; fmpz_init(t); fput(t, big(r)); if (n) { std::vector<ZZ> row = A[0]; ZZ s(0); for (int i = 0; i < k; ++i) s += row[i] * v[i][0]; fmpz *w = _fmpz_vec_init(k + 1); for (int i = 0; i < k; ++i) fput(w + i, row[i]); mul(t, w, b, k); eq(fz(t), s, "fmpz inner product", 0, 0); _fmpz_vec_clear(w, k + 1); } 
        fmpz_clear(t);
        _fmpz_vec_clear(b, k + 1); _fmpz_vec_clear(o, n + 2); fmpz_mat_clear(a);
    } else if (op == 7) {
        ulong w = r.one_in(3) ? (ulong)r.next() | 1 : r.coin() ? (ulong)r.in(2, 1000) : (((ulong)1 << 63) + (ulong)r.in(0, 1000000)); if (w < 2) w = 3; c.d << "nmod A*v modulus " << w; nmod_mat_t a; nmod_mat_init(a, n, k, w); std::vector<ulong> v(k), o(n + 2, 77);
        M A(n, std::vector<ZZ>(k)), V(k, std::vector<ZZ>(1)); ZZ W = to_ZZ((unsigned long)w);
        for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) { ulong x = r.one_in(3) ? w - 1 : (ulong)r.next() % w; nmod_mat_entry(a, i, j) = x; A[i][j] = to_ZZ((unsigned long)x); }
        for (int i = 0; i < k; ++i) { v[i] = r.one_in(3) ? w - 1 : (ulong)r.next() % w; V[i][0] = to_ZZ((unsigned long)v[i]); } c.d << sh(A) << sh(V); c.publish();
        mul(&o[1], a, &v[0], nmod_vec_dot_params_compat(k, a->mod)); M R = mul0(A, V, n, k, 1); for (int i = 0; i < n; ++i) eq(to_ZZ((unsigned long)o[1 + i]), R[i][0] % W, "nmod matrix*vector", i, 0); ok(o[0] == 77 && o[n + 1] == 77, "wrote outside the result"); nmod_mat_clear(a);
    } else if (op == 8 || op == 9) {
        M A = rm(r, n, k), Bt = rm(r, m, k), R = mul0(A, tr(Bt, m, k), n, k, m); int ring = r.in(0, 2); c.d << (op == 8 ? "mul_transpose" : "transpose_mul_transpose") << " ring " << ring << " mod " << q << sh(A) << sh(Bt); c.publish();
        int dirty = r.in(0, 2);
        auto cmp = [&](int i, int j) { return op == 8 ? R[i][j] : R[i][j]; };
        if (ring == 0) { Mat<ZZ> a = nt(A, n, k), b = nt(Bt, m, k), o; if (dirty) { o.SetDims(dirty == 1 ? (op == 8 ? n : m) : 2, dirty == 1 ? (op == 8 ? m : n) : 3); for (long i = 0; i < o.NumRows(); ++i) for (long j = 0; j < o.NumCols(); ++j) o[i][j] = 9; } Mat<ZZ> a0 = a, b0 = b; if (op == 8) mul_transpose(o, a, b); else transpose_mul_transpose(o, a, b); ok(a == a0 && b == b0, "input modified");
            same((long)o.NumRows(), (long)(op == 8 ? n : m), "rows"); same((long)o.NumCols(), (long)(op == 8 ? m : n), "cols"); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) eq(op == 8 ? o[i][j] : o[j][i], cmp(i, j), "product", i, j); }
        else if (ring == 1) { ZZ_p::init(q); Mat<ZZ_p> a = to_mat_ZZ_p(nt(A, n, k)), b = to_mat_ZZ_p(nt(Bt, m, k)), o; if (op == 8) mul_transpose(o, a, b); else transpose_mul_transpose(o, a, b); same((long)o.NumRows(), (long)(op == 8 ? n : m), "rows"); same((long)o.NumCols(), (long)(op == 8 ? m : n), "cols"); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) eq(rep(op == 8 ? o[i][j] : o[j][i]), cmp(i, j) % q, "product mod", i, j); }
        else { long p = r.pick(std::vector<long>{2, 3, 5, 101, 1048583}); zz_p::init(p); Mat<zz_p> a, b, o; conv(a, nt(A, n, k)); conv(b, nt(Bt, m, k)); if (op == 8) mul_transpose(o, a, b); else transpose_mul_transpose(o, a, b); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) eq(ZZ(rep(op == 8 ? o[i][j] : o[j][i])), ZZ(cmp(i, j) % p), "product mod p", i, j); }
    } else if (op == 10) {
        int s = r.in(1, 8); M A = rm(r, s, s); c.d << "trace " << sh(A); c.publish(); ZZ t(0); for (int i = 0; i < s; ++i) t += A[i][i]; same(trace(nt(A, s, s)), t, "trace");
    } else if (op == 11) {
        ZZ x = big(r), y; c.d << "conv ZZ " << x; c.publish(); mpz_t a; mpz_init(a); put(a, big(r)); conv(a, x); eq(zz(a), x, "ZZ to mpz", 0, 0); y = 17; put(a, x); conv(y, a); eq(y, x, "mpz to ZZ", 0, 0); mpz_clear(a);
        fmpz_t f; fmpz_init(f); fput(f, big(r)); conv(f, x); eq(fz(f), x, "ZZ to fmpz", 0, 0); y = -3; fput(f, x); conv(y, f); eq(y, x, "fmpz to ZZ", 0, 0); fmpz_clear(f);
    } else if (op == 12) {
        M A = rm(r, n, k); c.d << "conv matrix mpz " << sh(A); c.publish(); MP a(n * k); conv(a.p(), nt(A, n, k)); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(zz(a.p()[i * k + j]), A[i][j], "Mat to mpz array", i, j); a.guard("array");
        Mat<ZZ> o; if (r.coin()) o.SetDims(r.in(0, 4), r.in(0, 4)); MP b(n * k); load(b, A); conv(o, b.p(), n, k); ok(o.NumRows() == n && o.NumCols() == k, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(o[i][j], A[i][j], "mpz array to Mat", i, j); b.guard("array");
    } else if (op == 13) {
        M A = rm(r, n, k); ZZ_p::init(q); c.d << "conv matrix fmpz mod " << q << sh(A); c.publish(); fmpz_mat_t a; fmpz_mat_init(a, n, k); conv(a, nt(A, n, k)); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(fz(fmpz_mat_entry(a, i, j)), A[i][j], "Mat<ZZ> to fmpz_mat", i, j);
        Mat<ZZ> o; if (r.coin()) o.SetDims(r.in(0, 4), r.in(0, 4)); conv(o, a); ok(o.NumRows() == n && o.NumCols() == k, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(o[i][j], A[i][j], "fmpz_mat to Mat<ZZ>", i, j);
        Mat<ZZ_p> P; conv(P, a); ok(P.NumRows() == n && P.NumCols() == k, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(rep(P[i][j]), A[i][j] % q, "fmpz_mat to Mat<ZZ_p>", i, j);
        conv(a, P); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(fz(fmpz_mat_entry(a, i, j)), A[i][j] % q, "Mat<ZZ_p> to fmpz_mat", i, j); fmpz_mat_clear(a);
    } else if (op == 14) {
        M A = rm(r, n, 1); ZZ_p::init(q); c.d << "conv vector fmpz mod " << q << sh(A); c.publish(); Vec<ZZ> v; v.SetLength(n); for (int i = 0; i < n; ++i) v[i] = A[i][0]; fmpz *a = _fmpz_vec_init(n + 2); fmpz_set_si(a, 5); fmpz_set_si(a + n + 1, 6); conv(a + 1, v); for (int i = 0; i < n; ++i) eq(fz(a + 1 + i), v[i], "Vec<ZZ> to fmpz", i, 0);
        Vec<ZZ> o; if (r.coin()) o.SetLength(r.in(0, 9)); conv(o, a + 1, n); ok(o.length() == n, "length"); for (int i = 0; i < n; ++i) eq(o[i], v[i], "fmpz to Vec<ZZ>", i, 0); Vec<ZZ_p> P; conv(P, a + 1, n); for (int i = 0; i < n; ++i) eq(rep(P[i]), v[i] % q, "fmpz to Vec<ZZ_p>", i, 0); conv(a + 1, P); for (int i = 0; i < n; ++i) eq(fz(a + 1 + i), v[i] % q, "Vec<ZZ_p> to fmpz", i, 0);
        ok(fmpz_equal_si(a, 5) && fmpz_equal_si(a + n + 1, 6), "wrote outside the array"); _fmpz_vec_clear(a, n + 2);
    } else {
        ulong w = r.coin() ? (ulong)r.in(2, 100000) : ((ulong)r.next() >> r.in(0, 3)) | 2; ZZ W = to_ZZ((unsigned long)w); M A = rm(r, n, k); ZZ P = r.coin() ? W : (r.coin() ? W * W : q); ZZ_p::init(P); c.d << "conv nmod modulus " << w << " ZZ_p modulus " << P << sh(A); c.publish();
        Mat<ZZ_p> B = to_mat_ZZ_p(nt(A, n, k)); nmod_mat_t a; nmod_mat_init(a, n, k, w); conv(a, B); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(to_ZZ((unsigned long)nmod_mat_entry(a, i, j)), (A[i][j] % P) % W, "Mat<ZZ_p> to nmod_mat", i, j);
        if (true) { Mat<ZZ_p> o; if (r.coin()) o.SetDims(r.in(0, 4), r.in(0, 4)); conv(o, a); ok(o.NumRows() == n && o.NumCols() == k, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(rep(o[i][j]), ((A[i][j] % P) % W) % P, "nmod_mat to Mat<ZZ_p>", i, j); }
        nmod_mat_clear(a);
        long p = r.pick(std::vector<long>{2, 3, 101, 1048583, 1073741827}); zz_p::init(p); Mat<zz_p> Z; conv(Z, nt(A, n, k)); nmod_mat_init(a, n, k, p); conv(a, Z); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) eq(to_ZZ((unsigned long)nmod_mat_entry(a, i, j)), ZZ(A[i][j] % p), "Mat<zz_p> to nmod_mat", i, j); Mat<zz_p> o2; conv(o2, a); ok(o2 == Z, "nmod_mat to Mat<zz_p>"); nmod_mat_clear(a);
    }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 24000, 800000); }
