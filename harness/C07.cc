#include "harness.h"
#include "matrix.h"
#include <flint/fmpz_mat.h>
#include <flint/fmpz_poly.h>
using namespace H;
static void run(Case &c) {
    Rng &r = c.r; int n = c.k < 30 ? c.k / 3 + 1 : r.in(1, 9); if (r.one_in(30)) n = r.in(10, 24);
    Mat<ZZ> A; A.SetDims(n, n); int kind = r.in(0, 7), b = r.in(1, kind == 5 ? 200 : 20);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ZZ x = r.bits(b); if (r.coin()) x = -x; switch (kind) { case 0: A[i][j] = 0; break; case 1: A[i][j] = i == j; break; case 2: A[i][j] = j > i ? x : ZZ(0); break; case 3: A[i][j] = j == (i + 1) % n ? x : ZZ(0); break; case 4: A[i][j] = r.one_in(3) ? x : ZZ(0); break; default: A[i][j] = x; } }
    if (kind == 6) for (int j = 0; j < n; ++j) A[n - 1][j] = A[0][j];
    if (kind == 7) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) A[i][j] = 0;
    c.d << "charpoly " << A; c.publish();
    Mat<ZZ> A0 = A; Vec<ZZ> got = charpoly(A); ok(A == A0, "matrix modified"); same((long)got.length(), (long)n + 1, "length");
    // oracle: FLINT (Berkowitz)
    fmpz_mat_t M; fmpz_mat_init(M, n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) fmpz_set_str(fmpz_mat_entry(M, i, j), str(A[i][j]).c_str(), 10);
    fmpz_poly_t P; fmpz_poly_init(P); fmpz_mat_charpoly_berkowitz(P, M);
    for (int i = 0; i <= n; ++i) { fmpz_t x; fmpz_init(x); fmpz_poly_get_coeff_fmpz(x, P, i); char *s = fmpz_get_str(0, 10, x); std::string e = s; free(s); fmpz_clear(x); same(str(got[i]), e, "coefficient " + std::to_string(i)); }
    fmpz_poly_clear(P); fmpz_mat_clear(M);
    if (n <= 6) { ZZ d; determinant(d, A); same(got[0], n % 2 ? -d : d, "constant term"); }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 8000, 200000); }
