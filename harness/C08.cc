#include "harness.h"
#include "matrix.h"
#include <cmath>
using namespace H;
static void run(Case &c) {
    Rng &r = c.r; static const long ps[] = {2, 3, 5, 7, 11, 13, 23, 43, 101, 251, 1009, 10007};
    long p = ps[r.in(0, 11)], w = r.in(1, 3); if (r.one_in(8)) w = r.in(4, 5);
    ZZX P; P = 1; int nf = r.in(1, 5); if (r.one_in(12)) nf = r.in(6, 10);
    for (int k = 0; k < nf; ++k) {
        ZZX f; ZZ b = SqrRoot(4 * power_ZZ(p, w));
        if (w % 2 == 0 && r.one_in(3)) {
            ZZ q = power_ZZ(p, w / 2);
            if (r.coin()) { SetCoeff(f, 1); SetCoeff(f, 0, r.coin() ? q : -q); }
            else { long e = r.in(1, 7); SetCoeff(f, e); SetCoeff(f, 0, (r.coin() ? 1 : -1) * power(q, e)); }
        } else { SetCoeff(f, 2); ZZ a = r.below(2 * b + 1) - b; if (r.one_in(5)) a = 0; if (r.one_in(6)) a = r.coin() ? b : -b; if (r.one_in(6)) a = (a / p) * p; if (sqr(a) > 4 * power_ZZ(p, w)) a = 0; SetCoeff(f, 1, a); SetCoeff(f, 0, power_ZZ(p, w)); }
        P *= f;
    }
    long D = deg(P); ZZ top = power_ZZ(p, D * w / 2);
    if (w % 2 && D % 2) { c.trivial = true; return; }
    long sg = coeff(P, 0) == top ? 1 : -1; if (w % 2 && sg < 0) { c.trivial = true; return; }
    // needed precision of coefficient D-k: k * p^prec > 2 D p^(wk/2)
    Vec<int64_t> need; need.SetLength(D + 1); need[D] = 1;
    for (long k = 1; k <= D; ++k) { long e = 1; while (!(std::log((double)k) / std::log((double)p) + e > std::log(2.0 * D) / std::log((double)p) + 0.5 * w * k + 1e-9)) ++e; need[D - k] = e; }
    Vec<int64_t> pr = need; int style = r.in(0, 3);
    if (style == 1) for (long i = 0; i <= D; ++i) pr[i] += r.in(0, 6);
    if (style >= 2) for (long i = 0; 2 * i < D; ++i) { long s = (D - 2 * i) * w / 2; if (((D - 2 * i) * w) % 2) continue; if (need[i] - s >= need[D - i] || r.coin()) { long e = need[i] > need[D - i] + s ? need[i] : need[D - i] + s; pr[i] = e + r.in(0, 2); if (style == 3) pr[D - i] = r.in(1, need[D - i]); } else { long e = need[D - i]; if (e + s < need[i]) e = need[i] - s; pr[D - i] = e; if (style == 3) pr[i] = r.in(1, need[i]); } }
    pr[D] = pr[D] < 1 ? 1 : pr[D];
    // the sign must be determined by the data (it is an input of the functional equation)
    if (w % 2 == 0) {
        bool det = pr[0] > D * w / 2 + (p == 2);
        if (!det) { pr[0] = D * w / 2 + 1 + (p == 2); if (D > 0 && need[D] + D * w / 2 > pr[0]) pr[0] = need[D] + D * w / 2; }
    }
    Mat<ZZ> M, S, Si; M.SetDims(D, D);
    ZZX Q = P; long mx = 1; for (long i = 0; i <= D; ++i) if (pr[i] > mx) mx = pr[i];
    for (long i = 0; i < D; ++i) SetCoeff(Q, i, coeff(P, i) + power_ZZ(p, pr[i]) * (r.one_in(3) ? ZZ(0) : r.bits(r.in(1, 40)) - r.bits(20)));
    for (long i = 0; i < D; ++i) { M[i][D - 1] = -coeff(Q, i); if (i) M[i][i - 1] = 1; }
    if (D > 1) for (int t = r.in(0, 6); t > 0; --t) { long a = r.in(0, D - 1), b = r.in(0, D - 1); if (a == b) continue; ZZ s(r.in(-3, 3)); for (long j = 0; j < D; ++j) M[a][j] += s * M[b][j]; for (long i = 0; i < D; ++i) M[i][b] -= s * M[i][a]; }
    if (r.coin()) for (long i = 0; i < D; ++i) for (long j = 0; j < D; ++j) M[i][j] += power_ZZ(p, mx) * r.in(-2, 2);
    c.d << "charpoly_frob p=" << p << " weight " << w << " P=" << P << " prec " << pr << " M=" << M; c.publish();
    Mat<ZZ> M0 = M; Vec<int64_t> pr0 = pr;
    Vec<ZZ> got = charpoly_frob(M, pr, p, w); same((long)got.length(), D + 1, "length");
    for (long i = 0; i <= D; ++i) same(got[i], coeff(P, i), "coefficient " + std::to_string(i));
    ok(M == M0 && pr == pr0, "input modified");
}
int main(int argc, char **argv) { return main_(argc, argv, run, 8000, 300000); }
