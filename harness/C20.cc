#include "harness.h"
#include "tools.h"
using namespace H; using namespace NTL;
static ZZX cyclo(long m) { ZZX r; SetCoeff(r, m); r -= 1; for (long k = 1; k < m; ++k) if (m % k == 0) r /= cyclo(k); return r; }
static long phi(long m) { long c = 0; for (long i = 1; i <= m; ++i) if (GCD(i, m) == 1) ++c; return c; }
static void run(Case &c) {
    Rng &r = c.r; long p = r.one_in(4) ? NextPrime(r.in(50, 100000)) : NextPrime(r.in(2, 30)); long dim = r.one_in(5) ? 2 * r.in(0, 3) : 2; ZZX P(1); long cnt = 0; int nf = r.in(1, 7); long cap = r.one_in(6) ? 60 : 22; c.d << "p=" << p << " dimension " << dim << " factors";
    for (int i = 0; i < nf; ++i) {
        int kind = r.in(0, 5); ZZX g;
        if (kind <= 2) { long m = r.one_in(3) ? r.in(1, 3) : r.one_in(3) ? r.in(1, 66) : r.in(1, 20); if (deg(P) + phi(m) > cap) continue; ZZX f = cyclo(m); long n = deg(f); for (long k = 0; k <= n; ++k) SetCoeff(g, k, coeff(f, k) * power_ZZ(p, n - k)); int e = (r.one_in(3) && deg(P) + 2 * n <= cap) ? 2 : 1; for (int t = 0; t < e; ++t) P *= g; cnt += e * n; c.d << " Phi" << m << "^" << e; }
        else if (kind == 3) { if (deg(P) + 2 > cap) continue; ZZ b = ZZ(2) * p; ZZ a = r.below(2 * b + 1) - b; if (a % p == 0) { if (p == 2 || a == b || a == -b || a == 0 || a == p || a == -p) continue; }  // T^2 - aT + p^2, roots p times a root of unity iff a = 0, +-p, +-2p
            SetCoeff(g, 2); SetCoeff(g, 1, -a); SetCoeff(g, 0, ZZ(p) * p); if (a == 0 || a == p || a == -p || a == b || a == -b) continue; P *= g; c.d << " (T^2-" << a << "T+p^2)"; }
        else if (kind == 4) { if (deg(P) + 4 > cap) continue; // T^4 + aT^3 + bT^2 + ap^2 T + p^4 from two quadratics x^2 + u, u in (-2p,2p) conjugate: (T^2+p^2)^2 + aT(T^2+p^2) + (b-2p^2)T^2
            ZZ s = r.below(ZZ(8 * p)) - 4 * p; ZZ lo = 2 * abs(s) * p - 4 * ZZ(p) * p, hi = s * s / 4; if (lo > hi) continue; ZZ q = lo + r.below(hi - lo + 1); ZZ disc = s * s - 4 * q; if (disc < 0) continue; ZZ sq = SqrRoot(disc); if (sq * sq == disc) continue; // y^2 + s y + q irreducible, |y| <= 2p
            if (s % p == 0 && q % (ZZ(p) * p) == 0) continue; SetCoeff(g, 4); SetCoeff(g, 3, s); SetCoeff(g, 2, q + 2 * ZZ(p) * p); SetCoeff(g, 1, s * p * p); SetCoeff(g, 0, power_ZZ(p, 4)); if (s == 0) { ZZ y2 = -q; if (y2 == 0 || y2 == ZZ(p) * p || y2 == 2 * ZZ(p) * p || y2 == 3 * ZZ(p) * p || y2 == 4 * ZZ(p) * p) continue; } P *= g; c.d << " " << g; }
        else { if (deg(P) + 2 > cap) continue; SetCoeff(g, 2); ZZ a = r.below(ZZ(2 * p)) ; if (a == 0 || a % p == 0) continue; SetCoeff(g, 1, a); SetCoeff(g, 0, ZZ(p) * p); P *= g * g; c.d << " (" << g << ")^2"; }
    }
    if (deg(P) < 1) { c.trivial = true; return; }
    if (dim == 2 && deg(P) % 2 != cnt % 2) { c.trivial = true; return; }
    c.d << " degree " << deg(P) << " expected " << cnt; c.publish(); Vec<ZZ> v; for (long i = 0; i <= deg(P); ++i) append(v, coeff(P, i)); Vec<ZZ> w = v; same(geometric_picard(v, p, dim), (int64_t)(cnt + (dim % 2 == 0)), "geometric Picard number"); ok(v == w, "argument changed"); if (dim != 2) return; 
    int64_t odd = geometric_picard(v, p, 1 + 2 * r.in(0, 2)); same(odd, (int64_t)cnt, "count for an odd dimension");
}
int main(int argc, char **argv) { return main_(argc, argv, run, 6000, 200000); }
