#include "hs.h"
#include "wrapper.h"
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace H;
struct GF { int p, k; int64_t q; std::vector<int> lg, ex; std::vector<std::vector<int> > dig;
    GF(int p_, int k_, Rng &r) : p(p_), k(k_), q(ppow(p_, k_)) {
        for (;;) { std::vector<int> a(k); for (auto &x : a) x = r.in(0, p - 1); if (!a[0]) continue;      // x^k = sum a_i x^i
            lg.assign(q, -1); ex.clear(); std::vector<int> cur(k, 0); cur[0] = 1; bool good = true;
            for (int64_t i = 0; i < q - 1; ++i) { int64_t id = 0; for (int j = k - 1; j >= 0; --j) id = id * p + cur[j]; if (lg[id] >= 0) { good = false; break; } lg[id] = i; ex.push_back(id);
                if (k == 1) { cur[0] = cur[0] * a[0] % p; } else { int t = cur[k - 1]; for (int j = k - 1; j > 0; --j) cur[j] = cur[j - 1]; cur[0] = 0; for (int j = 0; j < k; ++j) cur[j] = (cur[j] + t * a[j]) % p; } }
            if (good) break; }
    }
    int add(int a, int b) const { if (k == 1) { int s = a + b; return s >= p ? s - p : s; } int r = 0, w = 1; while (a || b) { r += w * ((a % p + b % p) % p); a /= p; b /= p; w *= p; } return r; }
    int mul(int a, int b) const { if (!a || !b) return 0; int s = lg[a] + lg[b]; if (s >= q - 1) s -= q - 1; return ex[s]; }
    int pow(int a, int e) const { if (!e) return 1; if (!a) return 0; return ex[(int64_t)lg[a] * e % (q - 1)]; }
};
static int64_t count(const poly &f, int nv, const GF &F) {
    std::vector<std::pair<vi, int> > t; for (auto &x : f) { int c = to_long(x.second % F.p); if (c) t.push_back({x.first, c}); }
    int64_t tot = 0; std::vector<int> x(nv, 0);
    for (int lead = 0; lead < nv; ++lead) {     // x[lead] = 1, earlier ones 0
        int fr = nv - lead - 1; int64_t m = ppow(F.q, fr);
        for (int64_t id = 0; id < m; ++id) { int64_t z = id; for (int i = 0; i < nv; ++i) x[i] = i == lead; for (int i = lead + 1; i < nv; ++i) { x[i] = z % F.q; z /= F.q; }
            int s = 0; for (auto &w : t) { int v = w.second; for (int i = 0; i < nv && v; ++i) if (w.first[i]) v = F.mul(v, F.pow(x[i], w.first[i])); if (v) s = F.add(s, v); } if (!s) ++tot; }
    }
    return tot;
}
static void check(const ZZX &P, int n, int d, int p, const std::vector<int64_t> &cnt, const std::string &w) {
    int64_t r = (ppow(d - 1, n + 1) + ((n + 1) % 2 ? -1 : 1) * (d - 1)) / d; if (deg(P) != r) fail(w + ": degree " + std::to_string(deg(P)) + " instead of " + std::to_string(r));
    ok(LeadCoeff(P) == 1, w + ": not monic"); int wt = n - 1; ZZ c0 = power_ZZ(p, r * wt / 2); int s = 0; if (coeff(P, 0) == c0) s = 1; else if (coeff(P, 0) == -c0) s = -1; ok(s != 0 && (s == 1 || wt % 2 == 0), w + ": constant coefficient " + str(coeff(P, 0)));
    for (long i = 0; 2 * i <= r; ++i) ok(coeff(P, i) == s * coeff(P, r - i) * power_ZZ(p, (r - 2 * i) * wt / 2), w + ": functional equation at coefficient " + std::to_string(i) + " of " + str(P));
    std::vector<ZZ> e(r + 1), pw(r + 1 + cnt.size()); for (long i = 0; i <= r; ++i) e[i] = (i % 2 ? -1 : 1) * coeff(P, r - i);
    for (long k = 1; k <= (long)cnt.size(); ++k) { ZZ t(0); for (long i = 1; i < k && i <= r; ++i) t += (i % 2 ? 1 : -1) * e[i] * pw[k - i]; if (k <= r) t += (k % 2 ? 1 : -1) * k * e[k]; pw[k] = t; ZZ q = power_ZZ(p, k), c(0); for (int i = 0; i < n; ++i) c += power(q, i); c += (n % 2 ? 1 : -1) * t; if (c != cnt[k - 1]) fail(w + ": " + str(P) + " predicts " + str(c) + " points over the extension of degree " + std::to_string(k) + ", there are " + std::to_string(cnt[k - 1])); }
}
static void run(Case &c) {
    Rng &r = c.r; static const int64_t p3[] = {5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 43, 53, 61, 101}, p4[] = {3, 5, 7, 11, 13, 17, 19}, p5[] = {3, 7};
    int n = 2, d = 3; int64_t p = p3[r.in(0, 13)]; if (r.one_in(3)) { d = 4; p = p4[r.in(0, 6)]; } else if (c.k >= 8 ? c.k < 11 : false) { d = 5; p = p5[r.in(0, 1)]; } if ((c.k >= 11 && c.k < 14) || (c.k > 400 && r.one_in(400))) { n = 3; d = 4; p = c.k == 12 ? 5 : 3; }
    int nv = n + 1, style = r.in(0, 4); if (n == 3) style = 0; zz_p::init(p); poly f; std::vector<vi> ms; monos(nv, d, ms); bool want_deg = r.one_in(4) && n == 2;
    for (int t = 0; t < 60; ++t) { poly g = randf(r, nv, d, p, t > 30 ? 0 : want_deg ? 2 : style); if (want_deg && t < 30) { vi m(nv, 0); m[r.in(0, nv - 1)] = d; g.erase(m); if (g.empty()) continue; } if (fullrank(g, nv, d, p, false)) { f = g; break; } }
    if (f.empty()) { c.trivial = true; return; }
    f = pred(f, ZZ(p)); int mode = r.in(0, 3); ZZ unit(r.in(1, p - 1));
    int nc = n == 3 ? (p == 3 ? 2 : 1) : 1; double w = 1; if (n == 2) while (nc < 4 && ppow(p, 2 * (nc + 1)) < 60000) ++nc;
    std::vector<int64_t> cnt; for (int k = 1; k <= nc; ++k) cnt.push_back(count(f, nv, GF(p, k, r)));
    poly g; for (auto &t : f) { ZZ v = t.second; if (mode == 1) v *= unit; if (mode == 2) v -= p * r.in(0, 3); if (mode == 3) v += p * (r.coin() ? ZZ(r.in(-1000, 1000)) : ZZ(0)); g[t.first] = v; }
    if (mode == 3 && r.coin()) { vi m = r.pick(ms); if (!g.count(m)) g[m] = p * r.in(-2, 2); }
    int nq = n == 3 ? (c.k == 13 || c.k > 400) : 2; std::string first; ZZX P0;
    c.d << "n=" << n << " d=" << d << " p=" << p << " f=" << str(g) << " points"; for (auto x : cnt) c.d << " " << x; c.publish();
    if (n == 2 && p >= 17 && r.one_in(3)) {      // the matrix is right to the number of digits asked for
        int a1 = r.in(3, 7), a2 = a1 + r.in(1, 3); bool i1 = r.coin(); ZZX P, Q; Mat<ZZ> F, G; std::map<Vec<int64_t>, ZZ, vi64less> mp; for (auto &t : f) mp[tovec(t.first)] = t.second;
        c.d << " | digits " << a1 << " against " << a2 << " increase " << i1; c.publish();
        zeta_function(P, F, mp, p, false, 1, a1, i1, false); zeta_function(Q, G, mp, p, false, 1, a2, true, false);
        ok(F.NumRows() == G.NumRows() && F.NumCols() == G.NumCols(), "size of the matrix"); ZZ m = power_ZZ(p, a1); for (long i = 0; i < F.NumRows(); ++i) for (long j = 0; j < F.NumCols(); ++j) if ((F[i][j] - G[i][j]) % m != 0) fail("entry " + std::to_string(i) + "," + std::to_string(j) + " of the matrix asked for with " + std::to_string(a1) + " digits is " + str(F[i][j] % m) + ", with more digits " + str(G[i][j] % m));
    }
    for (int q = 0; q <= nq; ++q) {
        const poly &h = q == 0 ? f : g; int kind = q == 0 ? 0 : r.in(0, 3); bool vb = r.one_in(4), fm = q == 0 ? true : r.coin(), inc = true; int th = q == 0 ? 1 : r.in(1, 3); int ap = 0; if (q && n == 2 && p >= 11 && r.one_in(3)) { ap = r.in(1, 3); if (d == 4 && p < 13) ap = 0; if (ap && d == 4 && p < 17) ap = std::min(ap, 2); if (ap) inc = r.coin(); }
        c.d << " | entry " << kind << " verbose " << vb << " threads " << th << " abs_precision " << ap << " increase " << inc << " better_model " << fm; c.publish();
        ZZX P; Mat<ZZ> F; if (q && r.coin()) { P = ZZX(5, 7); F.SetDims(2, 3); }
        std::vector<std::vector<int64_t> > mm; std::vector<ZZ> cz; std::vector<int64_t> ci; std::map<Vec<int64_t>, ZZ, vi64less> mp; for (auto &t : h) { mm.push_back(t.first); cz.push_back(t.second); ci.push_back(to_long(t.second)); mp[tovec(t.first)] = t.second; }
        if (kind && r.coin()) for (size_t i = mm.size() - 1; i > 0; --i) { size_t j = r.in(0, i); std::swap(mm[i], mm[j]); std::swap(cz[i], cz[j]); std::swap(ci[i], ci[j]); }
        zz_p::init(r.coin() ? 17 : 5);
        if (kind == 0) zeta_function(P, F, mp, p, vb, th, ap, inc, fm); else if (kind == 1) zeta_function(P, F, mm, cz, p, vb, th, ap, inc, fm); else if (kind == 2) zeta_function(P, F, mm, ci, p, vb, th, ap, inc, fm);
        else { std::ostringstream s; s << p << "\n["; for (auto &m : mm) { s << "["; for (size_t i = 0; i < m.size(); ++i) s << (i ? " " : "") << m[i]; s << "]"; } s << "]\n["; for (size_t i = 0; i < cz.size(); ++i) s << (i ? " " : "") << cz[i]; s << "]"; zeta_function(P, F, s.str().c_str(), vb, th, ap, inc, fm); }
#ifdef _OPENMP
        omp_set_num_threads(1);
#endif
        if (q == 0) { P0 = P; check(P, n, d, p, cnt, "zeta_function"); }
        else if (ap && !inc) { ZZ m = power_ZZ(p, ap); if (P != P0) for (long i = 0; i <= deg(P0); ++i) if ((coeff(P, i) - coeff(P0, i)) % m != 0) fail("reduced precision answer " + str(P) + " is not congruent to " + str(P0)); }
        else if (P != P0) fail("entry point " + std::to_string(kind) + " returned " + str(P) + " instead of " + str(P0));
    }
}
int main(int argc, char **argv) {
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    return main_(argc, argv, run, 3000, 60000);
}
