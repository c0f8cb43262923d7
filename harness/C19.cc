#include "harness.h"
#include "tools.h"
#include "vec_int64.h"
#include <NTL/vec_lzz_p.h>
#include <NTL/vec_ZZ_p.h>
using namespace H; using namespace NTL;
template <class R> static std::string human(const std::map<Vec<int64_t>, R, vi64less> &m) { std::ostringstream s; s << "{"; size_t i = 0; for (auto &t : m) { s << "("; for (long j = 0; j < t.first.length(); ++j) { s << t.first[j]; if (j < t.first.length() - 1) s << ", "; } s << "): " << t.second; if (++i < m.size()) s << ",\n "; } s << "}"; return s.str(); }
// accepts any spacing and line breaks: the property fixes the terms, their order and that each occurs once
static std::string squeeze(const std::string &s) { std::string r; for (char c : s) if (c != ' ' && c != '\n' && c != '\t') r += c; return r; }
template <class R> static void one(Case &c, const std::function<R()> &coef) {
    Rng &r = c.r; int nv = r.in(1, 6), nt = r.one_in(4) ? 1 : r.one_in(10) ? r.in(50, 400) : r.in(1, 12); typedef std::map<Vec<int64_t>, R, vi64less> M; M f;
    std::vector<Vec<int64_t> > ms; std::vector<R> cs; int bound = r.one_in(5) ? 1000000000 : r.in(1, 9);
    for (int i = 0; i < nt; ++i) { Vec<int64_t> m; m.SetLength(nv); for (auto &x : m) x = r.one_in(8) ? -r.in(0, bound) : r.in(0, bound); if (i && r.one_in(5)) m = ms[r.in(0, i - 1)]; ms.push_back(m); cs.push_back(coef()); f[m] = cs.back(); }
    c.d << "variables " << nv << " terms listed " << nt << " distinct " << f.size() << " first " << ms[0] << ":" << cs[0]; c.publish();
    std::ostringstream o; o << f; M g; if (r.coin()) { Vec<int64_t> m; bool longer = r.coin(); m.SetLength(longer ? nv + 1 : nv); m[0] = -5; g[m] = coef(); if (!longer) g[ms[0]] = coef(); }
    { std::istringstream i(o.str()); i >> g; if (!i) fail("reading back failed"); } ok(g.size() == f.size(), "number of terms after a round trip: " + std::to_string(g.size()) + " instead of " + std::to_string(f.size()));
    for (auto &t : f) { auto it = g.find(t.first); if (it == g.end() || it->second != t.second) fail("term " + str(t.first) + " is lost or changed by a round trip"); }
    // the text is a list of monomials followed by a list of coefficients
    { std::istringstream i(o.str()); Vec<Vec<int64_t> > mm; Vec<R> cc; i >> mm >> cc; ok(mm.length() == (long)f.size() && cc.length() == (long)f.size(), "lists of the wrong length"); long k = 0; for (auto &t : f) { if (mm[k] != t.first || cc[k] != t.second) fail("entry " + std::to_string(k) + " of the lists"); ++k; } }
    // repeated monomials: last coefficient
    std::ostringstream d; d << "["; for (auto &m : ms) d << m << (r.coin() ? "\n" : " "); d << "]" << (r.coin() ? "\n" : "  ") << "["; for (auto &x : cs) d << x << " "; d << "]"; M h; if (r.coin()) h = g; { std::istringstream i(d.str()); i >> h; }
    ok(h.size() == f.size(), "repeated monomials: number of terms"); for (auto &t : f) if (!(h[t.first] == t.second)) fail("repeated monomials: " + str(t.first) + " does not keep the last coefficient");
    std::ostringstream a; a <<= f; std::string e = human(f); if (squeeze(a.str()) != squeeze(e)) fail("human-readable form: got " + a.str() + " expected " + e);
    // two polynomials one after the other in a stream
    { std::ostringstream t; t << f << f; std::istringstream i(t.str()); M x, y; i >> x; i >> y; ok(x.size() == f.size() && y.size() == f.size(), "two polynomials in one stream"); }
}
static void run(Case &c) {
    Rng &r = c.r; zz_p::init(NextPrime(r.in(2, 1 << 20))); ZZ_p::init(power_ZZ(NextPrime(r.in(2, 1000)), r.in(1, 20)));
    switch (c.k % 4) { case 0: one<ZZ>(c, [&]() { ZZ z = r.bits(r.in(1, 200)); return r.coin() ? z : ZZ(-z); }); break; case 1: one<zz_p>(c, [&]() { return to_zz_p((long)(r.next() >> 2)); }); break; case 2: one<ZZ_p>(c, [&]() { return to_ZZ_p(r.bits(200)); }); break; default: one<int64_t>(c, [&]() { return (int64_t)(r.next() >> r.in(0, 63)) * (r.coin() ? 1 : -1); }); }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 20000, 500000); }
