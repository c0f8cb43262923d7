#include "hs.h"
using namespace H;
static std::string slurp(const std::string &f) { std::ifstream i(f); std::ostringstream s; s << i.rdbuf(); return s.str(); }
static std::string base(de_Rham_local &D) { std::ostringstream s; s << D.p << " " << D.precision << " " << D.n << " " << D.d << " " << D.save_memory << " " << D.Hilbert_J << " " << D.coKernels_J_basis << " " << D.tuple_list << " "; for (auto &t : D.f) s << t.first << t.second; for (auto &t : D.fbar) s << t.first << t.second; for (auto &t : D.coKernels_J_basis_dict) s << t.first << t.second; for (long i = 0; i < D.tuple_dict.length(); ++i) for (auto &t : D.tuple_dict[i]) s << t.first << t.second; return s.str(); }
static std::string basend(de_Rham_non_degenerate_local &N) { std::ostringstream s; s << N.coKernels_ND_basis << " " << N.Hilbert_ND; for (auto &t : N.coKernels_ND_basis_dict) s << t.first << t.second; return s.str(); }
static void run(Case &c) {
    Rng &r = c.r; Conf g = conf(r, 0); if (g.d > 4) g.d = 4; if (g.n == 2 && g.d == 4 && r.coin()) g.d = 3; if (g.d % g.p == 0) g.p = 7; int n = g.n, d = g.d, nv = n + 1; bool small = r.one_in(3); if (small && g.p > 13) g.p = d % 5 ? 5 : 7; setmod(g);
    bool toric = r.coin(); poly f = goodf(r, nv, d, g.p, toric, r.in(0, 3)); if (f.empty()) { c.trivial = true; return; }
    f = pred(f, ZZ(g.p)); bool lifted = r.coin(); if (lifted) { for (auto &t : f) t.second += ZZ(g.p) * r.in(0, 1000000); std::vector<vi> ms; monos(nv, d, ms); if (r.coin()) padd(f, r.pick(ms), ZZ(g.p) * r.in(1, 1000)); f = pred(f, ZZ_p::modulus()); } bool sm = r.coin(), vb = r.one_in(3), warm = r.coin(); int style = r.in(0, 4); std::string dir = "/tmp/c18_" + std::to_string(getpid()) + "_" + std::to_string(c.k), name;
    if (style == 4) name = dir + "/missing/dir"; else name = dir + "/" + std::string(style == 0 ? 1 : style == 1 ? r.in(60, 200) : style == 2 ? 8 : r.in(2, 30), 'a'); if (style == 2) name = dir + "/sub" + std::string(r.in(40, 90), 'x') + "/" + std::string(r.in(40, 90), 'y') + "/file.hs";
    c.d << (toric ? "toric " : "jacobian ") << g << " f=" << str(f) << " name length " << name.size() << " style " << style << " memory " << sm << " verbose " << vb << " warm " << warm; c.publish();
    struct Rm { std::string d; ~Rm() { std::string x = "rm -rf " + d; int q = system(x.c_str()); (void)q; } } rm{dir};
    ok(system(("mkdir -p " + dir).c_str()) == 0, "mkdir"); if (style == 2) ok(system(("mkdir -p " + name.substr(0, name.rfind('/'))).c_str()) == 0, "mkdir");
    if (style != 4 && r.coin()) { std::ofstream o(name); for (int i = r.in(1, 3000); i > 0; --i) o << "stale content "; }
    if (small) {       // through the top-level classes, comparing the Frobenius action
        std::shared_ptr<hypersurface> h; std::shared_ptr<hypersurface_non_degenerate> t; if (toric) h = t = std::make_shared<hypersurface_non_degenerate>(g.p, g.e, to_mzp(f), vb); else h = std::make_shared<hypersurface>(g.p, g.e, to_mzp(f), vb);
        long nb = h->dR->coKernels_J_basis.length(); if (nb == 0) { c.trivial = true; return; } long k = r.in(0, nb - 1); int64_t val = 0; for (int64_t q = g.p; q <= g.p * n - 1; q *= g.p) val += (g.p * n - 1) / q; if (g.e <= val) { c.trivial = true; return; }
        if (warm) h->frob_J(k, 1);
        bool res = h->save(name.c_str()); if (style == 4) { ok(!res, "saving to a missing directory reported success"); return; } ok(res, "save failed");
        std::string one = slurp(name); Vec<ZZ_p> a, b; std::shared_ptr<hypersurface> l; std::shared_ptr<hypersurface_non_degenerate> lt; if (toric) { l = lt = std::make_shared<hypersurface_non_degenerate>(name.c_str()); } else l = std::make_shared<hypersurface>(name.c_str());
        same(l->p, h->p, "p"); same(l->precision, h->precision, "precision"); same(l->n, h->n, "n"); same(l->d, h->d, "d"); a = h->frob_J(k, 1); b = l->frob_J(k, 1); same(str(b), str(a), "Frobenius action after reloading"); if (toric) { a = t->frob_ND(k, 1); b = lt->frob_ND(k, 1); same(str(b), str(a), "toric Frobenius action after reloading"); }
        ok(l->save(name.c_str()), "second save failed"); ok(slurp(name) == one, "the second save wrote another file"); return;
    }
    std::shared_ptr<de_Rham_local> A, B; std::shared_ptr<de_Rham_non_degenerate_local> NA, NB; if (toric) A = NA = std::make_shared<de_Rham_non_degenerate_local>(g.p, g.e, to_mzp(f), vb, sm); else A = std::make_shared<de_Rham_local>(g.p, g.e, to_mzp(f), vb, sm);
    vi v = rsum(r, nv, d, 0); if (warm) { A->compute_reduction_matrix_J(tovec(v)); if (toric) NA->compute_reduction_matrix_ND(tovec(v)); A->get_final_reduction_matrix_J(r.in(1, n)); }
    std::string before = base(*A); bool res = A->save(name.c_str()); ok(base(*A) == before, "saving changed the object");
    if (style == 4) { ok(!res, "saving to a missing directory reported success"); return; } ok(res, "save failed"); std::string one = slurp(name); { std::ifstream sw(name + ".swp"); ok(!sw.good(), "a swap file was left behind"); }
    if (toric) B = NB = std::make_shared<de_Rham_non_degenerate_local>(name.c_str()); else B = std::make_shared<de_Rham_local>(name.c_str());
    if (base(*B) != before) fail("reloaded data differ: " + base(*B) + " instead of " + before); if (toric) same(basend(*NB), basend(*NA), "reloaded toric data"); same(B->verbose, A->verbose, "verbosity");
    for (int q = 0; q < 6; ++q) { int64_t m = r.in(1, n + 1); vi u = rsum(r, nv, d * m, 1), w(nv, 0); for (int i = 0; i < nv; ++i) if (v[i]) w[i] = r.in(0, 9); int k = r.in(0, toric ? 7 : 4); std::string x, y; Vec<int64_t> U = tovec(u), V = tovec(v), W = tovec(w);
        if (k == 0) { x = str(A->monomial_to_basis_J(U)); y = str(B->monomial_to_basis_J(U)); } if (k == 1) { x = str(A->get_reduction_matrix_J(W, V)); y = str(B->get_reduction_matrix_J(W, V)); } if (k == 2) { int64_t i = r.in(1, n); x = str(*A->get_final_reduction_matrix_J(i)); y = str(*B->get_final_reduction_matrix_J(i)); }
        if (k == 3) { int64_t l = r.coin() ? (d - 2) * nv + 1 : r.in(1, n) * d - nv; auto *s = A->get_solve_J(l), *t = B->get_solve_J(l); x = str(s->first) + str(s->second); y = str(t->first) + str(t->second); } if (k == 4) { vi z = rsum(r, nv, n, 0); x = str(*A->get_inclusion_matrix_J(tovec(z))); y = str(*B->get_inclusion_matrix_J(tovec(z))); }
        if (k == 5) { x = str(NA->monomial_to_basis_ND(U)); y = str(NB->monomial_to_basis_ND(U)); } if (k == 6) { x = str(NA->get_reduction_matrix_ND(U, V)); y = str(NB->get_reduction_matrix_ND(U, V)); } if (k == 7) { int64_t l = r.coin() ? (d - 1) * nv + 1 : r.in(0, n) * d; auto *s = NA->get_solve_ND(l), *t = NB->get_solve_ND(l); x = str(s->first) + str(s->second); y = str(t->first) + str(t->second); }
        if (x != y) fail("query kind " + std::to_string(k) + " differs after reloading: " + y + " instead of " + x); }
    std::string two = name.substr(0, name.rfind('/')) + "/second"; ok(B->save(two.c_str()), "second save failed"); ok(slurp(two) == one, "the second save wrote another file");
}
int main(int argc, char **argv) { return main_(argc, argv, run, 3000, 60000); }
