#include "hs.h"
using namespace H;
struct Q { int kind; vi u, v; int64_t k; int arg; };
static std::string ask(de_Rham_local &D, de_Rham_non_degenerate_local *N, const Q &q, const Vec<ZZ> &GJ, const Vec<ZZ> &GN) {
    std::ostringstream s; Vec<int64_t> u = tovec(q.u), v = tovec(q.v); Vec<ZZ_p> P; Vec<ZZ> Z;
    switch (q.kind) {
        case 0: { auto *x = D.get_solve_J(q.arg); s << x->first << x->second; break; }
        case 1: s << D.get_reduction_matrix_J(u, v); break;
        case 2: { Mat<ZZ> M = D.get_reduction_matrix_J_ZZ(u, v); s << to_mat_ZZ_p(M); break; }
        case 3: s << *D.get_inclusion_matrix_J(u); break;
        case 4: s << *D.get_final_reduction_matrix_J(q.arg); break;
        case 5: s << D.monomial_to_basis_J(u); break;
        case 6: s << D.reduce_vector_J(u, v, to_vec_ZZ_p(GJ)); break;
        case 7: D.reduce_vector_J_ZZ(Z, u, v, GJ); s << to_vec_ZZ_p(Z); break;
        case 8: D.reduce_vector_J_poly(P, u, v, q.k, to_vec_ZZ_p(GJ)); s << P; break;
        case 9: D.reduce_vector_J_poly_ZZ(Z, u, v, q.k, GJ); s << to_vec_ZZ_p(Z); break;
        case 10: { auto it = D.compute_reduction_matrix_J_ZZ(v); s << it->second; break; }
        case 11: { auto it = D.compute_reduction_matrix_J(v); s << it->second; break; }
        case 12: { auto *x = N->get_solve_ND(q.arg); s << x->first << x->second; break; }
        case 13: s << N->get_reduction_matrix_ND(u, v); break;
        case 14: s << to_mat_ZZ_p(N->get_reduction_matrix_ND_ZZ(u, v)); break;
        case 15: N->reduce_vector_ND(P, u, v, to_vec_ZZ_p(GN)); s << P; break;
        case 16: N->reduce_vector_ND_ZZ(Z, u, v, GN); s << to_vec_ZZ_p(Z); break;
        case 17: N->reduce_vector_ND_poly(P, u, v, q.k, to_vec_ZZ_p(GN)); s << P; break;
        case 18: N->reduce_vector_ND_poly_ZZ(Z, u, v, q.k, GN); s << to_vec_ZZ_p(Z); break;
        case 19: s << *N->get_inclusion_matrix_ND(u, q.arg); break;
        case 20: s << *N->get_coKernels_ND_to_basis(u); break;
        case 21: s << N->monomial_to_basis_ND(u); break;
        case 22: { auto it = N->compute_reduction_matrix_ND(v); for (auto &x : it->second) s << x.first << x.second; break; }
        case 23: { auto it = N->compute_reduction_matrix_ND_poly(v); for (auto &x : it->second) s << x.first << x.second; break; }
        case 24: { auto it = N->compute_reduction_matrix_ND_poly_ZZ(v); for (auto &x : it->second) s << x.first << to_mat_ZZ_p(x.second); break; }
        case 25: { auto it = N->compute_reduction_matrix_ND_ZZ(v); for (auto &x : it->second) s << x.first << to_mat_ZZ_p(x.second); break; }
    }
    return s.str();
}
template <class K, class V, class C> static void keep(const std::map<K, V, C> &a, const std::map<K, V, C> &b, const char *w, bool mayvanish) { for (auto &x : a) { auto it = b.find(x.first); if (it == b.end()) { if (!mayvanish) fail(std::string("a query dropped an entry of ") + w); continue; } if (!(it->second == x.second)) fail(std::string("a query changed a stored entry of ") + w); } }
static void run(Case &c) {
    Rng &r = c.r; Conf g = conf(r, 0); if (g.d > 4 || (g.n == 2 && g.d > 3 && r.coin())) g.d = g.n == 2 ? 3 : 4; if (g.d % g.p == 0) g.p = 7; int n = g.n, d = g.d, nv = n + 1; setmod(g); ZZ q = ZZ_p::modulus();
    bool toric = r.coin(); poly f = goodf(r, nv, d, g.p, toric, r.in(0, 4)); if (f.empty()) { c.trivial = true; return; }
    bool smA = r.coin(), smB = r.coin(), vb = r.one_in(3), eagerA = r.one_in(6), eagerB = r.one_in(3), J = r.coin(), nz = r.coin(); int nq = r.in(3, 14); std::vector<Q> qs; std::vector<std::string> an;
    std::vector<vi> vs; for (int i = 0; i < 2; ++i) vs.push_back(rsum(r, nv, d, 0));
    for (int i = 0; i < nq; ++i) { Q x; x.kind = toric ? r.in(0, 25) : r.in(0, 11); x.k = r.in(0, 5); x.v = r.pick(vs); x.arg = 0; x.u = vi(nv, 0);
        if (x.kind == 0) { x.arg = r.coin() ? (d - 2) * nv + 1 : r.in(1, n) * d - nv; } else if (x.kind == 3) x.u = rsum(r, nv, n, 0); else if (x.kind == 4) x.arg = r.in(1, n);
        else if (x.kind == 5 || x.kind == 21) x.u = rsum(r, nv, d * r.in(1, n + 2), 1); else if (x.kind == 12) x.arg = r.coin() ? (d - 1) * nv + 1 : r.in(0, n) * d; else if (x.kind == 19) { x.u = rsum(r, nv, d, 1); x.arg = r.in(0, n - 1); } else if (x.kind == 20) x.u = rsum(r, nv, d, 1);
        else if (x.kind <= 11) { for (int t = 0; t < nv; ++t) if (x.v[t]) x.u[t] = r.in(0, 20); } else x.u = rsum(r, nv, d * r.in(1, 5), 0);
        qs.push_back(x); }
    if (r.coin()) { int a = r.in(0, nq - 1), b = r.in(0, nq - 1); qs[a] = qs[b]; }
    std::vector<int> perm(nq); for (int i = 0; i < nq; ++i) perm[i] = i; for (int i = nq - 1; i > 0; --i) std::swap(perm[i], perm[r.in(0, i)]);
    c.d << (toric ? "toric " : "jacobian ") << g << " f=" << str(f) << " save_memory " << smA << "/" << smB << " verbose " << vb << " eager " << eagerA << "/" << eagerB << " queries"; for (auto &x : qs) c.d << " " << x.kind << ":" << str(x.u) << str(x.v) << x.k << "," << x.arg; c.publish();
    auto make = [&](bool sm, bool v) -> std::shared_ptr<de_Rham_local> { if (toric) return std::make_shared<de_Rham_non_degenerate_local>(g.p, g.e, to_mzp(f), v, sm); return std::make_shared<de_Rham_local>(g.p, g.e, to_mzp(f), v, sm); };
    auto A = make(smA, false), B = make(smB, vb); de_Rham_non_degenerate_local *NA = dynamic_cast<de_Rham_non_degenerate_local *>(A.get()), *NB = dynamic_cast<de_Rham_non_degenerate_local *>(B.get());
    Vec<ZZ> GJ, GN; GJ.SetLength(A->tuple_list[d * n - n].length()); for (auto &x : GJ) x = r.below(q); if (toric) { GN.SetLength(NA->coKernels_ND_basis.length()); for (auto &x : GN) x = r.below(q); }
    if (eagerA) { if (toric) NA->compute_everything_ND(J, nz); else A->compute_everything_J(); }
    if (eagerB) { if (toric) NB->compute_everything_ND(true, true); else B->compute_everything_J(); }
    for (int i = 0; i < nq; ++i) { an.push_back(ask(*A, NA, qs[i], GJ, GN)); }
    for (int t = 0; t < nq; ++t) { int i = perm[t];
        auto s0 = B->solve_J; auto i0 = B->inclusion_matrix_J_dict; auto r0 = B->reduction_matrix_J_dict; auto z0 = B->reduction_matrix_J_ZZ_dict; auto f0 = B->final_reduction_matrix_J_dict; std::map<Vec<int64_t>, Mat<ZZ_p>, vi64less> k0; decltype(NB->reduction_matrix_ND_poly_ZZ_dict) pz0; decltype(NB->reduction_matrix_ND_ZZ_dict) nz0; decltype(NB->inclusion_matrix_ND_dict) in0; if (toric) { k0 = NB->coKernels_ND_to_basis_dict; pz0 = NB->reduction_matrix_ND_poly_ZZ_dict; nz0 = NB->reduction_matrix_ND_ZZ_dict; in0 = NB->inclusion_matrix_ND_dict; }
        std::string b = ask(*B, NB, qs[i], GJ, GN); if (b != an[i]) fail("query " + std::to_string(i) + " (kind " + std::to_string(qs[i].kind) + ") depends on the history");
        keep(s0, B->solve_J, "the solved relations", false); keep(i0, B->inclusion_matrix_J_dict, "the inclusion maps", false); keep(r0, B->reduction_matrix_J_dict, "the reduction matrices", true); keep(z0, B->reduction_matrix_J_ZZ_dict, "the integer reduction matrices", false);
        for (long x = 0; x < f0.length(); ++x) if (f0[x].NumRows() && f0[x] != B->final_reduction_matrix_J_dict[x]) fail("a query changed a stored final map");
        if (toric) { keep(k0, NB->coKernels_ND_to_basis_dict, "the toric maps", false); keep(pz0, NB->reduction_matrix_ND_poly_ZZ_dict, "the integer line matrices", false); keep(nz0, NB->reduction_matrix_ND_ZZ_dict, "the integer toric matrices", false); keep(in0, NB->inclusion_matrix_ND_dict, "the toric inclusions", false); }
    }
    for (int i = 0; i < nq; ++i) if (r.coin()) { if (ask(*A, NA, qs[i], GJ, GN) != an[i]) fail("asking query " + std::to_string(i) + " again gave another answer"); }
}
int main(int argc, char **argv) { return main_(argc, argv, run, 2000, 60000); }
