PRE = r'''
#include <iostream>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "tools.h"
#include "matrix.h"
#include "solve_system.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
#include "wrapper.h"
using namespace NTL;
typedef map< Vec<int64_t>, ZZ_p, vi64less> mzp;
typedef map< Vec<int64_t>, zz_p, vi64less> mzs;
static void need(bool c, const char *w) { if (!c) { printf("FAIL: %s\n", w); fflush(stdout); _exit(1); } }
static Vec<int64_t> V(std::initializer_list<int64_t> l) { Vec<int64_t> v; for (int64_t x : l) append(v, x); return v; }
'''
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))


seed('tuples-stale-list', 'C01', [('tools/tuple_list_generator.cc', '''    result.SetLength(binomial(d+n-1,n-1));
''', '''    const int64_t total = binomial(d+n-1,n-1);
    // already generated for these parameters
    if( result.length() == total && total > 0 && result[0].length() == n && result[0][n-1] > 0 )
        return;
    result.SetLength(total);
''')], r'''
int main() {
    // for n = 1 there is exactly one tuple whatever the degree
    Vec< Vec<int64_t> > l; tuple_list_generator(l, 3, 1); need(l.length() == 1 && l[0] == V({3}), "fresh list");
    tuple_list_generator(l, 5, 1);
    need(l.length() == 1 && l[0] == V({5}), "list reused for another degree");
    return 0;
}''', 'an output list that already holds tuples of the same number and width (n = 1, or a list the caller filled itself)', 'the early return trusts the length of the list and returns the tuples of another degree')

seed('binomial-zz-den', 'C04', [('tools/binomial_ZZ.cc', '    ZZ den(1); // (n-k)!', '    int64_t den = 1; // (n-k)!')], r'''
int main() {
    for (int n = 0; n <= 60; ++n) for (int k = 0; k <= n; ++k) {
        ZZ a = binomial_ZZ(n, k), b = (k == 0 || k == n) ? ZZ(1) : binomial_ZZ(n - 1, k - 1) + binomial_ZZ(n - 1, k);
        need(a == b, "Pascal's rule");
    }
    return 0;
}''', 'n - k at least 21, so that (n-k)! exceeds a machine word', 'the denominator of the big-integer binomial wraps around')

seed('factorial-padic-start', 'C04', [('tools/factorial_p_adic.cc', '''    for (int64_t i = start; i <=n ; i++) {
        if (i % p != 0)
            result *= i;
        else {
            int64_t tmp = i;
            while ( tmp % p == 0) {
                tmp = tmp / p;
                ++val;
            }
            result *= tmp;
        }
    }
''', '''    for (int64_t i = start; i <=n ; i++) {
        if (i % p != 0)
            result *= i;
    }
    // the multiples of p, without their powers of p
    for (int64_t i = (start/p + 1) * p; i <= n; i += p) {
        int64_t tmp = i;
        while ( tmp % p == 0) {
            tmp = tmp / p;
            ++val;
        }
        result *= tmp;
    }
''')], r'''
int main() {
    ZZ_p::init(power_ZZ(7, 6));
    for (int64_t s = 1; s < 60; ++s) for (int64_t n = s; n < 70; ++n) {
        ZZ_p r; int64_t v = factorial_p_adic(r, n, 7, s);
        ZZ f = factorial<ZZ>(n, s); int64_t w = 0; while (IsZero(f % to_ZZ(7))) { f /= 7; ++w; }
        need(v == w && r == to_ZZ_p(f), "p-adic factorial");
    }
    return 0;
}''', 'a start that is a multiple of p', 'the first factor is skipped, so valuation and unit part are wrong')

seed('substitution-zero-row', 'C05', [('tools.h', '''            Mvec[i][X[j]] = M[i][j];''', '''            if (!IsZero(M[i][j]))
                Mvec[i][X[j]] = M[i][j];'''), ('tools.h', '''        for (int64_t i = 0; i < n ; ++i) {
            for (int64_t j = 0; j < itf->first[i]; ++j) {
                Hnew.clear();''', '''        for (int64_t i = 0; i < n ; ++i) {
            if (Mvec[i].empty())
                continue;
            for (int64_t j = 0; j < itf->first[i]; ++j) {
                Hnew.clear();''')], r'''
int main() {
    map< Vec<int64_t>, ZZ, vi64less> f; f[V({1, 1})] = 3; f[V({2, 0})] = 5;
    Mat<ZZ> M; M.SetDims(2, 2); M[0][0] = 2; M[0][1] = 1;   // x -> 2x + y, y -> 0
    auto g = change_of_variables<ZZ>(f, M);
    for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
        ZZ s(0); for (auto &t : g) s += t.second * power(ZZ(a), t.first[0]) * power(ZZ(b), t.first[1]);
        need(s == 5 * ZZ(2 * a + b) * (2 * a + b), "value of the substituted polynomial");
    }
    return 0;
}''', 'a singular matrix with a zero row', 'a variable that is sent to zero is treated as if it were sent to one')

seed('conv-fmpz-word', 'C06', [('conv/conv.cc', '''    //me being lazy
    mpz_t tmp;
    mpz_init(tmp);
    conv(tmp, b);
    fmpz_set_mpz(a,tmp);''', '''    if( NumBits(b) <= NTL_BITS_PER_LONG )
    {
        fmpz_set_si(a, to_long(b));
        return;
    }
    //me being lazy
    mpz_t tmp;
    mpz_init(tmp);
    conv(tmp, b);
    fmpz_set_mpz(a,tmp);''')], r'''
int main() {
    fmpz_t a; fmpz_init(a);
    for (int e = 1; e < 140; ++e) for (int s = -1; s <= 1; s += 2) for (int o = -1; o <= 1; ++o) {
        ZZ b = s * (power2_ZZ(e) + o), c; conv(a, b); conv(c, a);
        std::stringstream x; x << b; char *t = fmpz_get_str(NULL, 10, a);
        need(b == c && x.str() == t, "value preserved");
    }
    return 0;
}''', 'an integer of exactly 64 bits', 'integers between 2^63 and 2^64 change sign on the way to FLINT')

seed('charpoly-early-stop', 'C07', [('matrix/charpoly.cc', '''        p[i] = trace(powerM);
    }
''', '''        p[i] = trace(powerM);
        if( IsZero(p[i]) && IsZero(p[i-1]) )
            break; // nilpotent, all the other power sums vanish
    }
''')], r'''
int main() {
    // companion matrix of T^5 - 2: traces vanish until the fifth power
    Mat<ZZ> M; M.SetDims(5, 5); for (int i = 0; i < 4; ++i) M[i + 1][i] = 1; M[0][4] = 2;
    Vec<ZZ> c = charpoly(M);
    need(c.length() == 6 && c[5] == 1 && c[0] == -2 && IsZero(c[1]) && IsZero(c[2]) && IsZero(c[3]) && IsZero(c[4]), "characteristic polynomial of a companion matrix");
    return 0;
}''', 'a matrix, not nilpotent, with two consecutive powers of trace zero', 'the remaining power sums are taken to be zero and the polynomial is wrong')

seed('charpoly-frob-lift', 'C08', [('matrix/charpoly_frob.cc', '''        if( sqr(s[k]) > degree*degree*power_ZZ(p, dimension*k) )
            s[k] =''', '''        if( 2*s[k] > mod[degree - k] )
            s[k] =''')], r'''
int main() {
    // products of T^2 - a T + p, p = 17, genus 3, with the default precisions
    const int64_t p = 17; int64_t prec; Vec<int64_t> N, cpp; default_args(prec, N, cpp, p, 2, 4);
    for (int a = -8; a <= 8; ++a) for (int b = -8; b <= a; ++b) for (int c = -8; c <= b; ++c) {
        ZZX P, Q; P = 1; int l[3] = {a, b, c};
        for (int i = 0; i < 3; ++i) { ZZX q; SetCoeff(q, 2); SetCoeff(q, 1, -l[i]); SetCoeff(q, 0, p); P *= q; }
        Mat<ZZ> M; M.SetDims(6, 6); for (int i = 0; i < 5; ++i) M[i + 1][i] = 1; for (int i = 0; i < 6; ++i) M[i][5] = -coeff(P, i);
        Vec<ZZ> r = charpoly_frob(M, cpp, p, 1);
        for (int i = 0; i <= 6; ++i) need(r[i] == coeff(P, i), "lifted polynomial");
    }
    return 0;
}''', 'a curve whose third power sum lies between half the modulus and half of three times the modulus', 'the power sum is lifted to the wrong representative: a wrong polynomial or an aborted assertion')

seed('padic-lift-modulus', 'C09', [('solve_system/solve_system.cc', '''                fmpz_mul(fmpz_modulus,fmpz_modulus,fmpz_modulus);
                for(l = 0; l <  ncols + Blength; l++)
                    for(k = 0; k < nrows; k++)
                        fmpz_mod(fmpz_mat_entry(U_flint, l, k), fmpz_mat_entry(U_flint, l, k), fmpz_modulus);
''', '''                for(l = 0; l <  ncols + Blength; l++)
                    for(k = 0; k < nrows; k++)
                        fmpz_mod(fmpz_mat_entry(U_flint, l, k), fmpz_mat_entry(U_flint, l, k), fmpz_modulus);
                fmpz_mul(fmpz_modulus,fmpz_modulus,fmpz_modulus);
''')], r'''
int main() {
    const int64_t p = 1000003; zz_p::init(p);
    for (int r = 1; r <= 9; ++r) {
        ZZ_p::init(power_ZZ(p, r));
        Mat<ZZ_p> T; T.SetDims(4, 6); for (int i = 0; i < 4; ++i) for (int j = 0; j < 6; ++j) T[i][j] = to_ZZ_p(power(ZZ(31 * i + 7 * j + 5), 9 + i));
        Vec<int64_t> B; Mat<ZZ_p> U; solve_system_padic(B, U, T, r);
        Mat<ZZ_p> X; X.SetDims(4, 6 + B.length()); for (int i = 0; i < 4; ++i) for (int j = 0; j < 6; ++j) X[i][j] = T[i][j];
        for (int i = 0; i < B.length(); ++i) X[B[i]][6 + i] = 1;
        Mat<ZZ_p> P = X * U; need(IsIdent(P, 4), "right inverse");
    }
    return 0;
}''', 'a modulus p^r of more than 64 bits with r at least 3', 'the iterate is truncated to the previous precision before it is used, so U is a right inverse only modulo a lower power')

seed('reduction-zz-reduced-u', 'C11', [('dr/get_reduction_matrix_J_ZZ.cc', '''        result += it->second[i+1]*u[i];''', '''        result += it->second[i+1]*(u[i] % p);''')], r'''
int main() {
    const int64_t p = 7; zz_p::init(p); ZZ_p::init(power_ZZ(p, 3));
    mzp f; f[V({3, 0, 0})] = 1; f[V({0, 3, 0})] = 1; f[V({0, 0, 3})] = 1; f[V({1, 1, 1})] = 3;
    de_Rham_local D(p, 3, f, false);
    Vec<int64_t> v = V({1, 1, 1});
    for (int64_t a = 0; a < 40; ++a) {
        Vec<int64_t> u = V({a, 2 * a + 1, 5});
        Mat<ZZ_p> A = D.get_reduction_matrix_J(u, v), B = conv< Mat<ZZ_p> >(D.get_reduction_matrix_J_ZZ(u, v));
        need(A == B, "the matrix over the integers has the residues of the modular one");
    }
    return 0;
}''', 'precision above 1 and an exponent of at least p', 'the reduction matrix over the integers is right only modulo p')

seed('nd-zz-overflow', 'C12', [('dr_nd/dr_nd.cc', '''            mul(monomial_evaluated, monomial_evaluated, power_ZZ(u[i],(itM->first)[i]) );
        rem(monomial_evaluated''', '''            mul(monomial_evaluated, monomial_evaluated, power_long(u[i],(itM->first)[i]) );
        rem(monomial_evaluated''')], r'''
int main() {
    const int64_t p = 101; zz_p::init(p); ZZ_p::init(power_ZZ(p, 2));
    mzp f; f[V({3, 0, 0})] = 1; f[V({0, 3, 0})] = 2; f[V({0, 0, 3})] = 5; f[V({1, 1, 1})] = 1;
    de_Rham_non_degenerate_local D(p, 2, f, false);
    for (int64_t a = 1; a < 4000000; a = 3 * a + 2) {
        Vec<int64_t> u = V({a, a + 1, 3 * a + 2 + (3 - (5 * a + 3) % 3) % 3});
        for (auto v : {V({1, 1, 1}), V({2, 1, 0}), V({0, 0, 3}), V({3, 0, 0})}) {
            Mat<ZZ_p> A = D.get_reduction_matrix_ND(u, v), B = conv< Mat<ZZ_p> >(D.get_reduction_matrix_ND_ZZ(u, v));
            need(A == B, "integer and modular reduction matrix");
        }
    }
    return 0;
}''', 'exponents above about two million (their cube exceeds a machine word)', 'a power of an exponent wraps around in the reduction matrix over the integers')

seed('j-zz-cache-accumulates', 'C14', [('dr/get_reduction_matrix_J_ZZ.cc', '''    Mat<ZZ> result;
''', ''), ('dr/get_reduction_matrix_J_ZZ.cc', '''    it =  compute_reduction_matrix_J_ZZ(v);
    result = it->second[0];
''', '''    it =  compute_reduction_matrix_J_ZZ(v);
    Mat<ZZ> &result = reduction_matrix_J_ZZ_dict[v][0]; // avoids a copy
''')], r'''
int main() {
    const int64_t p = 11; zz_p::init(p); ZZ_p::init(power_ZZ(p, 3));
    mzp f; f[V({3, 0, 0})] = 1; f[V({0, 3, 0})] = 1; f[V({0, 0, 3})] = 1; f[V({1, 1, 1})] = 1;
    de_Rham_local D(p, 3, f, false);
    Vec<int64_t> v = V({1, 1, 1}), u = V({2, 3, 4});
    Mat<ZZ> A = D.get_reduction_matrix_J_ZZ(u, v), B = D.get_reduction_matrix_J_ZZ(u, v);
    need(A == B, "asking twice gives the same answer");
    return 0;
}''', 'two requests for the same direction', 'the cached constant term is modified by the first request')

seed('frob-loop2-direction', 'C15', [('hypersurface/frob_J_ZZ_p.cc', '''                        Mred = dR->get_reduction_matrix_J(dest, y);''', '''                        Mred = dR->get_reduction_matrix_J(dest, v);''')], r'''
int main() {
    const int64_t p = 5; zz_p::init(p); ZZ_p::init(power_ZZ(p, 4));
    mzp f; f[V({3, 0, 0})] = 1; f[V({0, 3, 0})] = 2; f[V({0, 0, 3})] = 3; f[V({1, 1, 1})] = 1; f[V({2, 1, 0})] = 1;
    hypersurface h(p, 4, f, false);
    for (int c = 0; c < h.dR->coKernels_J_basis.length(); ++c) {
        Vec<ZZ_p> a = h.frob_J_ZZ_p(c, 2, 0), b = h.frob_J_ZZ_p(c, 2, 1), d = h.frob_J_ZZ_p(c, 2, 2);
        need(a == b, "loop 1"); need(a == d, "loop 2");
    }
    return 0;
}''', 'the third inner-loop variant of the modular Jacobian algorithm, near the end of a reduction where the step differs from the main direction', 'the Frobenius matrix differs from the other variants')

seed('default-sextic-precision', 'C16', [('tools/default_args.cc', '''			precision = 11;
			buffer << "[6 6]\\n[15 14 13 12 11 10 9 8 7 6 6 6 6 6 6 6 6 6 6 6 6]";''', '''			precision = 11;
			buffer << "[6 6]\\n[15 14 13 12 11 10 9 8 7 6 6 5 5 5 5 5 5 5 5 5 5]";''')], r'''
int main() {
    // every prime the entry is used for: p^prec(k) must exceed twice the bound 2g/k * p^(k/2) of the k-th power sum
    for (int64_t p = 11; p < 200; ++p) {
        if (!ProbPrime(p)) continue;
        int64_t prec; Vec<int64_t> N, c; default_args(prec, N, c, p, 2, 6);
        for (int k = 1; k <= 10; ++k) { ZZ m = power_ZZ(p, c[20 - k]); need(sqr(ZZ(k)) * sqr(m) > 4 * sqr(ZZ(20)) * power_ZZ(p, k), "the residue and the bound determine the coefficient"); }
    }
    return 0;
}''', 'plane sextics and one of the primes 11, 13, 17, 19', 'the ninth coefficient is no longer determined by its residue')

seed('extra-precision-terms', 'C17', [('wrapper/zeta_function.cc', '''          assert(r_vector[i] + n - (i + 1) >=  N[i]);
          N[i] = r_vector[i] + n - (i + 1);
          precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i));''', '''          assert(r_vector[i] + n - (i + 1) >=  N[i]);
          N[i] = max(N[i], r_vector[i]);
          precision = max(precision, r_vector[i] + max(int64_t(0), valuation_of_factorial(p * (i + N[i]) - 1, p) - i));''')], r'''
int main() {
    std::vector< std::vector<int64_t> > m = {{4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {2, 1, 1}, {1, 3, 0}}; std::vector<int64_t> c = {1, 1, 1, 2, 1};
    ZZX a, b; Mat<ZZ> F, G;
    zeta_function(a, F, m, c, 29);
    zeta_function(b, F, m, c, 29, false, 1, 6, true);
    need(a == b, "the polynomial does not depend on the requested precision");
    zeta_function(b, G, m, c, 29, false, 1, 9, true);
    ZZ q = power_ZZ(29, 6);
    for (long i = 0; i < F.NumRows(); ++i) for (long j = 0; j < F.NumCols(); ++j) need(F[i][j] % q == G[i][j] % q, "the matrix is right to the precision asked for");
    return 0;
}''', 'a request for more digits of the Frobenius matrix than the zeta function needs', 'the expansion of the columns of higher pole order stops one or more terms too early for the digits asked for')

seed('loader-basis-index', 'C18', [('dr/constructors.cc', '''                append(coKernels_J_basis, tuple_list[ (i + 1) * d - (n + 1) ][ (solve_pair->first)[j] ]);
            }
        }
        solve_pair = &( solve_J[(d - 2) * (n + 1) + 1]);''', '''                append(coKernels_J_basis, tuple_list[ (i + 1) * d - (n + 1) ][ (solve_pair->first)[j] ]);
                coKernels_J_basis_dict[ tuple_list[ (i + 1) * d - (n + 1) ][ (solve_pair->first)[j] ] ] = j;
            }
        }
        solve_pair = &( solve_J[(d - 2) * (n + 1) + 1]);'''), ('dr/constructors.cc', '''        for( i = 0; i < (int64_t)coKernels_J_basis.length(); i++ )
        {
            coKernels_J_basis_dict[ coKernels_J_basis[i] ] = i;
        }

''', '')], r'''
int main() {
    const int64_t p = 7; zz_p::init(p); ZZ_p::init(power_ZZ(p, 3));
    mzp f; f[V({3, 0, 0})] = 1; f[V({0, 3, 0})] = 1; f[V({0, 0, 3})] = 1; f[V({1, 1, 1})] = 3;
    hypersurface h(p, 3, f, false);
    need(h.save("saved.txt"), "save");
    hypersurface g("saved.txt");
    need(h.dR->monomial_to_basis_J(V({2, 2, 2})) == g.dR->monomial_to_basis_J(V({2, 2, 2})), "same coordinates after reloading");
    need(h.dR->monomial_to_basis_J(V({1, 1, 1})) == g.dR->monomial_to_basis_J(V({1, 1, 1})), "same coordinates after reloading");
    return 0;
}''', 'a reloaded Jacobian-model object and a basis element of pole order at least two', 'the reverse lookup restarts at zero for every pole order')

seed('reader-keeps-first', 'C19', [('tools.h', '''        ibuf[monomials[i]] = coefficients[i];''', '''        ibuf.insert(std::make_pair(monomials[i], coefficients[i]));''')], r'''
int main() {
    std::stringstream s("[[1 0] [0 1] [1 0]]\n[5 6 7]");
    map< Vec<int64_t>, ZZ, vi64less> f; s >> f;
    need(f.size() == 2 && f[V({1, 0})] == 7 && f[V({0, 1})] == 6, "last coefficient of a repeated monomial");
    return 0;
}''', 'an input that lists a monomial twice', 'the first coefficient is kept instead of the last')

seed('picard-totient-bound', 'C20', [('tools/geometric_picard.cc', '''    while( ((double)k)/(log(k)/log(2) + 1) <= degree && !resultQ )''', '''    while( k <= 2*degree && !resultQ )''')], r'''
static int64_t gp(ZZX P, int64_t p, int dim) {      // P has roots on the unit circle: scale them by p
    Vec<ZZ> c; c.SetLength(deg(P) + 1); for (int i = 0; i <= deg(P); ++i) c[i] = coeff(P, i) * power_ZZ(p, deg(P) - i);
    return geometric_picard(c, p, dim);
}
int main() {
    ZZX P, f6; P = 1; SetCoeff(f6, 2); SetCoeff(f6, 1, -1); SetCoeff(f6, 0);   // T^2 - T + 1
    for (int k = 1; k <= 3; ++k) { P *= f6; need(gp(P, 5, 3) == 2 * k, "sixth roots of unity are counted"); }
    return 0;
}''', 'a factor whose roots are p times a root of unity of order m with m > 2 phi(m) (6, 12, 18, 30, ...)', 'those roots are not counted')

seed('model-search-compounds', 'C21', [('dr_nd/dr_nd.cc', '''    not_nd = !( isND(f) );
    ident(M, n);''', '''    not_nd = !( isND(f) );
    new_f = f;
    ident(M, n);'''), ('dr_nd/dr_nd.cc', '''        new_f = change_of_variables<zz_p>(f, M);''', '''        new_f = change_of_variables<zz_p>(new_f, M);''')], r'''
int main() {
    const int64_t p = 5; zz_p::init(p); ZZ_p::init(ZZ(p)); SetSeed(ZZ(7));
    int found = 0;
    for (int t = 0; t < 40; ++t) {
        mzs f; f[V({4, 0, 0})] = 1; f[V({1, 3, 0})] = 1; f[V({0, 1, 3})] = 1; if (t % 2) f[V({2, 1, 1})] = 1 + t % 4;
        if (isND(f)) continue;
        Mat<zz_p> M = find_change_of_variables(f, 200);
        if (IsZero(M)) continue;
        ++found;
        need(determinant(M) == 1, "determinant");
        need(isND(change_of_variables<zz_p>(f, M)), "the substituted polynomial is non-degenerate");
    }
    need(found > 0, "some model found");
    return 0;
}''', 'a polynomial for which the first random matrix does not work', 'the matrix returned is only the last factor of the substitution that was tested')
