# Regenerates /verif/properties.jsonl.
import json, sys
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

prop("C01","Monomial enumeration is complete, duplicate-free and lexicographic",
 "For every number of variables n >= 1 and degree d >= 0 whose monomial count fits a machine word, the generated list contains every n-tuple of non-negative integers summing to d exactly once, in strictly increasing lexicographic order, and has exactly binomial(d+n-1, n-1) entries; whatever the output list held before the call does not matter.",
 ["inputs"],"all n >= 1, d >= 0 with binomial(d+n-1,n-1) < 2^63, and every prior content of the output",
 "Existing tests only reach it through a handful of (n,d) pairs with n in {3,4}; they never inspect the list. The claim quantifies over all n and d.",
 ["tools/tuple_list_generator.cc","tools.h"],[("successor step of the tuple walk","tools/tuple_list_generator.cc:tuple_list_generator"),("size from binomial coefficient","tools/binomial.cc:binomial")],
 ["return value of the list generator; every coordinate index in the reduction matrices is a position in this list"])

prop("C02","Exponent-vector arithmetic is componentwise and the order is strict total",
 "Adding, subtracting, scaling and pairing exponent vectors, applying an integer matrix to one, and copying one to or from a plain array, agree componentwise with integer arithmetic for every length and every values whose results are representable (for inner products and matrix application, whose partial sums are too); the componentwise operations also when the output is one of the inputs. The comparison used to key polynomials is the lexicographic order: irreflexive, transitive, and for distinct vectors of equal positive length exactly one of a<b, b<a holds.",
 ["inputs"],"all lengths >= 1 and all entries for which the mathematical results and the running sums fit 64 bits",
 "No existing test calls these operations directly; std::map correctness depends on the order being strict and total on all keys, which sampling keys cannot show.",
 ["vec_int64.h"],[("componentwise loops","vec_int64.h:add/sub/mul/conv"),("lexicographic comparison","vec_int64.h:operator<")],
 ["results of the vector operators; lookup in any polynomial"])

prop("C03","Removing units from an exponent vector is exact and leftmost-first",
 "Removing one unit at a chosen positive position changes that entry by one and nothing else. Removing r units from a vector of non-negative entries removes exactly min(r, total) units, taking them from the leftmost positive entries first, so the result is componentwise between 0 and the input, removing r then s units equals removing r+s, and the argument itself is never modified.",
 ["inputs"],"all vectors of non-negative entries of any length and all r >= 0",
 "Tests only observe these through whole Frobenius computations with d*n-n units removed from a few vectors.",
 ["vec_int64/tweak.cc","vec_int64/tweak_step.cc","vec_int64/diff.cc"],[("single-unit removal","vec_int64/tweak_step.cc:tweak_step"),("repeated removal","vec_int64/tweak.cc:tweak"),("decrement at an index","vec_int64/diff.cc:diff")])

prop("C04","Binomials, factorials and their p-adic parts are exact",
 "For 0 <= k <= n the machine and big-integer binomials equal the mathematical coefficient whenever it is representable, and the machine version never silently returns a wrapped value; range factorials equal the product of the range. The p-adic valuation of n! equals Legendre's sum, and the p-adic factorial returns the valuation of start*...*n together with the unit part of that product modulo the current modulus, for every prime p and every start >= 1.",
 ["inputs"],"all 0 <= k <= n, all primes p, all ranges start..n, all moduli that are powers of p",
 "Tests call none of these directly; large arguments (near 2^63) and ranges not starting at 1 are never reached.",
 ["tools/binomial.cc","tools/binomial_ZZ.cc","tools/valuation_of_factorial.cc","tools/factorial_p_adic.cc","tools.h"],
 [("quotient of range products","tools/binomial.cc:binomial, tools/binomial_ZZ.cc:binomial_ZZ"),("digit-sum formula","tools/valuation_of_factorial.cc"),("unit-part product","tools/factorial_p_adic.cc"),("range product","tools.h:factorial")])

prop("C05","Linear substitution and powers of polynomials are ring-exact",
 "Substituting linear forms given by a square matrix into a polynomial yields exactly the composed polynomial: evaluating the result at a point equals evaluating the original at the matrix-transformed point, it is additive and multiplicative in the polynomial, composes with matrix product, and the identity matrix returns the same polynomial. The expansion of a shifted monomial prod (x_i + x v_i)^(u_i) has exactly the multinomial coefficients, and the stored powers f^0, f^1, ..., f^k are exactly the powers of f regardless of the order in which powers were requested.",
 ["inputs","histories"],"all polynomials, square matrices, exponent vectors u, v for which coefficients are representable; all request orders of powers",
 "The invariance tests only use substitutions on random dense polynomials over large primes and see the result after a whole Frobenius computation.",
 ["tools.h","tools/change_of_variables_monomial.cc","hypersurface/compute_fpow.cc"],
 [("substitution monomial by monomial","tools.h:change_of_variables"),("binomial expansion of shifted monomials","tools/change_of_variables_monomial.cc"),("incremental powers","hypersurface/compute_fpow.cc:compute_fpow")])

prop("C06","Matrix and vector products, traces and conversions are exact for every shape",
 "Products of matrices, of a matrix with a transpose, of a matrix or vector with a scalar, matrix-vector and inner products, transposed products and traces equal the mathematical result entry by entry for every compatible shape, square or not, and write nothing outside the result. Conversions between the big-integer, GMP, FLINT and modular representations preserve every value (sign and size included) or its residue, and every entry position, for every shape.",
 ["inputs"],"all shapes with at least one column where the routine needs one, all integer values, all moduli",
 "Only square matrices of a few fixed sizes with non-negative entries reach these routines in the tests.",
 ["matrix.h","matrix/mul.cc","matrix/mul_tranpose.cc","matrix/transpose_mul_tranpose.cc","matrix/trace.cc","conv.h","conv/conv.cc"],
 [("triple loops","matrix/mul.cc:mul, matrix/mul_tranpose.cc, matrix/transpose_mul_tranpose.cc, matrix.h"),("trace","matrix/trace.cc:trace"),("limb and entry conversion","conv/conv.cc:conv, conv.h:conv")])

prop("C07","The integer characteristic polynomial is exact",
 "For every square integer matrix of size at least 1 the returned coefficients, constant term first, are those of det(T*I - M): monic of the matrix size, satisfying Newton's identities with the traces of the powers, annihilating the matrix, and with constant term (-1)^n det M. The matrix is not modified and no division along the way leaves a remainder.",
 ["inputs"],"all square integer matrices of every size >= 1",
 "Tests only print or compare polynomials after modular lifting of matrices with one shape; no test computes an expected characteristic polynomial.",
 ["matrix/charpoly.cc","matrix/trace.cc"],[("power sums and Newton identities","matrix/charpoly.cc:charpoly")])

prop("C08","Lifting a Frobenius matrix to its Weil polynomial recovers it exactly",
 "Let P be a monic integer polynomial of degree r whose roots have absolute value p^(w/2) and satisfy the functional equation with sign +1 (w odd) or either sign (w even). For every integer matrix whose characteristic polynomial agrees with P coefficientwise modulo the stated powers of p (at least p for the leading coefficient), when those precisions meet the root bound for each coefficient after the functional equation is applied and the residues tell the sign, the lifted polynomial is exactly P, for both signs. Neither adding multiples of the moduli to the coefficients nor supplying extra precision changes the result.",
 ["inputs"],"all p, weights, degrees, matrices and precision vectors meeting the bound and telling the sign (for even weight: the constant coefficient known modulo more than p^(w r/2), or a pair of coefficients whose residues rule out one sign)",
 "Tests use a few random hypersurfaces with the default precision vectors and large primes, and compare runs with each other, never with a known polynomial; the sign -1 case and uneven precisions are reached by luck.",
 ["matrix/charpoly_frob.cc"],[("sign detection","matrix/charpoly_frob.cc"),("functional-equation completion","matrix/charpoly_frob.cc"),("power-sum rounding","matrix/charpoly_frob.cc")])

prop("C09","Solving a relation matrix gives a true complement and right inverse",
 "For every matrix T over the integers modulo p^r whose reduction modulo p has the same column-span dimension as T, the solver returns strictly increasing row indices B whose unit vectors complete the column span of T mod p to the whole space, with |B| = rows - rank, and a matrix U of cols+|B| rows with [T | J_B] * U equal to the identity modulo p^r. This holds for every shape, including zero columns, zero rank and full rank, for each internal back end and modulus size, and both back ends return the same B; the input is not modified.",
 ["inputs","configurations"],"all shapes with at least one row, ranks, primes p, precisions r >= 1 (below and above one machine word), both back ends",
 "Tests only reach it with the relation matrices of a few smooth hypersurfaces and the FLINT back end; the NTL back end, rank 0 and precision above one word are never run.",
 ["solve_system/solve_system.cc","solve_system.h"],[("pivot extraction","solve_system/solve_system.cc:solve_system_zz_p_flint/_NTL"),("Newton lifting of the inverse","solve_system/solve_system.cc:solve_system_padic_flint/_NTL")])

prop("C10","Relation matrices encode the partials and decide smoothness correctly",
 "Column (i,j) of the relation matrix in degree l is exactly the coefficient vector of the j-th monomial of degree l-(d-1) times the i-th partial derivative (respectively degree l-d times x_i times it), for every polynomial, degree and lift. The smoothness test answers true exactly when the partials have no common zero over the algebraic closure, and the non-degeneracy test exactly when the toric partials x_i df/dx_i have none; both depend only on f modulo p and leave f unchanged.",
 ["inputs"],"all n >= 1, d >= 2, primes p and homogeneous polynomials, including singular and sparse cases and coefficients divisible by p; the smoothness equivalence for p not dividing d; the machine prime and the big modulus are set to p and a power of p, as everywhere in the library",
 "Tests only use random dense polynomials, which are smooth and non-degenerate with high probability over the large primes used; the negative answers are never checked.",
 ["dr/matrix_J.cc","dr/isSmooth.cc","dr_nd/dr_nd.cc"],[("matrix of partial derivatives","dr/matrix_J.cc:matrix_J, dr_nd/dr_nd.cc:matrix_ND"),("full-rank test","dr/isSmooth.cc:isSmooth, dr_nd/dr_nd.cc:isND")])

prop("C11","Pole-order reduction steps preserve the cohomology class",
 "For every smooth f and every reduction direction, the reduction map applied to a form is the map M_0 + sum u_i M_i determined by writing monomials in the Jacobian ideal, so the reduced form is cohomologous to the original one. The matrix form, the vector form, and the iterated form along a line (k steps at once) give the same residues, over the integers or modulo p^r, and iterating k steps equals k single steps for every k >= 0.",
 ["inputs"],"all smooth f of degree d > n with p not dividing d, all admissible (u, v), all vectors G, all k >= 0, all precisions",
 "The path tests compare a few random paths of the matrix form only; the integer, vector and iterated forms are never compared with it.",
 ["dr/compute_reduction_matrix_J.cc","dr/compute_reduction_matrix_J_ZZ.cc","dr/get_reduction_matrix_J.cc","dr/get_reduction_matrix_J_ZZ.cc","dr/reduce_vector_J.cc","dr/reduce_vector_J_ZZ.cc","dr/reduce_vector_J_poly.cc","dr/reduce_vector_J_poly_ZZ.cc"],
 [("matrix polynomial in u","dr/compute_reduction_matrix_J.cc"),("evaluation and application","dr/reduce_vector_J*.cc, dr/get_reduction_matrix_J*.cc")])

prop("C12","Non-degenerate reduction steps agree across every implementation",
 "For every non-degenerate f, the reduction in the toric model gives the same residues whether computed as a matrix, applied to a vector modulo p^r or over the integers, along a line with polynomial coefficients, or through the FLINT word-size, finite-difference and big-modulus paths. k steps at once equal k single steps for every k >= 0, for every f including sparse ones, every modulus size, and any entries of the input vector reduced modulo p^r.",
 ["inputs","configurations"],"all non-degenerate f of degree d > n with p not dividing d, directions v, base points u, step counts k, vectors and modulus sizes (one word or more, k above or below n+1)",
 "Tests compare paths of the matrix form only and run the FLINT path inside whole computations with small moduli and random dense f.",
 ["dr_nd/dr_nd.cc"],[("matrix polynomial","dr_nd/dr_nd.cc:compute_reduction_matrix_ND, _ND_poly"),("vector forms","dr_nd/dr_nd.cc:reduce_vector_ND*"),("FLINT forms and finite differences","dr_nd/dr_nd.cc:get_ND_poly_flint, reduce_vector_ND_poly_flint, finitediff_flint_nmod")])

prop("C13","Coordinates in the cohomology basis are exact",
 "A basis element has unit coordinates (times the factorial of its pole order minus one), multiplying numerator and denominator of a form by f does not change its coordinates up to that factorial, exact forms have zero coordinates, and both reduction models agree on every monomial form of every pole order. The final and inclusion maps have the dimensions and entries given by the chosen basis for every pole order 1..n.",
 ["inputs"],"all smooth (or non-degenerate) f of degree d > n with p not dividing d, all monomial forms of every pole order, all precisions",
 "The stable tests check multiplication by f for a few random dense polynomials and small exponents, never exactness or agreement of the two models.",
 ["dr/compute_final_reduction_matrix_J.cc","dr/compute_inclusion_matrix_J.cc","dr/monomial_to_basis_J.cc","dr/init.cc","dr_nd/dr_nd.cc"],
 [("final reduction","dr/compute_final_reduction_matrix_J.cc"),("inclusion","dr/compute_inclusion_matrix_J.cc"),("monomial coordinates","dr/monomial_to_basis_J.cc, dr_nd/dr_nd.cc:monomial_to_basis_ND"),("map of the toric basis","dr_nd/dr_nd.cc:compute_coKernels_ND_to_basis")])

prop("C14","Cached intermediate results never change an answer",
 "Every query on a prepared hypersurface returns the same value whether the needed tables were computed lazily, computed all in advance, computed in another order, or requested before; the memory-saving setting and the verbosity setting never change a value. Asking twice gives the same answer and does not alter other cached tables.",
 ["histories","configurations"],"all sequences of queries, both memory settings, eager or lazy",
 "Tests run one fixed order of queries per object with the default setting.",
 ["dr/get_solve_J.cc","dr/get_inclusion_matrix_J.cc","dr/get_final_reduction_matrix_J.cc","dr/compute_everything_J.cc","dr/compute_reduction_matrix_J_ZZ.cc","dr_nd/dr_nd.cc","hypersurface/compute_fpow.cc"],
 [("lookup-or-compute","dr/get_*.cc, dr_nd/dr_nd.cc:get_*, compute_*"),("release of the modular copy","dr/compute_reduction_matrix_J_ZZ.cc, dr_nd/dr_nd.cc")])

prop("C15","The Frobenius matrix does not depend on how it is computed",
 "For every f for which both models apply, the Frobenius action on each basis element has the same coordinates modulo p^r from the Jacobian and the toric algorithm, from integer and modular arithmetic, from every inner-loop variant, and for every number of threads, including primes p not larger than the dimension. Columns requested with zero terms are zero.",
 ["inputs","schedules","configurations"],"all smooth plane curves and surfaces of degree d > n with p not dividing d, coordinates, numbers of terms, loop variants, thread counts, primes (small included) and modulus sizes",
 "Tests compare the two models on one small case and never compare variants, thread counts, moduli above one word or tiny primes.",
 ["hypersurface/frob_J_ZZ.cc","hypersurface/frob_J_ZZ_p.cc","hypersurface/frob_matrix_J.cc","hypersurface_nd/hypersurface_nd.cc"],
 [("series terms and reductions","hypersurface/frob_J_ZZ.cc, frob_J_ZZ_p.cc, hypersurface_nd/hypersurface_nd.cc"),("parallel columns and parallel reductions","hypersurface/frob_matrix_J.cc, hypersurface_nd/hypersurface_nd.cc")])

prop("C16","Default precisions suffice to determine the zeta function",
 "For every supported dimension, degree and odd prime not dividing the degree, the default table gives one term count per pole order, one precision per coefficient of the polynomial (degree plus one, the number given by the Hodge numbers), and a working precision, such that after the functional equation every coefficient is determined uniquely by its residue and the root bound. Unsupported (dimension, degree) pairs are refused rather than answered.",
 ["inputs"],"all odd primes p (unbounded) for each supported (n,d); the tables were generated from p = 3 on, and for p = 2 the lifting refuses them by an assertion",
 "Tests sample a few primes at least 17 and few degrees; sufficiency must hold for every prime in each range, including the small ones.",
 ["tools/default_args.cc"],[("lookup tables by prime range","tools/default_args.cc:default_args")])

prop("C17","Every zeta entry point returns the true zeta numerator",
 "For every supported smooth projective hypersurface the returned polynomial is monic of the expected degree, satisfies the functional equation, and reproduces the number of points over every extension of the base field. The map, vector (machine or big-integer coefficients) and text entry points give the same answer, negative and unreduced coefficients count modulo p, and verbosity, thread count, requested extra precision, the model search and multiplying f by a unit do not change it (a reduced precision asked for explicitly gives the same coefficients modulo that power of p).",
 ["inputs","configurations"],"all supported smooth f, coefficient representations, option combinations and entry points",
 "The wrapper test computes the polynomial but its comparison can never fail on the value; no test counts points.",
 ["wrapper/zeta_function.cc","wrapper.h"],[("packing of arguments","wrapper/zeta_function.cc overloads"),("pipeline and option handling","wrapper/zeta_function.cc")])

prop("C18","Saving and reloading a prepared hypersurface loses nothing",
 "A prepared hypersurface written to a file and read back in the same field answers every later query exactly as the original, for both models, for every file name, and a second save writes the same file. A save that cannot open its file reports failure and does not crash.",
 ["inputs","histories"],"all hypersurfaces given modulo p, all file names, all query sequences after reload",
 "No existing test saves or loads anything.",
 ["dr/save.cc","dr/constructors.cc","dr_nd/dr_nd.cc","hypersurface/save.cc","hypersurface_nd/hypersurface_nd.cc"],
 [("sequence of written fields","dr/save.cc:save, dr_nd/dr_nd.cc:save"),("sequence of read fields","dr/constructors.cc, dr_nd/dr_nd.cc file constructors")])

prop("C19","Text form of a polynomial round-trips",
 "Writing a non-empty polynomial as its list of monomials and list of coefficients and reading it back yields the same polynomial, for every coefficient ring and any number of terms; reading replaces the previous content of the target completely, and repeated monomials keep the last coefficient. The human-readable form lists every term exactly once in monomial order.",
 ["inputs"],"all non-empty polynomials over the integers or a prime field, any prior content of the target",
 "Existing tests read a few literals and never compare a written polynomial with the original.",
 ["tools.h"],[("stream operators for maps","tools.h:operator>>, operator<<, operator<<=")])

prop("C20","The geometric Picard number counts roots of unity exactly",
 "For every monic integer polynomial whose roots have absolute value p, the reported number equals the number of roots, with multiplicity, that are p times a root of unity, plus one when the dimension is even; it does not depend on the order of the irreducible factors.",
 ["inputs"],"all products of scaled cyclotomic polynomials and non-cyclotomic Weil factors, all primes p",
 "No stable test calls it.",
 ["tools/geometric_picard.cc"],[("factorisation and comparison with cyclotomics","tools/geometric_picard.cc")])

prop("C21","Random model changes are unimodular and find non-degenerate models",
 "A random special linear matrix always has determinant one, for every size and prime. The search for a better model returns either the zero matrix, or a matrix of determinant one after which the substituted polynomial is non-degenerate; a polynomial that is already non-degenerate gets the identity.",
 ["inputs","configurations"],"all sizes n >= 1, primes p, random streams, polynomials and trial limits",
 "Tests only use it indirectly for random polynomials which are already non-degenerate with high probability.",
 ["matrix/random_SL_matric.cc","dr_nd/dr_nd.cc"],[("row scaling by the inverse determinant","matrix/random_SL_matric.cc"),("trial loop","dr_nd/dr_nd.cc:find_change_of_variables")])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
