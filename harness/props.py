T = ['vec_int64', 'tools', 'conv']
M = ['vec_int64', 'tools', 'conv', 'matrix']
PROPS = {
    'C01': dict(dirs=T, asan=False, budget=15, rule='(variables, degree, prior content) triples; every n<=8, d<=14 with at most 60000 monomials plus large single-parameter cases and random ones; all are non-trivial'),
    'C02': dict(dirs=['vec_int64'], asan=True, budget=12, rule='one operation on random vectors with extreme and small entries, forced representable; aliasing included; all are non-trivial'),
    'C03': dict(dirs=['vec_int64'], asan=True, budget=12, rule='random non-negative vectors and removal counts up to and beyond the total'),
    'C04': dict(dirs=T, asan=True, budget=15, rule='binomials (all n<75 plus random), range factorials, Legendre valuations, p-adic factorials; trivial: non-representable binomials not probed for the abort'),
    'C05': dict(note='Substitution (three coefficient rings), expansion of shifted monomials and stored powers proved at every integer point; negative shifts evaluated by the harness (bounded).', budget=15, rule='random polynomials, matrices and rings against naive composition; shifted monomials against naive products; powers of f in random request order; trivial: coefficients that do not fit'),
    'C06': dict(dirs=M, asan=True, budget=15, rule='each of 16 routines or conversions on random rectangular shapes and integers (all shapes 1..3 first), guard cells around arrays'),
    'C07': dict(dirs=M, asan=True, budget=12, rule='random, zero, triangular, cyclic, sparse, singular and diagonal integer matrices against FLINT Berkowitz'),
    'C08': dict(note='charpoly_frob and charpoly proved for every input meeting the stated precisions; Newton\'s identities and the root bound on power sums are assumed as theorems.', dirs=M, asan=True, budget=15, rule='products of Weil factors (quadratic, real roots, scaled x^e+-q^e); matrices with that characteristic polynomial modulo the stated powers; four styles of precision vectors; trivial: sign or parity excluded by the statement'),
    'C09': dict(dirs=['solve_system', 'conv', 'matrix', 'tools', 'vec_int64'], asan=True, budget=15, rule='random shapes, ranks, primes, precisions; five entry points per case; output containers dirty'),
    'C10': dict(note="matrix_J, matrix_ND, isSmooth and isND proved against the definition of the relation matrices; the full-rank criterion is FLINT's rank (trusted), and equality with smoothness is evaluated by the harness (bounded).", budget=25, rule='random smooth, singular, sparse and degenerate polynomials with random lifts; relation matrices entry by entry, both smoothness predicates against an independent full-rank oracle; trivial: none'),
    'C11': dict(note='Every Jacobian reduction routine proved equal to one polynomial in the exponents; that this polynomial is a relation in cohomology is evaluated by the harness (bounded).', budget=35, rule='random smooth f, direction, exponents, step counts including 0; matrix, vector, iterated, integer and modular forms; independent relation oracle'),
    'C12': dict(note='Every NTL form of the toric reduction proved equal modulo p^precision to one polynomial; the routine that builds it from the solved systems (compute_reduction_matrix_ND) enters by an assumed contract, and it and the FLINT forms are evaluated by the harness (bounded).', budget=35, rule='random non-degenerate f including sparse and Dwork ones, all FLINT and NTL paths, step counts including 0, small and large moduli'),
    'C13': dict(note='Initialisation of both models, monomial_to_basis_J, inclusion and final reduction proved; toric monomial coordinates and agreement of the two models are evaluated by the harness (bounded).', budget=35, rule='random f; basis elements, multiplication by f, exact forms, cross-model comparison for every pole order'),
    'C14': dict(note='Every cache of both models proved to return a function of the argument in any query order, given the contract of the toric reduction (proved under C12 but for the routine that builds it); whole query sequences are evaluated by the harness (bounded).', budget=35, rule='random query sequences against a freshly prepared object per query; lazy, eager, reordered, repeated; both models'),
    'C15': dict(budget=35, rule='random f and lifts, all primes including p <= dimension; column by every loop variant and both models, matrices with several threads and zero term counts'),
    'C16': dict(dirs=T, asan=True, budget=12, rule='every table entry at its smallest primes, the first 60 odd primes for every pair and random primes up to 2^49; unsupported pairs'),
    'C17': dict(budget=30, rule='random smooth plane curves of degree 3 to 5 and quartic surfaces; brute-force point counts over up to four extensions; four entry points and every option'),
    'C18': dict(budget=30, rule='both models, naive and other lifts, short and long names, existing content, missing directories; every query kind compared after reloading'),
    'C19': dict(dirs=T, asan=True, budget=12, rule='four coefficient rings, 1 to 400 terms, negative exponents, non-empty targets, repeated monomials'),
    'C20': dict(dirs=T, asan=True, budget=12, rule='products of p-scaled cyclotomics with multiplicity and of Weil quadratics and quartics without such roots'),
    'C21': dict(note='random_SL_matrix, find_change_of_variables and change_of_variables proved; isND enters as a named predicate, its meaning is proved under C10.', budget=15, rule='random special linear matrices up to size 25; searches on non-degenerate, smooth, arbitrary and singular polynomials'),
}
