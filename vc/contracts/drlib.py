"""The object behind both reduction models, shared by C11-C15: fields, class invariant of the caches, sums of matrices.

ZZ_p values stand for any integer lifting them (only ring operations occur; an identity over Z holds modulo every m);
conv<ZZ>(x) is treated as that integer."""
from ..engine import *
from ..spec import *
from .math import *
from ..builtins import MODULUS

VI = 'Vec<int64_t>'
VT = ty(VI)
KEYS = z3.DeclareSort('Key_vec_i64')
FIELDS = {'p': 'int64_t', 'precision': 'int64_t', 'save_memory': 'bool', 'verbose': 'bool', 'd': 'int64_t', 'n': 'int64_t',
          'fbar': 'map<Vec<int64_t>, zz_p>', 'f': 'map<Vec<int64_t>, ZZ_p>',
          'tuple_list': 'Vec<Vec<Vec<int64_t>>>', 'tuple_dict': 'Vec<map<Vec<int64_t>, int64_t>>', 'Hilbert_J': 'Vec<int64_t>', 'coKernels_J_basis': 'Vec<Vec<int64_t>>',
          'coKernels_J_basis_dict': 'map<Vec<int64_t>, int64_t>', 'solve_J': 'map<int64_t, pair<Vec<int64_t>, Mat<ZZ_p>>>', 'inclusion_matrix_J_dict': 'map<Vec<int64_t>, Mat<ZZ_p>>',
          'final_reduction_matrix_J_dict': 'Vec<Mat<ZZ_p>>', 'reduction_matrix_J_dict': 'map<Vec<int64_t>, Vec<Mat<ZZ_p>>>', 'reduction_matrix_J_ZZ_dict': 'map<Vec<int64_t>, Vec<Mat<ZZ>>>'}
FIELDS_ND = dict(FIELDS, Hilbert_ND='Vec<int64_t>', coKernels_ND_basis='Vec<Vec<int64_t>>', coKernels_ND_basis_dict='map<Vec<int64_t>, int64_t>', solve_ND='map<int64_t, pair<Vec<int64_t>, Mat<ZZ_p>>>',
                 inclusion_matrix_ND_dict='map<Vec<int64_t>, Vec<Mat<ZZ_p>>>', coKernels_ND_to_basis_dict='map<Vec<int64_t>, Mat<ZZ_p>>',
                 reduction_matrix_ND_dict='map<Vec<int64_t>, map<Vec<int64_t>, Mat<ZZ_p>>>', reduction_matrix_ND_ZZ_dict='map<Vec<int64_t>, map<Vec<int64_t>, Mat<ZZ>>>',
                 reduction_matrix_ND_poly_dict='map<Vec<int64_t>, map<Vec<int64_t>, Mat<ZZ_p>>>', reduction_matrix_ND_poly_ZZ_dict='map<Vec<int64_t>, map<Vec<int64_t>, Mat<ZZ>>>')
NR, NC = (lambda m: acc('nr', m)), (lambda m: acc('nc', m))
dat = lambda m: acc('dat', m)
dom = lambda m: acc('dom', m)
mval = lambda m: acc('val', m)

# the reduction map from V_{u+v} to V_u is RM(v, 0) + sum_i u_i RM(v, i+1): square matrices of size DIM
RM = z3.Function('reduction_coefficient', KEYS, INT, ARR2)
DIM = z3.Int('dim_V')
# sum_{i<j} u[i] * RM(key, i+1)[a][b]
RSUM_ = RecDef('reduction_sum', [KEYS, ARR, INT, INT], INT, lambda k, u, a, b: z3.IntVal(0), lambda k, u, a, b, i, s: s + u[i] * RM(k, i + 1)[a][b])
RSUM = RSUM_.fn
# sum_{i<j} u[i] * <row a of RM(key, i+1), g>
VSUM_ = RecDef('reduction_vector_sum', [KEYS, ARR, INT, ARR], INT, lambda k, u, a, g: z3.IntVal(0), lambda k, u, a, g, i, s: s + u[i] * DOT(RM(k, i + 1)[a], g, DIM))
VSUM = VSUM_.fn


def key(e, v):
    return e.eng.key_of(e.st, v, VT)


def polynomial_ok(val, k, n):
    """the stored value is the whole polynomial of direction k"""
    j = fv('j')
    m = sel(vdat(val), j)
    return z3.And(vlen(val) == n + 2, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n + 2), z3.And(NR(m) == DIM, NC(m) == DIM, dat(m) == RM(k, j))), patterns=[m]))


def cache_ok(m, n):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    return z3.ForAll([k], z3.Implies(sel(dom(m), k), polynomial_ok(sel(mval(m), k), k, n)), patterns=[sel(mval(m), k)])


def inv_J(e):
    return [('cached reduction polynomials are right', cache_ok(e.f('reduction_matrix_J_dict'), e.f('n'))),
            ('cached integer polynomials are right', cache_ok(e.f('reduction_matrix_J_ZZ_dict'), e.f('n')))]


# ---------------------------------------------------------------- monomial tables
VSORT = None
LIM = 1 << 24


def vsort(e):
    return e.eng.sorts.sort(VT)


def keyax(e):
    """(key of a vector, its length, its entries, a place where two keys differ)"""
    e.eng.key_of(e.st, z3.Const('kx!0', vsort(e)), VT)
    return e.eng.keyfn[VT.key()]


def same_key(e, a, b):
    """keys of equal length and equal entries are equal (instance of the extensionality axiom)"""
    kf, kl, ka, wit = keyax(e)
    return Fact(z3.Or(a == b, kl(a) != kl(b), z3.And(0 <= wit(a, b), wit(a, b) < kl(a), ka(a, wit(a, b)) != ka(b, wit(a, b)))), 'keys are equal iff the vectors are')


def key_entry(e, x, q):
    kf, kl, ka, wit = keyax(e)
    return Fact(z3.Implies(z3.And(0 <= q, q < vlen(x)), ka(kf(x), q) == sel(vdat(x), q)), 'keys hold the entries')


def is_tuple(x, l, m):
    """m non-negative entries adding up to l"""
    return z3.And(vlen(x) == m, nonneg_(vdat(x), m), SUM(vdat(x), m) == l)


def nonneg_(a, n):
    return forall_range(0, n, lambda k: a[k] >= 0, pats=lambda k: a[k])


def TL(e, l, i=None):
    x = sel(vdat(e.f('tuple_list')), l)
    return x if i is None else sel(vdat(x), i)


def TLN(e, l):
    return vlen(TL(e, l))


def TD(e, l):
    return sel(vdat(e.f('tuple_dict')), l)


def tables(e):
    """tuple_list[l] lists the (n+1)-tuples of sum l, tuple_dict[l] is the inverse map"""
    m = e.f('n') + 1
    top = m * e.f('d') + 1
    kf = keyax(e)[0]
    l, i = fv('l'), fv('i')
    x = z3.Const(f'x?{fv("x")}', vsort(e))
    k = z3.Const(f'k?{fv("k")}', KEYS)
    inl = z3.And(0 <= l, l < top)
    t = TL(e, l, i)
    D = TD(e, l)
    return [('degrees', z3.And(vlen(e.f('tuple_list')) == top, vlen(e.f('tuple_dict')) == top)),
            ('list sizes', z3.ForAll([l], z3.Implies(inl, z3.And(0 <= TLN(e, l), TLN(e, l) <= LIM)), patterns=[TL(e, l)])),
            ('dictionary sizes', z3.ForAll([l], z3.Implies(inl, e.eng.map_size(dom(D)) == TLN(e, l)), patterns=[D])),
            ('lists hold tuples', z3.ForAll([l, i], z3.Implies(z3.And(inl, 0 <= i, i < TLN(e, l)), is_tuple(t, l, m)), patterns=[t])),
            ('positions', z3.ForAll([l, i], z3.Implies(z3.And(inl, 0 <= i, i < TLN(e, l)), z3.And(sel(dom(D), kf(t)), sel(mval(D), kf(t)) == i)), patterns=[t])),
            ('every tuple is listed', z3.ForAll([l, x], z3.Implies(z3.And(inl, is_tuple(x, l, m)), sel(dom(D), kf(x))), patterns=[sel(dom(D), kf(x))])),
            ('positions are right', z3.ForAll([l, k], z3.Implies(z3.And(inl, sel(dom(D), k)), z3.And(0 <= sel(mval(D), k), sel(mval(D), k) < TLN(e, l), kf(TL(e, l, sel(mval(D), k))) == k)), patterns=[sel(mval(D), k)]))]


def shape_J(e):
    return [('n and d', z3.And(e.f('n') >= 0, e.f('n') < e.f('d'), (e.f('n') + 1) * e.f('d') <= LIM))]


def homogeneous(e, fld='f'):
    """every stored monomial of f is an (n+1)-tuple of sum d"""
    eng = e.eng
    m = e.f(fld)
    k = z3.Const(f'k?{fv("k")}', KEYS)
    v = eng.key_value(e.st, k, VT)
    return [('f is homogeneous of degree d', z3.ForAll([k], z3.Implies(sel(dom(m), k), is_tuple(v, e.f('d'), e.f('n') + 1)), patterns=[v]))]
