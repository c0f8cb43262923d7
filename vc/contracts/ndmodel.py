"""The toric model: the reduction polynomial of a direction as a finite map from exponents to matrices (C12, C13, C14).

REDND(k, u)[a][b] is the reduction map of the direction with key k at the exponent u. A cached map of matrices represents it
when, at every point u, the sum over its keys w of u^w times the matrix stored there is REDND(k, u)."""
from .drlib import *
from .math import POW, POW_
from . import C01, C02, C03, C10
from ..builtins import MODULUS

DN, DNZ, DNP, DNPZ = ('reduction_matrix_ND_dict', 'reduction_matrix_ND_ZZ_dict', 'reduction_matrix_ND_poly_dict', 'reduction_matrix_ND_poly_ZZ_dict')
SN = 'solve_ND'
DOMK = z3.ArraySort(KEYS, BOOL)
REDND = z3.Function('reduction_map_ND', KEYS, ARR, INT, INT, INT)
KA = z3.Function('keyat_' + VT.key().replace('<', '_').replace('>', ''), KEYS, INT, INT)
KL = z3.Function('keylen_' + VT.key().replace('<', '_').replace('>', ''), KEYS, INT)
MKEY = z3.Function('map_key_Key_vec_i64', DOMK, INT, KEYS)
MSIZE = z3.Function('map_size_Key_vec_i64', DOMK, INT)
MPOS = z3.Function('map_pos_Key_vec_i64', DOMK, KEYS, INT)
# u_0^w_0 ... u_{j-1}^w_{j-1}
MON_ = RecDef('monomial_at', [ARR, KEYS], INT, lambda u, w: z3.IntVal(1), lambda u, w, j, r: r * POW(u[j], KA(w, j)))
MON = MON_.fn
# w_0 + ... + w_{j-1}
KSUM_ = RecDef('key_sum', [KEYS], INT, lambda w: z3.IntVal(0), lambda w, j, r: r + KA(w, j))
KSUM = KSUM_.fn
_es = {}


def mapsort(e, zz):
    return e.eng.sorts.sort(ty(f'map<Vec<int64_t>, Mat<{"ZZ" if zz else "ZZ_p"}>>'))


def ES_(e, zz):
    """sum over the first i keys of u^w * (entry (a, b) of the matrix of w)"""
    if zz not in _es:
        _es[zz] = RecDef('evaluation_of_' + ('integer_' if zz else '') + 'polynomial', [mapsort(e, zz), ARR, INT, INT, INT], INT, lambda m, u, N, a, b: z3.IntVal(0),
                         lambda m, u, N, a, b, i, r: r + MON(u, MKEY(dom(m), i), N) * dat(sel(mval(m), MKEY(dom(m), i)))[a][b])
    return _es[zz]


_maps = {}


def esorts(zz):
    """(the map sort, the recursive definition) without a function at hand"""
    if zz not in _maps:
        from ..engine import Sorts
        class E:
            class eng:
                sorts = Sorts()
        _maps[zz] = (mapsort(E, zz), ES_(E, zz))
    return _maps[zz]


def same_values():
    """maps with the same keys and the same entries evaluate alike"""
    (MZ, esz), (MP, esp) = esorts(True), esorts(False)

    def stmt(mz, mp, u, N, a, b, i):
        return z3.Implies(z3.And(dom(mz) == dom(mp), forall_range(0, i, lambda j: dat(sel(mval(mz), MKEY(dom(mz), j)))[a][b] == dat(sel(mval(mp), MKEY(dom(mp), j)))[a][b], pats=lambda j: MKEY(dom(mz), j))), esz.fn(mz, u, N, a, b, i) == esp.fn(mp, u, N, a, b, i))
    return Lemma('equal entries, equal values', [('mz', MZ), ('mp', MP), ('u', ARR), ('N', INT), ('a', INT), ('b', INT), ('i', INT)], stmt, induct=6,
                 facts=lambda mz, mp, u, N, a, b, i: [esz.base(mz, u, N, a, b), esp.base(mp, u, N, a, b), esz.at_pos(mz, u, N, a, b, i), esp.at_pos(mp, u, N, a, b, i)])


# ---- one more key in the order of traversal
def q_in(D, w):
    return MPOS(D, w)


def ordered_insert(e, D, w):
    """std::map is traversed in the order of the keys: a new key moves the later ones up"""
    i = fv('i')
    E = z3.Store(D, w, True)
    e.eng.map_key(E, i)
    e.eng.map_size(D)
    q = MPOS(E, w)
    return Fact(z3.Implies(z3.Not(sel(D, w)), z3.And(MSIZE(D) >= 0, MSIZE(E) == MSIZE(D) + 1, 0 <= q, q <= MSIZE(D), MKEY(E, q) == w,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < q), MKEY(E, i) == MKEY(D, i)), patterns=[MKEY(E, i)]), z3.ForAll([i], z3.Implies(z3.And(q < i, i <= MSIZE(D)), MKEY(E, i) == MKEY(D, i - 1)), patterns=[MKEY(E, i)]))), 'library: std::map is traversed in key order')


def grown(nm, M, es, entry, args):
    """(insertion, change): the sum over the keys after the value of one key w changes"""
    vs = [('m', M), ('r', M), ('w', KEYS)] + args + [('i', INT)]

    def ins(m, r, w, *ai):
        a, i = ai[:-1], ai[-1]
        D, E = dom(m), dom(r)
        q = MPOS(E, w)
        j, h = fv('j'), fv('j')
        return z3.Implies(z3.And(E == z3.Store(D, w, True), 0 <= q, q <= MSIZE(D), MSIZE(E) == MSIZE(D) + 1, MKEY(E, q) == w, i <= MSIZE(E),
                                 z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q), MKEY(E, j) == MKEY(D, j)), patterns=[MKEY(E, j)]), z3.ForAll([h], z3.Implies(z3.And(q < h, h <= MSIZE(D)), MKEY(E, h) == MKEY(D, h - 1)), patterns=[MKEY(E, h)]),
                                 forall_range(0, MSIZE(D), lambda t: entry(r, MKEY(D, t), *a) == entry(m, MKEY(D, t), *a), pats=lambda t: MKEY(D, t))),
                          es.fn(r, *a, i) == z3.If(i <= q, es.fn(m, *a, i), es.fn(m, *a, i - 1) + MON(a[0], w, a[1]) * entry(r, w, *a)))

    def upd(m, r, w, *ai):
        a, i = ai[:-1], ai[-1]
        D = dom(m)
        q = MPOS(D, w)
        return z3.Implies(z3.And(dom(r) == D, q >= 0, MKEY(D, q) == w, i <= MSIZE(D), forall_range(0, MSIZE(D), lambda t: z3.Implies(t != q, entry(r, MKEY(D, t), *a) == entry(m, MKEY(D, t), *a)), pats=lambda t: MKEY(D, t))),
                          es.fn(r, *a, i) == es.fn(m, *a, i) + z3.If(i <= q, 0, MON(a[0], w, a[1]) * (entry(r, w, *a) - entry(m, w, *a))))

    def facts(m, r, w, *ai):
        a, i = ai[:-1], ai[-1]
        return [es.base(m, *a), es.base(r, *a), es.at_pos(m, *a, i), es.at_pos(r, *a, i), es.at_pos(m, *a, i - 1), minus.inst(MON(a[0], w, a[1]), entry(r, w, *a), entry(m, w, *a))]
    n = len(vs) - 1
    return (Lemma(f'{nm}: a new key', vs, ins, induct=n, facts=facts, timeout=40), Lemma(f'{nm}: another value', vs, upd, induct=n, facts=facts, timeout=40))


minus = Lemma('difference of products', [('x', INT), ('y', INT), ('z', INT)], lambda x, y, z: x * (y - z) == x * y - x * z)
MATENTRY = lambda m, k, u, N, a, b: dat(sel(mval(m), k))[a][b]


def grown_matrices():
    M, es = esorts(False)
    return grown('values of polynomials', M, es, MATENTRY, [('u', ARR), ('N', INT), ('a', INT), ('b', INT)])


INTMAP = None


def intsort():
    global INTMAP
    if INTMAP is None:
        from ..engine import Sorts
        INTMAP = Sorts().sort(ty('map<Vec<int64_t>, int64_t>'))
    return INTMAP


# sum over the first i keys of u^w * (coefficient of w)
ESI_ = RecDef('evaluation_of_expansion', [intsort(), ARR, INT], INT, lambda m, u, N: z3.IntVal(0), lambda m, u, N, i, r: r + MON(u, MKEY(dom(m), i), N) * sel(mval(m), MKEY(dom(m), i)))
ESI = ESI_.fn
grown_ints = lambda: grown('values of expansions', intsort(), ESI_, lambda m, k, u, N: sel(mval(m), k), [('u', ARR), ('N', INT)])


def EV(e, zz, m, u, N, a, b):
    return ES_(e, zz).fn(m, u, N, a, b, MSIZE(dom(m)))


def exponent(w, N):
    """N non-negative exponents of sum at most N (top: all variables but x)"""
    q = fv('q')
    return z3.And(KL(w) == N, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(0 <= KA(w, q), KA(w, q) <= LIM)), patterns=[KA(w, q)]))


def well_formed(m, N, n):
    """square matrices at exponents of N variables and degree at most n + 1; in top degree only the first row counts"""
    w = z3.Const(f'w?{fv("w")}', KEYS)
    a, b = fv('a'), fv('b')
    M = sel(mval(m), w)
    return [('exponents', z3.ForAll([w], z3.Implies(sel(dom(m), w), z3.And(exponent(w, N), KSUM(w, N) <= n + 1, KSUM(w, N) >= 0)), patterns=[sel(dom(m), w)])),
            ('matrices', z3.ForAll([w], z3.Implies(sel(dom(m), w), z3.And(NR(M) == DIM, NC(M) == DIM)), patterns=[M])),
            ('top degree', z3.ForAll([w, a, b], z3.Implies(z3.And(sel(dom(m), w), KSUM(w, N) == n + 1, 1 <= a, a < DIM), dat(M)[a][b] == 0), patterns=[dat(M)[a][b]]))]


def inab(a, b):
    return z3.And(0 <= a, a < DIM, 0 <= b, b < DIM)


def represents(e, zz, m, k):
    u = z3.Const(f'u?{fv("u")}', ARR)
    a, b = fv('a'), fv('b')
    x = EV(e, zz, m, u, e.f('n') + 1, a, b)
    return well_formed(m, e.f('n') + 1, e.f('n')) + [('value at every point', z3.ForAll([u, a, b], z3.Implies(inab(a, b), x % MODULUS == REDND(k, u, a, b) % MODULUS), patterns=[x]))]


def cacheND(e, field, zz, what=represents):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    m = e.f(field)
    x = sel(mval(m), k)
    return [(f'{field}: {l}', z3.ForAll([k], z3.Implies(sel(dom(m), k), f), patterns=[x])) for l, f in what(e, zz, x, k)]


NZU = z3.Function('point_where_the_reduction_is_not_zero', KEYS, ARR)
NZA = z3.Function('row_where_the_reduction_is_not_zero', KEYS, INT)
NZB = z3.Function('column_where_the_reduction_is_not_zero', KEYS, INT)


def nonzero(k):
    return z3.And(inab(NZA(k), NZB(k)), REDND(k, NZU(k), NZA(k), NZB(k)) % MODULUS != 0)


def it_of(field):
    def f(v):
        k = key(v, v['v'])
        return Iter(LV(('this', field), (), ty(FIELDS_ND[field])), k, z3.BoolVal(False))
    return f


def has(e, field, k):
    return sel(dom(e.f(field)), k)
