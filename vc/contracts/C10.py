"""Relation matrices: column (i, j) of degree l holds the coefficients of (j-th monomial of degree l-(d-1)) * (i-th partial of f)."""
from .drlib import *
from . import C02, C03
from .C01 import entry_le, sum_mono

# the monomial of f that puts t into the column of s times the i-th (toric) partial, as a vector: t - s + e_i (toric: t - s)
def WV(e, t, s, i, toric=False):
    f = z3.Function('monomial_of_f_toric' if toric else 'monomial_of_f', vsort(e), vsort(e), INT, vsort(e))
    return f(t, s, i)


def wv_ax(e, toric=False):
    t, s = z3.Consts('wv!t wv!s', vsort(e))
    i, q = z3.Ints('wv!i wv!q')
    w = WV(e, t, s, i, toric)
    one = z3.IntVal(0) if toric else z3.If(q == i, z3.IntVal(1), z3.IntVal(0))
    return [Fact(z3.ForAll([t, s, i], vlen(w) == vlen(t), patterns=[w]), 'definition of monomial_of_f'),
            Fact(z3.ForAll([t, s, i, q], z3.Implies(z3.And(0 <= q, q < vlen(t)), sel(vdat(w), q) == sel(vdat(t), q) - sel(vdat(s), q) + one), patterns=[sel(vdat(w), q)]), 'definition of monomial_of_f')]


# column of (i, j): i * len + j
COL = z3.Function('column_of', INT, INT, INT, INT)


def col_def(i, j, n):
    return Fact(COL(i, j, n) == i * n + j, 'definition of column_of')


def col_ax():
    i, j, n = z3.Ints('co!i co!j co!n')
    return Fact(z3.ForAll([i, j, n], COL(i, j, n) == i * n + j, patterns=[COL(i, j, n)]), 'definition of column_of')


rowpair = Lemma('column numbers determine (i, j)', I('i', 'j', 'a', 'b', 'n'), lambda i, j, a, b, n: z3.Implies(z3.And(0 <= j, j < n, 0 <= b, b < n, i * n + j == a * n + b), z3.And(i == a, j == b)),
                facts=lambda i, j, a, b, n: [rp1.inst(i - a, n, b - j), z3fact((i - a) * n == i * n - a * n)])
rp1 = Lemma('multiples of n within n of each other', I('x', 'n', 'r'), lambda x, n, r: z3.Implies(z3.And(-n < r, r < n, x * n == r), z3.And(x == 0, r == 0)), facts=lambda x, n, r: [rp2.inst(x, n), rp2.inst(-x, n)])
rp2 = Lemma('a positive multiple of n is at least n', I('x', 'n'), lambda x, n: z3.Implies(z3.And(x >= 1, n >= 0), x * n >= n), facts=lambda x, n: [rp3.inst(x - 1, n)])
rp3 = Lemma('products of non-negative numbers', I('x', 'n'), lambda x, n: z3.Implies(z3.And(x >= 0, n >= 0), x * n >= 0))
colfit = Lemma('column numbers fit', I('i', 'j', 'n', 'm'), lambda i, j, n, m: z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < n), z3.And(0 <= i * n, i * n + j < m * n)), facts=lambda i, j, n, m: [rp3.inst(i, n), rp3.inst(m - 1 - i, n)])


def z3fact(f):
    return f


def col_inj(e, i, j, n):
    a, b = fv('a'), fv('b')
    return z3.ForAll([a, b], rowpair.inst(i, j, a, b, n), patterns=[COL(a, b, n)])


def entry(e, t, s, i, upto=None, toric=False):
    """coefficient of the monomial t in s * d_i f, or in s * x_i d_i f (terms of f up to a place in its order, or all)"""
    w = WV(e, t, s, i, toric)
    k = keyax(e)[0](w)
    m = e.f('f')
    there = sel(dom(m), k)
    if not toric:
        there = z3.And(there, sel(vdat(w), i) > 0)
    if upto is not None:
        there = z3.And(there, e.eng.map_pos(dom(m), k) < upto)
    return z3.If(there, sel(vdat(w), i) * sel(mval(m), k), z3.IntVal(0))


def relation_cells(e, M, l, done, upto=None, toric=False):
    """cells of M: the right entry where done(i, j) holds, partial where upto(i, j, pos) is given, else 0"""
    a, i, j = fv('a'), fv('i'), fv('j')
    n, d = e.f('n'), e.f('d')
    ls = l - (d if toric else d - 1)
    x = sel(sel(dat(M), a), COL(i, j, TLN(e, ls)))
    t, s = TL(e, l, a), TL(e, ls, j)
    val = z3.If(done(i, j), entry(e, t, s, i, None, toric), z3.IntVal(0))
    if upto is not None:
        ci, cj, q = upto
        val = z3.If(z3.And(i == ci, j == cj), entry(e, t, s, i, q, toric), val)
    return z3.ForAll([a, i, j], z3.Implies(z3.And(0 <= a, a < TLN(e, l), 0 <= i, i <= n, 0 <= j, j < TLN(e, ls)), x == val), patterns=[x])


def relation_matrix(e, R, l, toric=False):
    """R is the relation matrix of degree l"""
    d, n = e.f('d'), e.f('n')
    ls = l - (d if toric else d - 1)
    low = ls < 0
    return [('few monomials', z3.Implies(low, z3.And(NR(R) == TLN(e, l), NC(R) == 0))), ('size', z3.Implies(z3.Not(low), z3.And(NR(R) == TLN(e, l), NC(R) == (n + 1) * TLN(e, ls)))),
            ('column (i, j) is monomial j times the i-th partial', z3.Implies(z3.Not(low), relation_cells(e, R, l, lambda i, j: z3.BoolVal(True), None, toric)))]


def relation(src, name, toric, fields, use_only=False):
    l = lambda e: e.old('l')
    d, n = (lambda e: e.f('d')), (lambda e: e.f('n'))
    ls = lambda e: l(e) - (d(e) if toric else d(e) - 1)
    R = lambda e: e['result']
    size = lambda e: ('size', z3.And(NR(R(e)) == TLN(e, l(e)), NC(R(e)) == (n(e) + 1) * TLN(e, ls(e))))
    cells = lambda e, done, upto=None: ('cells', relation_cells(e, R(e), l(e), done, upto, toric))

    def step(e):
        """one term of f: row r of column (i, j) gets its coefficient, nothing else changes"""
        it = e.head_val('itf')
        kf, kl, ka, wit = keyax(e)
        k, q = it.key, it.pos
        i, j = e['i'], e['j']
        v = e.eng.key_value(e.st, k, VT)
        a, b = fv('a'), fv('b')
        s = TL(e, ls(e), j)
        W = lambda a: WV(e, TL(e, l(e), a), s, i, toric)
        wk = kf(W(a))
        inr = z3.And(0 <= a, a < TLN(e, l(e)))
        kw = e.eng.lookups[-1]
        D = TD(e, l(e))
        kt = kf(TL(e, l(e), a))
        pos = z3.BoolVal(True) if toric else sel(vdat(v), i) > 0
        return wv_ax(e, toric) + [col_inj(e, i, j, TLN(e, ls(e))), col_def(i, j, TLN(e, ls(e))), z3.ForAll([a], same_key(e, wk, k), patterns=[wk]), z3.ForAll([a], same_key(e, kt, kw), patterns=[kt]),
                      z3.ForAll([a, b], z3.And(key_entry(e, W(a), b), key_entry(e, TL(e, l(e), a), b)), patterns=[ka(wk, b), ka(kt, b)]),
                      z3.ForAll([a], key_entry(e, W(a), i), patterns=[wk]), key_entry(e, v, i),
                      Cut('the row of this term', z3.ForAll([a], z3.Implies(z3.And(inr, pos), (wk == k) == (a == sel(mval(D), kw))), patterns=[wk])),
                      Cut('the coefficient', z3.ForAll([a], z3.Implies(z3.And(inr, wk == k), sel(vdat(W(a)), i) == sel(vdat(v), i)), patterns=[wk]))]
    L2 = Loop(lambda e: [size(e), cells(e, lambda i, j: z3.Or(i < e['i'], z3.And(i == e['i'], j < e['j'])), (e['i'], e['j'], e['itf'].pos))], lambda e: e.eng.map_size(dom(e.f('f'))) - e['itf'].pos, hints=step,
              pre_hints=lambda e: [colfit.inst(e['i'], e['j'], TLN(e, ls(e)), n(e) + 1), col_ax(), entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])])
    L1 = Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= TLN(e, ls(e)))), size(e), cells(e, lambda i, j: z3.Or(i < e['i'], z3.And(i == e['i'], j < e['j'])))], lambda e: TLN(e, ls(e)) - e['j'])
    L0 = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), size(e), cells(e, lambda i, j: i < e['i'])], lambda e: n(e) + 1 - e['i'])
    return Contract(src, name, None, lambda e: [('degree', z3.And(0 <= l(e), l(e) <= (n(e) + 1) * d(e)))] + shape_J(e) + tables(e) + homogeneous(e), lambda e: relation_matrix(e, R(e), l(e), toric), {0: L0, 1: L1, 2: L2}, modifies=['result'], fields=fields, flags={'present': ['tuple_dict']}, overflow=True, label=f'{src}:{name}', use_only=use_only)


def matrix_J(use_only=False):
    return relation('dr/matrix_J.cc', 'matrix_J', False, FIELDS, use_only)


def matrix_ND(use_only=False):
    return relation('dr_nd/dr_nd.cc', 'matrix_ND', True, FIELDS_ND, use_only)


def base():
    return [matrix_J(), matrix_ND()] + [c for c in C02.contracts() if c.label == 'vec_int64.h:operator+'] + [c for c in C02.contracts() if c.label == 'vec_int64.h:add'] + [c for c in C03.contracts() if c.name == 'diff']


def contracts():
    from . import smooth
    return base() + smooth.contracts()


def base_lemmas():
    return [sum_mono, entry_le, C02.sum_linear, C03.sum_one_less, rp3, rp2, rp1, rowpair, colfit]


def lemmas():
    from . import smooth
    return base_lemmas() + smooth.lemmas()


def theorems():
    return ['the elimination of FLINT (nmod_mat_lu) returns the rank of the matrix (p prime)']
