"""Cached tables of the toric model: solved relation matrices, inclusions of the graded pieces, the map onto the cohomology basis."""
from .drlib import *
from .C01 import entry_le, sum_mono
from . import C02, C03, C10, C11, C14
from .jmodel import *
from .jinit import BAS
from .ndmodel import SN
from .C13 import dot_unit

SRC = 'dr_nd/dr_nd.cc'
IND, CB, NBAS = 'inclusion_matrix_ND_dict', 'coKernels_ND_to_basis_dict', 'coKernels_ND_basis'


def SOLVED_ND(e, l):
    """solution of the toric relation matrix of degree l modulo p^precision"""
    return z3.Function('toric_solution_of_level', INT, pairsort(e))(l)


def BN(e, l, j=None):
    x = acc('first', SOLVED_ND(e, l))
    return x if j is None else sel(vdat(x), j)


def inv_solve_nd(e):
    l = fv('l')
    m = e.f(SN)
    x = sel(mval(m), l)
    return [('cached toric solutions are right', z3.ForAll([l], z3.Implies(sel(dom(m), l), x == SOLVED_ND(e, l)), patterns=[x]))]


def solved_sizes_nd(e):
    """what the solver returns (C09): shapes, and the complement is a list of rows"""
    l, i = fv('l'), fv('i')
    n, d = e.f('n'), e.f('d')
    s = SOLVED_ND(e, l)
    B, U = acc('first', s), acc('second', s)
    x = sel(vdat(B), i)
    ok = z3.And(0 <= l, l <= (n + 1) * d)
    return [('toric solutions: sizes', z3.ForAll([l], z3.Implies(ok, z3.And(vlen(B) >= 0, vlen(B) <= TLN(e, l), NC(U) == TLN(e, l), NR(U) == z3.If(l >= d, (n + 1) * TLN(e, l - d), 0) + vlen(B))), patterns=[s])),
            ('toric solutions: rows of the complement', z3.ForAll([l, i], z3.Implies(z3.And(ok, 0 <= i, i < vlen(B)), z3.And(0 <= x, x < TLN(e, l))), patterns=[x]))]


def solve_padic():
    """the solution is a function of the matrix and the precision"""
    def ens(e):
        l = fv('l')
        out = []
        for S, toric, nm in ((SOLVED, False, ''), (SOLVED_ND, True, 'toric ')):
            s = S(e, l)
            c = [f for _, f in C10.relation_matrix(e, e['T'], l, toric)]
            out.append((f'a function of the {nm}matrix and the precision', z3.ForAll([l], z3.Implies(z3.And(e['precision'] == e.f('precision'), *c), z3.And(e['B'] == acc('first', s), e['U'] == acc('second', s))), patterns=[s])))
        return out
    return Contract('solve_system/solve_system.cc', 'solve_system_padic', ['vec<i64>', 'mat<ZZ_p>', 'mat<ZZ_p>', 'i64', 'bool'], lambda e: [], ens, modifies=['B', 'U'], fields=FIELDS, label='solve_system/solve_system.cc:solve_system_padic', use_only=True)


def points_at(e, field, path, off=None):
    p = e.result
    if not (isinstance(p, Ptr) and isinstance(e, Env)):
        return []
    okp = p.lv.root == ('this', field) and len(p.lv.path) == len(path) and p.lv.path[0][0] == 'key' and (p.off is None) == (off is None)
    return [('points at it', z3.And(z3.BoolVal(okp), *([p.lv.path[i][1] == path[i] for i in range(len(path))] + ([] if off is None else [p.off == off]) if okp else [])))]


def get_solve_ND(use_only=False):
    level = lambda e: e.old('level')

    def ret(v):
        return Ptr(LV(('this', SN), (('key', v['level']),), ty('pair<Vec<int64_t>, Mat<ZZ_p>>')), None, ty('pair<Vec<int64_t>, Mat<ZZ_p>>*'))

    def ens(e):
        return inv_solve_nd(e) + [('the entry of this level', z3.And(sel(dom(e.f(SN)), level(e)), sel(mval(e.f(SN)), level(e)) == SOLVED_ND(e, level(e)))), kept_int(e, SN)] + points_at(e, SN, [level(e)])
    return Contract(SRC, 'get_solve_ND', None, lambda e: [('degree', z3.And(0 <= level(e), level(e) <= (e.f('n') + 1) * e.f('d')))] + object_J(e) + inv_solve_nd(e), ens, modifies=['this.' + SN], returns=ret, fields=FIELDS_ND, handlers=QUIET, flags={'present': ['tuple_dict']}, overflow=True, label=f'{SRC}:get_solve_ND', use_only=use_only)


# ---------------------------------------------------------------- inclusion of the graded pieces of the toric model
def lev_h(e, l):
    n, d = e.f('n'), e.f('d')
    return (l + 1) * d - (n + 1)


LH = z3.Function('degree_of_numerators', INT, INT)
LG = z3.Function('degree_of_toric_piece', INT, INT)


def lev_def(e, l):
    return Fact(z3.And(LH(l) == lev_h(e, l), LG(l) == l * e.f('d')), 'definition of degree_of_numerators')


def lev_ax(e):
    l = fv('l')
    return Fact(z3.ForAll([l], z3.And(LH(l) == lev_h(e, l), LG(l) == l * e.f('d')), patterns=[LH(l)]), 'definition of degree_of_numerators')


lev_fits = Lemma('degrees of the toric pieces', I('l', 'n', 'd'), lambda l, n, d: z3.Implies(z3.And(n >= 1, d > n, 0 <= l, l < n), z3.And(0 <= l * d, l * d <= (n + 1) * d, 0 <= (l + 1) * d - (n + 1), (l + 1) * d - (n + 1) <= (n + 1) * d, (l + 1) * d == l * d + d, (l + 1) * d <= (n + 1) * d)),
                 facts=lambda l, n, d: [C10.rp3.inst(l, d), C10.rp3.inst(n - l, d)])


def incl_cell(e, k, l, a, b):
    """1 where row a is the monomial x^u / (x_0...x_n) * (b-th element of the piece)"""
    return keyax(e)[0](TL(e, LH(l), a)) == KI(e, k, TL(e, LG(l), BN(e, LG(l), b)))


def incl_ok(e, k, x, hi, upto=None):
    """matrices below hi are complete; matrix hi has its size and columns below upto"""
    l, a, b = fv('l'), fv('a'), fv('b')
    M = sel(vdat(x), l)
    c = sel(sel(dat(M), a), b)
    ok = z3.And(0 <= l, l < hi)
    hit = incl_cell(e, k, l, a, b)
    if upto is not None:
        ok = z3.And(0 <= l, l <= hi)
        hit = z3.And(z3.Or(l < hi, b < upto), hit)
    return [('number of pieces', vlen(x) == e.f('n')), ('sizes', z3.ForAll([l], z3.Implies(ok, z3.And(NR(M) == TLN(e, LH(l)), NC(M) == vlen(BN(e, LG(l))))), patterns=[M])),
            ('cells', z3.ForAll([l, a, b], z3.Implies(z3.And(ok, 0 <= a, a < NR(M), 0 <= b, b < NC(M)), c == z3.If(hit, z3.IntVal(1), z3.IntVal(0))), patterns=[c]))]


def untouched(e, x, lo):
    l = fv('l')
    M = sel(vdat(x), l)
    return [('the rest untouched', z3.ForAll([l], z3.Implies(z3.And(lo <= l, l < e.f('n')), z3.And(NR(M) == 0, NC(M) == 0)), patterns=[M]))]


def inv_incl_nd(e):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    m = e.f(IND)
    x = sel(mval(m), k)
    return [(f'cached inclusions: {l}', z3.ForAll([k], z3.Implies(sel(dom(m), k), f), patterns=[x])) for l, f in incl_ok(e, k, x, e.f('n'))]


def point(e, v='u'):
    m = e.f('n') + 1
    return [('u is an (n+1)-tuple of sum d', is_tuple(e[v], e.f('d'), m)), ('positive', forall_range(0, m, lambda q: sel(vdat(e[v]), q) > 0, pats=lambda q: sel(vdat(e[v]), q))), ('at least two variables', e.f('n') >= 1)]


def only_entry(e, field, k, label='only the entry of u'):
    q = z3.Const(f'k?{fv("k")}', KEYS)
    m, o = e.f(field), e.oldf(field)
    return [(label, z3.And(dom(m) == z3.Store(dom(o), k, z3.BoolVal(True)), z3.ForAll([q], z3.Implies(q != k, sel(mval(m), q) == sel(mval(o), q)), patterns=[sel(mval(m), q)])))]


obj_nd = lambda e: object_J(e) + solved_sizes_nd(e) + [('definition of the degrees', lev_ax(e))]


def compute_inclusion_ND(use_only=False):
    n, d = (lambda e: e.f('n')), (lambda e: e.f('d'))
    U = lambda e: e.old('u')
    k = lambda e: key(e, U(e))
    M = lambda e: sel(mval(e.f(IND)), k(e))
    c = lambda e: e['coordinate_of_monomial']
    um = lambda e: [('u - 1', z3.And(vlen(e['u_minus_ones']) == n(e) + 1, forall_range(0, n(e) + 1, lambda q: sel(vdat(e['u_minus_ones']), q) == sel(vdat(U(e)), q) - 1, pats=lambda q: sel(vdat(e['u_minus_ones']), q))))]
    others = lambda e: only_entry(e, IND, k(e)) + inv_solve_nd(e) + [kept_int(e, SN)]
    level = lambda e: [lev_fits.inst(e['l'], n(e), d(e)), lev_def(e, e['l'])]

    def step(e):
        kf, kl, ka, wit = keyax(e)
        l = e['l']
        h, g = LH(l), LG(l)
        t = TL(e, g, BN(e, g, e.head_val('coordinate_of_monomial')))
        x = KI(e, k(e), t)
        a, q = fv('a'), fv('q')
        kt = kf(TL(e, h, a))
        out = ki_ax(e) + [z3.ForAll([a], same_key(e, kt, x), patterns=[kt]), z3.ForAll([a, q], key_entry(e, TL(e, h, a), q), patterns=[z3.MultiPattern(ka(x, q), kt)]), z3.ForAll([q], key_entry(e, U(e), q), patterns=[ka(x, q)])]
        if e.eng.lookups:
            kw = e.eng.lookups[-1]
            out += [same_key(e, kw, x)]
            out += [Cut('the product', kw == x)]
        return out

    def before(e):
        """the product is listed in its degree"""
        m = n(e) + 1
        l = e['l']
        t = TL(e, LG(l), BN(e, LG(l), c(e)))
        return [product_ok.inst(vdat(t), vdat(e['u_minus_ones']), vdat(U(e)), m)]
    return Contract(SRC, 'compute_inclusion_matrix_ND', None, lambda e: point(e) + [('not there yet', z3.Not(sel(dom(e.f(IND)), key(e, e['u']))))] + obj_nd(e) + inv_solve_nd(e) + inv_incl_nd(e),
                    lambda e: inv_incl_nd(e) + inv_solve_nd(e) + [kept_int(e, SN), ('the entry of u is there', sel(dom(e.f(IND)), k(e))), ('nothing forgotten', C11.other_kept(e, IND))],
                    {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('u - 1', z3.And(vlen(e['u_minus_ones']) == n(e) + 1, forall_range(0, e['i'], lambda q: sel(vdat(e['u_minus_ones']), q) == sel(vdat(U(e)), q) - 1, pats=lambda q: sel(vdat(e['u_minus_ones']), q))))], lambda e: n(e) + 1 - e['i'],
                             pre_hints=lambda e: [entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])]),
                     1: Loop(lambda e: [('counter', z3.And(0 <= e['l'], e['l'] <= n(e)))] + um(e) + others(e) + incl_ok(e, k(e), M(e), e['l']) + untouched(e, M(e), e['l']), lambda e: n(e) - e['l'], head=level),
                     2: Loop(lambda e: [('counter', z3.And(0 <= c(e), c(e) <= vlen(BN(e, LG(e['l'])))))] + um(e) + others(e) + incl_ok(e, k(e), M(e), e['l'], c(e)) + untouched(e, M(e), e['l'] + 1), lambda e: vlen(BN(e, LG(e['l']))) - c(e), head=before, hints=step)},
                    modifies=['this.' + IND, 'this.' + SN], fields=FIELDS_ND, flags={'present': ['tuple_dict']}, overflow=True, label=f'{SRC}:compute_inclusion_matrix_ND', use_only=use_only)


product_ok = Lemma('sum of t + (u - 1)', [(x, ARR) for x in ('t', 'w', 'u')] + I('m'), lambda t, w, u, m: z3.Implies(forall_range(0, m, lambda q: w[q] == u[q] - 1, pats=lambda q: w[q]), SUM(w, m) == SUM(u, m) - m), induct=3,
                   facts=lambda t, w, u, m: [f for x in (w, u) for f in (SUM.base(x), SUM.at_pos(x, m))])


def get_inclusion_ND(use_only=False):
    k = lambda e: key(e, e.old('u'))

    def ret(v):
        return Ptr(LV(('this', IND), (('key', key(v, v['u'])),), ty('Vec<Mat<ZZ_p>>')), v['l'], ty('Mat<ZZ_p>*'))

    def ens(e):
        return inv_incl_nd(e) + inv_solve_nd(e) + [kept_int(e, SN), ('the entry of u', sel(dom(e.f(IND)), k(e))), ('nothing forgotten', C11.other_kept(e, IND))] + points_at(e, IND, [k(e)], e.old('l'))
    return Contract(SRC, 'get_inclusion_matrix_ND', None, lambda e: point(e) + [('piece', z3.And(0 <= e['l'], e['l'] < e.f('n')))] + obj_nd(e) + inv_solve_nd(e) + inv_incl_nd(e), ens,
                    {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('partial sum', e['sum'] == SUM(vdat(e['u']), e['i']))], lambda e: e.f('n') + 1 - e['i'], hints=lambda e: [SUM.at_pos(vdat(e['u']), e['i'])], pre_hints=lambda e: [SUM.base(vdat(e['u']))] + C11.running(vdat(e['u']), e.f('n') + 1))},
                    modifies=['this.' + IND, 'this.' + SN], returns=ret, fields=FIELDS_ND, overflow=True, flags={'present': ['tuple_dict']}, label=f'{SRC}:get_inclusion_matrix_ND', use_only=use_only)


# ---------------------------------------------------------------- toric pieces -> cohomology basis
# place of the j-th element of piece l in the toric basis
PN = z3.Function('place_in_toric_basis', INT, INT, INT)
HNA = z3.Function('toric_lower_numerator', KEYS, INT, ARR)     # x^u (l-th element of piece n) Omega/(x0..xn f^(n+1)) ~ H Omega/f^n
CBV = z3.Function('toric_basis_in_cohomology', KEYS, INT, INT, INT, INT)   # of u: row a of the column of (l, j)
COLOF = z3.Function('column_of_matrix', ARR2, INT, ARR)
_on = {}


def OFFN(e):
    """number of elements of the pieces below l"""
    so = vsort(e)
    if so not in _on:
        f = z3.Function('toric_solution_of_level', INT, pairsort(e))
        _on[so] = RecDef('toric_basis_offset', [], INT, lambda: z3.IntVal(0), lambda l, r: r + vlen(acc('first', f(LG(l)))))
    return _on[so]


def pn_def(e, l, j):
    return Fact(PN(l, j) == OFFN(e)(l) + j, 'definition of place_in_toric_basis')


def pn_ax(e):
    l, j = fv('l'), fv('j')
    return Fact(z3.ForAll([l, j], PN(l, j) == OFFN(e)(l) + j, patterns=[PN(l, j)]), 'definition of place_in_toric_basis')


def basis_nd(e):
    """the toric basis: pieces one after the other"""
    bas = e.f(NBAS)
    l = fv('l')
    x = OFFN(e)(l)
    return [('toric basis: size', z3.And(vlen(bas) == OFFN(e)(e.f('n') + 1), 0 <= vlen(bas), vlen(bas) <= LIM * LIM)),
            ('toric basis: pieces', z3.ForAll([l], z3.Implies(z3.And(0 <= l, l <= e.f('n')), z3.And(0 <= x, x + vlen(BN(e, LG(l))) <= vlen(bas))), patterns=[x]))]


def TW(e, t, r):
    """t less its r leftmost units"""
    return z3.Function('less_leftmost_units', vsort(e), INT, vsort(e))(t, r)


def tw_ax(e):
    t, r, q = z3.Const('tw!t', vsort(e)), z3.Int('tw!r'), z3.Int('tw!q')
    x = TW(e, t, r)
    mx = C03.mx
    return [Fact(z3.ForAll([t, r], vlen(x) == vlen(t), patterns=[x]), 'definition of less_leftmost_units'),
            Fact(z3.ForAll([t, r, q], z3.Implies(z3.And(0 <= q, q < vlen(t)), sel(vdat(x), q) == mx(SUM(vdat(t), q + 1) - r) - mx(SUM(vdat(t), q) - r)), patterns=[sel(vdat(x), q)]), 'definition of less_leftmost_units')]


def SH(e, m, t, r, i):
    """m + e_i without the units taken from t"""
    return z3.Function('raised_without', vsort(e), vsort(e), INT, INT, vsort(e))(m, t, r, i)


def sh_ax(e):
    m, t, r, i, q = z3.Const('sh!m', vsort(e)), z3.Const('sh!t', vsort(e)), z3.Int('sh!r'), z3.Int('sh!i'), z3.Int('sh!q')
    x = SH(e, m, t, r, i)
    return [Fact(z3.ForAll([m, t, r, i], vlen(x) == vlen(m), patterns=[x]), 'definition of raised_without'),
            Fact(z3.ForAll([m, t, r, i, q], z3.Implies(z3.And(0 <= q, q < vlen(m)), sel(vdat(x), q) == sel(vdat(m), q) + z3.If(q == i, 1, 0) - (sel(vdat(t), q) - sel(vdat(TW(e, t, r)), q))), patterns=[sel(vdat(x), q)]), 'definition of raised_without')]


_hn = {}


def hnterm(U, c, m, t, r, Do, Dv, N, i, kf, sh):
    k = kf(sh(m, t, r, i))
    return z3.If(sel(Do, k), (sel(vdat(m), i) + 1) * U[C10.COL(i, Dv[k], N)][c], 0)


def HN(e):
    """coefficient of m in sum_i d_i (x^a F_i), F the column c of U, a the r units taken from t"""
    so = vsort(e)
    if so not in _hn:
        kf = keyax(e)[0]
        sh = z3.Function('raised_without', so, so, INT, INT, so)
        _hn[so] = RecDef('shifted_divergence', [ARR2, INT, so, so, INT, DOMK, DICT, INT], INT, lambda *a: z3.IntVal(0), lambda U, c, m, t, r, Do, Dv, N, i, p: p + hnterm(U, c, m, t, r, Do, Dv, N, i, kf, sh))
    return _hn[so]


class TopTerms:
    """names for the column of the l-th element of piece n at the point with key k"""

    def __init__(s, e, k, l):
        s.e, s.k, s.l = e, k, l
        n, d = e.f('n'), e.f('d')
        s.n = n
        s.kf = keyax(e)[0]
        s.lN, s.lF, s.lH, s.lT = LG(n), level_F(e), LH(n - 1), top_level(e)
        s.t = TL(e, s.lN, BN(e, s.lN, l))
        s.tw = TW(e, s.t, n)
        s.w = KI(e, k, s.tw)
        s.DT, s.DF, s.DH = TD(e, s.lT), TD(e, s.lF), TD(e, s.lH)
        s.c = sel(mval(s.DT), s.w)
        s.U = dat(acc('second', SOLVED(e, s.lT)))
        s.dimF, s.dimH = TLN(e, s.lF), TLN(e, s.lH)

    def m(s, h):
        return TL(s.e, s.lH, h)

    def sh(s, h, i):
        return SH(s.e, s.m(h), s.t, s.n, i)

    def present(s, h, i):
        return sel(dom(s.DF), s.kf(s.sh(h, i)))

    def pos(s, h, i):
        return sel(mval(s.DF), s.kf(s.sh(h, i)))

    def args(s, h):
        return (s.U, s.c, s.m(h), s.t, s.n, dom(s.DF), mval(s.DF), s.dimF)

    def hn(s, h, i):
        return HN(s.e).fn(*s.args(h), i)

    def hn_at(s, h, i):
        return HN(s.e).at_pos(*s.args(h), i)

    def inr(s, h):
        return z3.And(0 <= h, h < s.dimH)


def hna_ax(e, k, l):
    t = TopTerms(e, k, l)
    h = fv('h')
    x = HNA(k, l)[h]
    return [Fact(z3.ForAll([h], x == t.hn(h, e.f('n') + 1), patterns=[x]), 'definition of toric_lower_numerator')]


def cbv_low(e, k, l, j, a):
    """pieces below n: the monomial x^u/(x_0...x_n) * (j-th element), through the final reduction"""
    return C14.FIN(l + 1)[a][sel(mval(TD(e, LH(l))), KI(e, k, TL(e, LG(l), BN(e, LG(l), j))))]


def cbv_top(e, k, j, a):
    n = e.f('n')
    return DOT(C14.FIN(n)[a], HNA(k, j), TLN(e, LH(n - 1)))


def cbv_ax(e, k):
    l, j, a = fv('l'), fv('j'), fv('a')
    n = e.f('n')
    x = CBV(k, l, j, a)
    y = CBV(k, n, j, a)
    return [Fact(z3.ForAll([l, j, a], z3.Implies(z3.And(0 <= l, l < n), x == cbv_low(e, k, l, j, a)), patterns=[x]), 'definition of toric_basis_in_cohomology'),
            Fact(z3.ForAll([j, a], y == cbv_top(e, k, j, a), patterns=[y]), 'definition of toric_basis_in_cohomology')]


def to_basis_ok(e, k, M, hi=None, upto=None):
    """columns of the pieces below hi, and of piece hi below upto"""
    l, j, a = fv('l'), fv('j'), fv('a')
    c = sel(sel(dat(M), a), PN(l, j))
    top = e.f('n') + 1 if hi is None else hi
    ok = z3.And(0 <= l, l < top, 0 <= j, j < vlen(BN(e, LG(l))))
    if upto is not None:
        ok = z3.Or(ok, z3.And(l == hi, 0 <= j, j < upto))
    return [('size', z3.And(NR(M) == vlen(e.f(BAS)), NC(M) == vlen(e.f(NBAS)))),
            ('columns', z3.ForAll([l, j, a], z3.Implies(z3.And(ok, 0 <= a, a < NR(M)), c == CBV(k, l, j, a)), patterns=[c]))]


def inv_to_basis(e):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    m = e.f(CB)
    x = sel(mval(m), k)
    return [(f'cached maps to the basis: {l}', z3.ForAll([k], z3.Implies(sel(dom(m), k), f), patterns=[x])) for l, f in to_basis_ok(e, k, x)]


MM = z3.Function('matrix_product', ARR2, ARR2, INT, ARR2)


def product_entries(A, B, n):
    a, j, q = fv('a'), fv('j'), fv('q')
    x = MM(A, B, n)[a][j]
    y = COLOF(B, j)[q]
    return [Fact(z3.ForAll([a, j], x == DOT(A[a], COLOF(B, j), n), patterns=[x]), 'library: entries of a matrix product'), Fact(z3.ForAll([j, q], y == B[q][j], patterns=[y]), 'definition of column_of_matrix')]


def caches_nd(e):
    return inv_solve(e) + C14.inv_final(e) + inv_solve_nd(e) + inv_incl_nd(e)


def settled(e):
    """what the caches are about: tables, solutions, both bases"""
    return obj_nd(e) + solved_sizes(e) + C14.solved_shape(e) + basis_nd(e) + [('n', e.f('n') <= C14.MAXN)]


def compute_to_basis(use_only=False):
    n, d = (lambda e: e.f('n')), (lambda e: e.f('d'))
    U = lambda e: e.old('u')
    k = lambda e: key(e, U(e))
    M = lambda e: sel(mval(e.f(CB)), k(e))
    N1 = lambda e: n(e) + 1
    T = lambda e: TopTerms(e, k(e), e['l'])
    others = lambda e: only_entry(e, CB, k(e)) + caches_nd(e)
    ones = lambda e, i: [('ones', z3.And(vlen(e['ones_vector']) == N1(e), forall_range(0, i, lambda q: sel(vdat(e['ones_vector']), q) == 1, pats=lambda q: sel(vdat(e['ones_vector']), q)))),
                         ('zeros', z3.And(vlen(e['ei']) == N1(e), forall_range(0, i, lambda q: sel(vdat(e['ei']), q) == 0, pats=lambda q: sel(vdat(e['ei']), q))))]
    both = lambda e: ones(e, N1(e))
    unit = lambda e: [('ones', ones(e, N1(e))[0][1]), ('unit vector', z3.And(vlen(e['ei']) == N1(e), forall_range(0, N1(e), lambda q: sel(vdat(e['ei']), q) == z3.If(q == e['i'], 1, 0), pats=lambda q: sel(vdat(e['ei']), q))))]
    below = lambda e, hi, upto=None: to_basis_ok(e, k(e), M(e), hi, upto)

    def apart(e, hi):
        """earlier places lie before the offset of piece hi"""
        l, j = fv('l'), fv('j')
        return ('earlier places', z3.ForAll([l, j], z3.Implies(z3.And(0 <= l, l < hi, 0 <= j, j < vlen(BN(e, LG(l)))), z3.And(0 <= PN(l, j), PN(l, j) < OFFN(e)(hi))), patterns=[PN(l, j)]))
    level = lambda e: [lev_fits.inst(e['l'], n(e), d(e)), lev_def(e, e['l']), OFFN(e).unfold(e['l']), pn_ax(e)]

    def row(e, i, j=None):
        """entries of the product copied so far"""
        a, b = fv('a'), fv('b')
        P, R = dat(e['tmp']), dat(M(e))
        l = e['l']
        done = a < i if j is None else z3.Or(a < i, z3.And(a == i, b < j))
        x = R[a][PN(l, b)]
        return [('copied so far', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < NR(e['tmp']), 0 <= b, b < NC(e['tmp']), done), x == P[a][b]), patterns=[x]))]
    tsize = lambda e: [('product', z3.And(NR(e['tmp']) == vlen(e.f(BAS)), NC(e['tmp']) == vlen(BN(e, LG(e['l']))), e['pos'] == OFFN(e)(e['l'])))]

    def after_product(e):
        l = e['l']
        K = k(e)
        Fm = dat(sel(vdat(e.f(C14.FR)), l))
        Im = dat(sel(vdat(sel(mval(e.f(IND)), K)), l))
        N = TLN(e, LH(l))
        a, j, b = fv('a'), fv('j'), fv('b')
        x = MM(Fm, Im, N)[a][j]
        kf, kl, ka, wit = keyax(e)
        w = KI(e, K, TL(e, LG(l), BN(e, LG(l), j)))
        D = TD(e, LH(l))
        inj = z3.And(0 <= j, j < vlen(BN(e, LG(l))))
        return product_entries(Fm, Im, N) + cbv_ax(e, K) + listed(e, K, l) + [
            Cut('columns of the inclusion', z3.ForAll([j, b], z3.Implies(z3.And(inj, 0 <= b, b < N), COLOF(Im, j)[b] == z3.If(b == sel(mval(D), w), 1, 0)), patterns=[COLOF(Im, j)[b]])),
            forall_facts([a, j], dot_unit.inst(Fm[a], COLOF(Im, j), sel(mval(D), w), N), [x]),
            Cut('entries of the product', z3.ForAll([a, j], z3.Implies(z3.And(inj, 0 <= a, a < vlen(e.f(BAS))), x == CBV(K, l, j, a)), patterns=[x]))]

    def listed(e, K, l):
        """every product x^u/(x_0..x_n) * (element of piece l) is listed in its degree"""
        kf, kl, ka, wit = keyax(e)
        j, q, b = fv('j'), fv('q'), fv('b')
        m = N1(e)
        t = TL(e, LG(l), BN(e, LG(l), j))
        v = PR(e, t, U(e))
        w = KI(e, K, t)
        D = TD(e, LH(l))
        inj = z3.And(0 <= j, j < vlen(BN(e, LG(l))))
        return ki_ax(e) + pr_ax(e) + [z3.ForAll([j], prod_sum.inst(vdat(t), vdat(U(e)), vdat(v), m), patterns=[v]), Cut('lengths of products', z3.ForAll([j], z3.Implies(inj, vlen(v) == m), patterns=[v])), Cut('sums of products', z3.ForAll([j], z3.Implies(inj, SUM(vdat(v), m) == LH(l)), patterns=[v])), Cut('entries of products', z3.ForAll([j, q], z3.Implies(z3.And(inj, 0 <= q, q < m), sel(vdat(v), q) >= 0), patterns=[sel(vdat(v), q)])), Cut('products are tuples', last=3, f=z3.ForAll([j], z3.Implies(inj, is_tuple(v, LH(l), m)), patterns=[v])), z3.ForAll([j], same_key(e, kf(v), w), patterns=[w]),
                                    z3.ForAll([j, q], z3.And(key_entry(e, v, q), key_entry(e, U(e), q)), patterns=[ka(w, q)]), Cut('keys of products', z3.ForAll([j], z3.Implies(inj, kf(v) == w), patterns=[w])),
                                    Cut('products are listed', z3.ForAll([j], z3.Implies(inj, z3.And(sel(dom(D), w), 0 <= sel(mval(D), w), sel(mval(D), w) < TLN(e, LH(l)), kf(TL(e, LH(l), sel(mval(D), w))) == w)), patterns=[w]))]
    # ---- the top piece
    flen = lambda e: [('lengths', z3.And(vlen(e['H']) == T(e).dimH, vlen(e['F']) == NR(acc('second', SOLVED(e, top_level(e))))))]

    def fvals(e, upto=None):
        q = fv('q')
        t = T(e)
        x = sel(vdat(e['F']), q)
        return [('column of the solution', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < (vlen(e['F']) if upto is None else upto)), x == t.U[q][t.c]), patterns=[x]))]

    def hvals(e, i, cur=None):
        h = fv('h')
        t = T(e)
        x = sel(vdat(e['H']), h)
        v = t.hn(h, i)
        if cur is not None:
            v = v + z3.If(z3.And(t.present(h, i), t.pos(h, i) < cur), (sel(vdat(t.m(h)), i) + 1) * t.U[C10.COL(i, t.pos(h, i), t.dimF)][t.c], 0)
        return [('partial sums', z3.ForAll([h], z3.Implies(t.inr(h), x == v), patterns=[x]))]
    def split(e):
        t, m = T(e), N1(e)
        a, tt, tv = vdat(e['a']), vdat(e['tt']), vdat(t.t)
        return [Cut('length of a', z3.And(vlen(e['a']) == m, vlen(e['tt']) == m)), Cut('a is what was taken', forall_range(0, m, lambda q: a[q] == tv[q] - tt[q], pats=lambda q: a[q])), Cut('a as defined', forall_range(0, m, lambda q: a[q] == tv[q] - sel(vdat(t.tw), q), pats=lambda q: a[q])),
                Cut('taken from below', forall_range(0, m, lambda q: a[q] >= 0, pats=lambda q: a[q])), sum_diff.inst(tv, tt, a, m), Cut('sum of the monomial', SUM(tv, m) == n(e) * d(e)), Cut('total taken', SUM(a, m) == n(e))]
    tops = lambda e: [('solutions there', z3.And(sel(dom(e.f(SJ)), top_level(e)), sel(mval(e.f(SJ)), top_level(e)) == SOLVED(e, top_level(e)), sel(dom(e.f(SN)), LG(n(e))), sel(mval(e.f(SN)), LG(n(e))) == SOLVED_ND(e, LG(n(e))))), ('dim_Fi', e['dim_Fi'] == TLN(e, level_F(e)))]
    cur = lambda e: e['coordinate_of_monomial_Fi']

    def after_tweak(e):
        t = T(e)
        tt, q = vdat(e['tt']), fv('q')
        m = N1(e)
        k = fv('k')
        return tw_ax(e) + [forall_facts([q], SUM.at_pos(tt, q + 1), [tt[q]]), forall_facts([q], SUM.at_pos(vdat(t.t), q + 1), [tt[q]]),
                           Cut('the units left', z3.And(vlen(e['tt']) == m, forall_range(0, m, lambda q: tt[q] == sel(vdat(t.tw), q), pats=lambda q: tt[q])))]

    def after_lengths(e):
        """w is set: its monomial is listed in the top degree"""
        try:
            w, F = e['w'], e['F']
        except Unsupported:
            return []
        t = T(e)
        kf, kl, ka, wit = keyax(e)
        m = N1(e)
        kw = kf(w)
        q = fv('q')
        return [sum_const.inst(vdat(e['ones_vector']), m), prod_sum.inst(vdat(e['tt']), vdat(U(e)), vdat(w), m), Cut('units left', SUM(vdat(e['tt']), m) == n(e) * d(e) - n(e)), *split(e), Cut('w is a tuple', is_tuple(w, t.lT, m))] + ki_ax(e) + [
            same_key(e, kw, t.w), z3.ForAll([q], z3.And(key_entry(e, w, q), key_entry(e, U(e), q)), patterns=[ka(t.w, q)]), Cut('w is the product', kw == t.w), Cut('listed', z3.And(sel(dom(t.DT), t.w), 0 <= t.c, t.c < TLN(e, t.lT)))]

    def step(e):
        kf, kl, ka, wit = keyax(e)
        h, q = fv('h'), fv('q')
        t = T(e)
        i, c0 = e['i'], e.head_val('coordinate_of_monomial_Fi')
        s = TL(e, t.lF, c0)
        x = t.sh(h, i)
        kx, ks, km = kf(x), kf(s), kf(t.m(h))
        out = sh_ax(e) + [z3.ForAll([h], same_key(e, kx, ks), patterns=[kx]), z3.ForAll([h, q], z3.And(key_entry(e, x, q), key_entry(e, s, q), key_entry(e, t.m(h), q)), patterns=[ka(kx, q), ka(km, q)]),
                          z3.ForAll([h], z3.And(key_entry(e, x, i), key_entry(e, t.m(h), i)), patterns=[kx]), key_entry(e, s, i), z3.ForAll([q], key_entry(e, s, q), patterns=[ka(ks, q)]), C10.col_def(i, c0, t.dimF)]
        out = [C10.col_def(i, c0, t.dimF), Cut('its column', C10.COL(i, c0, t.dimF) == i * t.dimF + c0), Cut('the entry of the solution', t.U[C10.COL(i, c0, t.dimF)][t.c] == sel(vdat(e['F']), C10.COL(i, c0, t.dimF)))] + out
        if e.eng.lookups:
            kw = e.eng.lookups[-1]
            wv = kw.arg(0)
            hit = z3.And(t.present(h, i), t.pos(h, i) == c0)
            pos = sel(vdat(e['a']), i) + sel(vdat(s), i) > 0
            given = lambda f: z3.Implies(pos, f)
            out += [z3.ForAll([h], same_key(e, km, kw), patterns=[km]), z3.ForAll([q], key_entry(e, wv, q), patterns=[ka(kw, q)]), Cut('the product', given(z3.And(vlen(wv) == N1(e), forall_range(0, N1(e), lambda q: sel(vdat(wv), q) == sel(vdat(t.t), q) - sel(vdat(t.tw), q) + sel(vdat(s), q) - z3.If(q == i, 1, 0), pats=lambda q: sel(vdat(wv), q))))),
                    Cut('a hit is at this place', z3.ForAll([h], z3.Implies(z3.And(t.inr(h), hit), kx == ks), patterns=[x])),
                    Cut('its exponent', z3.ForAll([h], z3.Implies(z3.And(t.inr(h), hit), sel(vdat(t.m(h)), i) + 1 == sel(vdat(e['a']), i) + sel(vdat(s), i)), patterns=[x])),
                    Cut('a hit is this monomial', z3.ForAll([h], z3.Implies(z3.And(t.inr(h), hit), km == kw), patterns=[x])), Cut('this monomial is a hit', given(z3.ForAll([h], z3.Implies(z3.And(t.inr(h), km == kw), kx == ks), patterns=[x]))),
                    Cut('the row of this monomial', given(z3.ForAll([h], z3.Implies(t.inr(h), hit == (h == sel(mval(t.DH), kw))), patterns=[x]))),
                    Cut('its row is inside', given(t.inr(sel(mval(t.DH), kw))))]
            term = lambda h: (sel(vdat(t.m(h)), i) + 1) * t.U[C10.COL(i, t.pos(h, i), t.dimF)][t.c]
            added = (sel(vdat(e['a']), i) + sel(vdat(s), i)) * sel(vdat(e['F']), i * t.dimF + c0)
            out += [Cut('the entry in place', t.U[C10.COL(i, c0, t.dimF)][t.c] == sel(vdat(e['F']), i * t.dimF + c0)),
                    Cut('the exponent of the row', z3.ForAll([h], z3.Implies(z3.And(t.inr(h), hit), sel(vdat(t.m(h)), i) + 1 == sel(vdat(e['a']), i) + sel(vdat(s), i)), patterns=[x])),
                    Cut('the summand', last=2, f=z3.ForAll([h], z3.Implies(z3.And(t.inr(h), hit), term(h) == added), patterns=[x]))]
        return out

    def hn_at(e, i):
        h = fv('h')
        t = T(e)
        return z3.ForAll([h], t.hn_at(h, i), patterns=[t.hn(h, i)])

    def within(e):
        h, i = fv('h'), fv('i')
        t = T(e)
        return sh_ax(e) + [Cut('positions', z3.ForAll([h, i], z3.Implies(t.present(h, i), z3.And(0 <= t.pos(h, i), t.pos(h, i) < t.dimF)), patterns=[t.kf(t.sh(h, i))]))]

    def column(e):
        """the new column"""
        a = fv('a')
        t = T(e)
        Fm = dat(sel(vdat(e.f(C14.FR)), n(e) - 1))
        x = sel(vdat(e['tmp_vec']), a)
        K = k(e)
        r = C14.FIN(n(e))[a]
        return hna_ax(e, K, e['l']) + cbv_ax(e, K) + [forall_facts([a], C14.dot_cong.inst(Fm[a], vdat(e['H']), r, HNA(K, e['l']), t.dimH), [x]),
                Cut('the column', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < vlen(e.f(BAS))), x == CBV(K, n(e), e['l'], a)), patterns=[x]))]
    toplev = lambda e: [lev_fits.inst(n(e) - 1, n(e), d(e)), lev_def(e, n(e) - 1), lev_def(e, n(e)), level_fits.inst(n(e), d(e)), OFFN(e).unfold(n(e)), pn_ax(e), top_sum.inst(n(e), d(e)), C10.col_ax(), C10.rp3.inst(N1(e), TLN(e, level_F(e))), sizefit.inst(N1(e), TLN(e, level_F(e)))]
    loops = {
        0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e)))] + ones(e, e['i']), lambda e: N1(e) - e['i'], pre_hints=lambda e: [entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])]),
        1: Loop(lambda e: [('counter', z3.And(0 <= e['l'], e['l'] <= n(e))), ('offset', e['pos'] == OFFN(e)(e['l'])), apart(e, e['l'])] + both(e) + others(e) + below(e, e['l']), lambda e: n(e) - e['l'], head=level, pre_hints=lambda e: [OFFN(e).base()], hints=lambda e: [OFFN(e).unfold(e.head_val('l')), pn_ax(e)]),
        2: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e['tmp'])))] + tsize(e) + others(e) + below(e, e['l']) + row(e, e['i']), lambda e: NR(e['tmp']) - e['i'], pre_hints=after_product),
        3: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= NC(e['tmp'])))] + tsize(e) + others(e) + below(e, e['l']) + row(e, e['i'], e['j']), lambda e: NC(e['tmp']) - e['j']),
        4: Loop(lambda e: [('counter', z3.And(0 <= e['l'], e['l'] <= vlen(BN(e, LG(n(e)))))), ('offset', e['pos'] == PN(n(e), e['l'])), apart(e, n(e))] + both(e) + tops(e) + others(e) + below(e, n(e), e['l']), lambda e: vlen(BN(e, LG(n(e)))) - e['l'], pre_hints=toplev, head=toplev),
        5: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['F'])))] + flen(e) + fvals(e, e['i']), lambda e: vlen(e['F']) - e['i']),
        6: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e)))] + both(e) + flen(e) + hvals(e, e['i']), lambda e: N1(e) - e['i'], hints=lambda e: [hn_at(e, e['i'])], pre_hints=lambda e: [HN(e).base_ax()] + within(e)),
        7: Loop(lambda e: [('counter', z3.And(0 <= cur(e), cur(e) <= T(e).dimF))] + unit(e) + flen(e) + hvals(e, e['i'], cur(e)), lambda e: T(e).dimF - cur(e), hints=step, pre_hints=lambda e: [C10.colfit.inst(e['i'], z3.IntVal(0), T(e).dimF, N1(e)), C10.colfit.inst(e['i'], T(e).dimF - 1, T(e).dimF, N1(e))], head=lambda e: [C10.colfit.inst(e['i'], cur(e), T(e).dimF, N1(e)), sum_unit.inst(vdat(e['ei']), e['i'], N1(e)), Cut('one unit', SUM(vdat(e['ei']), N1(e)) == 1), Cut('a monomial of F', is_tuple(TL(e, level_F(e), cur(e)), level_F(e), N1(e)))]),
        8: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['tmp_vec'])))] + others(e) + below(e, n(e), e['l']) + [('column copied so far', forall_range(0, e['i'], lambda a: sel(sel(dat(M(e)), a), e['pos']) == sel(vdat(e['tmp_vec']), a), pats=lambda a: sel(sel(dat(M(e)), a), e['pos'])))], lambda e: vlen(e['tmp_vec']) - e['i'], pre_hints=column),
    }
    mods = [CB, IND, SN, C14.FR, SJ]
    return Contract(SRC, 'compute_coKernels_ND_to_basis', None, lambda e: point(e) + [('not there yet', z3.Not(sel(dom(e.f(CB)), key(e, e['u']))))] + settled(e) + caches_nd(e) + inv_to_basis(e),
                    lambda e: caches_nd(e) + inv_to_basis(e) + [('the entry of u is there', sel(dom(e.f(CB)), k(e))), ('nothing forgotten', C11.other_kept(e, CB))], loops,
                    modifies=['this.' + x for x in mods], fields=FIELDS_ND, flags={'present': ['tuple_dict'], 'after': {'tweak': after_tweak, 'SetLength': after_lengths}}, overflow=True, label=f'{SRC}:compute_coKernels_ND_to_basis', use_only=use_only)


def PR(e, t, u):
    """t + u - (1, ..., 1)"""
    return z3.Function('product_divided_by_x0_xn', vsort(e), vsort(e), vsort(e))(t, u)


def pr_ax(e):
    t, u, q = z3.Const('pr!t', vsort(e)), z3.Const('pr!u', vsort(e)), z3.Int('pr!q')
    x = PR(e, t, u)
    return [Fact(z3.ForAll([t, u], vlen(x) == vlen(t), patterns=[x]), 'definition of product_divided_by_x0_xn'),
            Fact(z3.ForAll([t, u, q], z3.Implies(z3.And(0 <= q, q < vlen(t)), sel(vdat(x), q) == sel(vdat(t), q) + sel(vdat(u), q) - 1), patterns=[sel(vdat(x), q)]), 'definition of product_divided_by_x0_xn')]


prod_sum = Lemma('sum of t + u - (1, ..., 1)', [(x, ARR) for x in ('t', 'u', 'r')] + I('m'), lambda t, u, r, m: z3.Implies(forall_range(0, m, lambda q: r[q] == t[q] + u[q] - 1), SUM(r, m) == SUM(t, m) + SUM(u, m) - m), induct=3,
                 facts=lambda t, u, r, m: [f for x in (t, u, r) for f in (SUM.base(x), SUM.at_pos(x, m))])
top_sum = Lemma('degree of the top numerators', I('n', 'd'), lambda n, d: z3.And(n * d - n + d - (n + 1) == (d - 2) * (n + 1) + 1, d * n - (n + 1) == (n - 1 + 1) * d - (n + 1), d * n - 2 * n + n == d * n - n))


sum_diff = Lemma('sum of a difference of tuples', [(x, ARR) for x in ('a', 'b', 'c')] + I('n'), lambda a, b, c, n: z3.Implies(forall_range(0, n, lambda q: c[q] == a[q] - b[q]), SUM(c, n) == SUM(a, n) - SUM(b, n)), induct=3, facts=lambda a, b, c, n: [f for x in (a, b, c) for f in (SUM.base(x), SUM.at_pos(x, n))])
sum_const = Lemma('sum of ones', [('a', ARR)] + I('m'), lambda a, m: z3.Implies(z3.And(m >= 0, forall_range(0, m, lambda q: a[q] == 1)), SUM(a, m) == m), induct=1, facts=lambda a, m: [SUM.base(a), SUM.at_pos(a, m)])
sum_unit = Lemma('sum of a unit vector', [('a', ARR)] + I('i', 'm'), lambda a, i, m: z3.Implies(z3.And(i >= 0, forall_range(0, m, lambda q: a[q] == z3.If(q == i, 1, 0))), SUM(a, m) == z3.If(i < m, 1, 0)), induct=2, facts=lambda a, i, m: [SUM.base(a), SUM.at_pos(a, m)])


def get_to_basis(use_only=False):
    k = lambda e: key(e, e.old('u'))

    def ret(v):
        return Ptr(LV(('this', CB), (('key', key(v, v['u'])),), ty('Mat<ZZ_p>')), None, ty('Mat<ZZ_p>*'))

    def ens(e):
        return caches_nd(e) + inv_to_basis(e) + [('the entry of u', sel(dom(e.f(CB)), k(e))), ('nothing forgotten', C11.other_kept(e, CB))] + points_at(e, CB, [k(e)])
    mods = [CB, IND, SN, C14.FR, SJ]
    return Contract(SRC, 'get_coKernels_ND_to_basis', None, lambda e: point(e) + settled(e) + caches_nd(e) + inv_to_basis(e), ens,
                    {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('partial sum', e['sum'] == SUM(vdat(e['u']), e['i']))], lambda e: e.f('n') + 1 - e['i'], hints=lambda e: [SUM.at_pos(vdat(e['u']), e['i'])], pre_hints=lambda e: [SUM.base(vdat(e['u']))] + C11.running(vdat(e['u']), e.f('n') + 1))},
                    modifies=['this.' + x for x in mods], returns=ret, fields=FIELDS_ND, overflow=True, flags={'present': ['tuple_dict']}, label=f'{SRC}:get_coKernels_ND_to_basis', use_only=use_only)


def contracts():
    return [get_solve_ND(), compute_inclusion_ND(), get_inclusion_ND(), compute_to_basis(), get_to_basis()]


def lemmas():
    return [lev_fits, product_ok, prod_sum, top_sum, sum_const, sum_unit, sum_diff, dot_unit]
