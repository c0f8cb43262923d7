"""The Jacobian model: solved relation matrices and the reduction polynomial of a direction (shared by C11, C13, C14)."""
from .drlib import *
from . import C10

SJ = 'solve_J'


def pairsort(e):
    return e.eng.sorts.sort(ty('pair<Vec<int64_t>, Mat<ZZ_p>>'))


def SOLVED(e, l):
    """solution of the relation matrix of degree l modulo p^precision"""
    return z3.Function('solution_of_level', INT, pairsort(e))(l)


def inv_solve(e):
    l = fv('l')
    m = e.f(SJ)
    x = sel(mval(m), l)
    return [('cached solutions are right', z3.ForAll([l], z3.Implies(sel(dom(m), l), x == SOLVED(e, l)), patterns=[x]))]


def solved_sizes(e):
    """shape of the solutions (what the solver returns, C09)"""
    l = fv('l')
    n, d = e.f('n'), e.f('d')
    s = SOLVED(e, l)
    B, U = acc('first', s), acc('second', s)
    return [('solutions: sizes', z3.ForAll([l], z3.Implies(z3.And(0 <= l, l <= (n + 1) * d), z3.And(vlen(B) >= 0, vlen(B) <= LIM, NC(U) == TLN(e, l), NR(U) == z3.If(l >= d - 1, (n + 1) * TLN(e, l - (d - 1)), 0) + vlen(B))), patterns=[s]))]


def object_J(e):
    return shape_J(e) + tables(e) + homogeneous(e)


def kept_int(e, field):
    k = fv('k')
    a, b = e.f(field), e.oldf(field)
    return ('nothing forgotten', z3.ForAll([k], z3.Implies(sel(dom(b), k), z3.And(sel(dom(a), k), sel(mval(a), k) == sel(mval(b), k))), patterns=[sel(mval(b), k), sel(mval(a), k)]))


def solve_padic():
    def ens(e):
        l = fv('l')
        s = SOLVED(e, l)
        c = [f for _, f in C10.relation_matrix(e, e['T'], l)]
        return [('a function of the matrix and the precision', z3.ForAll([l], z3.Implies(z3.And(e['precision'] == e.f('precision'), *c), z3.And(e['B'] == acc('first', s), e['U'] == acc('second', s))), patterns=[s]))]
    return Contract('solve_system/solve_system.cc', 'solve_system_padic', ['vec<i64>', 'mat<ZZ_p>', 'mat<ZZ_p>', 'i64', 'bool'], lambda e: [], ens, modifies=['B', 'U'], fields=FIELDS, label='solve_system/solve_system.cc:solve_system_padic', use_only=True)


QUIET = {k: (lambda eng, n, st: eng.fresh('time', z3.RealSort())) for k in ('get_cpu_time', 'timestamp_diff_in_seconds')}
QUIET.update({k: (lambda eng, n, st: None) for k in ('get_timestamp', 'printf')})


def get_solve_J(use_only=False):
    level = lambda e: e.old('level')

    def ret(v):
        return Ptr(LV(('this', SJ), (('key', v['level']),), ty('pair<Vec<int64_t>, Mat<ZZ_p>>')), None, ty('pair<Vec<int64_t>, Mat<ZZ_p>>*'))

    def ens(e):
        out = inv_solve(e) + [('the entry of this level', z3.And(sel(dom(e.f(SJ)), level(e)), sel(mval(e.f(SJ)), level(e)) == SOLVED(e, level(e)))), kept_int(e, SJ)]
        if isinstance(e.result, Ptr) and isinstance(e, Env):
            p = e.result
            out.append(('points at it', z3.And(z3.BoolVal(p.lv.root == ('this', SJ) and len(p.lv.path) == 1 and p.lv.path[0][0] == 'key' and p.off is None), p.lv.path[0][1] == level(e))))
        return out
    return Contract('dr/get_solve_J.cc', 'get_solve_J', None, lambda e: [('degree', z3.And(0 <= level(e), level(e) <= (e.f('n') + 1) * e.f('d')))] + object_J(e) + inv_solve(e), ens, modifies=['this.' + SJ], returns=ret, fields=FIELDS, handlers=QUIET, flags={'present': ['tuple_dict']}, overflow=True, label='dr/get_solve_J.cc:get_solve_J', use_only=use_only)


def KI(e, k, g):
    """key of g + u - (1, ..., 1), u the vector with key k"""
    return z3.Function('key_of_product_without_x0_xn', KEYS, vsort(e), KEYS)(k, g)


def ki_ax(e):
    kf, kl, ka, wit = keyax(e)
    k, g, q = z3.Const('ki!k', KEYS), z3.Const('ki!g', vsort(e)), z3.Int('ki!q')
    x = KI(e, k, g)
    return [Fact(z3.ForAll([k, g], z3.Implies(vlen(g) >= 0, kl(x) == vlen(g)), patterns=[x]), 'definition of key_of_product_without_x0_xn'),
            Fact(z3.ForAll([k, g, q], z3.Implies(z3.And(0 <= q, q < vlen(g)), ka(x, q) == sel(vdat(g), q) + ka(k, q) - 1), patterns=[ka(x, q)]), 'definition of key_of_product_without_x0_xn')]


minus_ones = Lemma('sum after taking one unit everywhere', [('a', ARR), ('r', ARR), ('n', INT)], lambda a, r, n: z3.Implies(forall_range(0, n, lambda i: r[i] == a[i] - 1), SUM(r, n) == SUM(a, n) - n), induct=2,
                   facts=lambda a, r, n: [f for x in (a, r) for f in (SUM.base(x), SUM.at_pos(x, n))])


# ---------------------------------------------------------------- the reduction polynomial of a direction
DOMK = z3.ArraySort(KEYS, BOOL)
DICT = z3.ArraySort(KEYS, INT)


def top_level(e):
    n, d = e.f('n'), e.f('d')
    return (d - 2) * (n + 1) + 1


def level_G(e):
    return e.f('d') * e.f('n') - e.f('n')


def level_F(e):
    return e.f('d') * e.f('n') - 2 * e.f('n')


def DOWN(e, g, i):
    """g - (1, ..., 1) + e_i"""
    return z3.Function('divided_except_at', vsort(e), INT, vsort(e))(g, i)


def down_ax(e):
    g, i, q = z3.Const('dn!g', vsort(e)), z3.Int('dn!i'), z3.Int('dn!q')
    u = DOWN(e, g, i)
    return [Fact(z3.ForAll([g, i], vlen(u) == vlen(g), patterns=[u]), 'definition of divided_except_at'),
            Fact(z3.ForAll([g, i, q], z3.Implies(z3.And(0 <= q, q < vlen(g)), sel(vdat(u), q) == sel(vdat(g), q) - z3.If(q == i, 0, 1)), patterns=[sel(vdat(u), q)]), 'definition of divided_except_at')]


_rs = {}


def RS(e):
    """sum over i of g_i * (coefficient of the monomial g - (1..1) + e_i in F_i), F column c of U"""
    so = vsort(e)
    if so not in _rs:
        kf = keyax(e)[0]
        dn = z3.Function('divided_except_at', so, INT, so)

        def step(U, c, g, Do, Dv, n, i, r):
            k = kf(dn(g, i))
            return r + z3.If(sel(Do, k), sel(vdat(g), i) * U[C10.COL(i, Dv[k], n)][c], 0)
        _rs[so] = RecDef('reduction_constant_part', [ARR2, INT, so, DOMK, DICT, INT], INT, lambda *a: z3.IntVal(0), step)
    return _rs[so]


class RedTerms:
    """names for the pieces of the reduction polynomial of the direction with key k"""

    def __init__(s, e, k):
        s.e, s.k = e, k
        s.kf = keyax(e)[0]
        s.lG, s.lF, s.lT = level_G(e), level_F(e), top_level(e)
        s.N, s.dimF = TLN(e, s.lG), TLN(e, s.lF)
        s.U = dat(acc('second', SOLVED(e, s.lT)))
        s.DF, s.DT = TD(e, s.lF), TD(e, s.lT)

    def g(s, a):
        return TL(s.e, s.lG, a)

    def w(s, b):
        return KI(s.e, s.k, s.g(b))

    def listed(s, b):
        return sel(dom(s.DT), s.w(b))

    def cw(s, b):
        return sel(mval(s.DT), s.w(b))

    def kd(s, a, i):
        return s.kf(DOWN(s.e, s.g(a), i))

    def present(s, a, i):
        return sel(dom(s.DF), s.kd(a, i))

    def pos(s, a, i):
        return sel(mval(s.DF), s.kd(a, i))

    def coeff(s, a, i, b):
        return s.U[C10.COL(i, s.pos(a, i), s.dimF)][s.cw(b)]

    def coeff_at(s, i, c, b):
        return s.U[C10.COL(i, c, s.dimF)][s.cw(b)]

    def rs(s, a, b, i):
        return RS(s.e).fn(s.U, s.cw(b), s.g(a), dom(s.DF), mval(s.DF), s.dimF, i)

    def rs_at(s, a, b, i):
        return RS(s.e).at_pos(s.U, s.cw(b), s.g(a), dom(s.DF), mval(s.DF), s.dimF, i)

    def inr(s, a):
        return z3.And(0 <= a, a < s.N)


def rm_ax(e, k):
    t = RedTerms(e, k)
    a, b, j = fv('a'), fv('b'), fv('j')
    n = e.f('n')
    x0, xj = RM(k, 0)[a][b], RM(k, j)[a][b]
    ok = z3.And(t.inr(a), t.inr(b), t.listed(b))
    return [Fact(z3.ForAll([a, b], x0 == z3.If(ok, t.rs(a, b, n + 1), 0), patterns=[x0]), 'definition of reduction_coefficient'),
            Fact(z3.ForAll([a, b, j], z3.Implies(z3.And(1 <= j, j <= n + 1), xj == z3.If(z3.And(ok, t.present(a, j - 1)), t.coeff(a, j - 1, b), 0)), patterns=[xj]), 'definition of reduction_coefficient')]


def sizes(e):
    return [('n and dimension', z3.And(e.f('n') >= 1, DIM == TLN(e, level_G(e))))]


sizefit = Lemma('row counts are machine words', I('m', 'x'), lambda m, x: z3.Implies(z3.And(0 <= m, m <= LIM, 0 <= x, x <= LIM), z3.And(0 <= m * x, m * x <= LIM * LIM)), facts=lambda m, x: [C10.rp3.inst(m, x), C10.rp3.inst(m, LIM - x), C10.rp3.inst(LIM - m, z3.IntVal(LIM))])
level_fits = Lemma('degrees in a reduction step', I('n', 'd'), lambda n, d: z3.Implies(z3.And(n >= 1, d > n), z3.And(0 <= d * n - 2 * n, d * n - n <= (n + 1) * d, d - 1 <= (d - 2) * (n + 1) + 1, (d - 2) * (n + 1) + 1 <= (n + 1) * d, n <= d * n - n)),
                   facts=lambda n, d: [C10.rp3.inst(d - 2, n), C10.rp3.inst(d - 2, n + 1)])
ones_less = Lemma('sum of ones but one', [('a', ARR)] + I('i', 'n'), lambda a, i, n: z3.Implies(z3.And(i >= 0, forall_range(0, n, lambda q: a[q] == z3.If(q == i, 0, 1))), SUM(a, n) == n - z3.If(i < n, 1, 0)), induct=2, facts=lambda a, i, n: [SUM.base(a), SUM.at_pos(a, n)])


def jlemmas():
    return [minus_ones, sizefit, level_fits, ones_less]
