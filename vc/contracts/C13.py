"""Coordinates in the cohomology basis: monomial_to_basis_J composes a chain of reduction steps, the inclusion and the final reduction."""
from .drlib import *
from .C01 import entry_le, sum_mono, nonneg
from . import C02, C03, C10, C11, C14
from .C14 import FIN, FR, IN, MAXN, dot_cong
from .C11 import AR
from .jmodel import *

MAT = z3.Function('reduction_matrix', KEYS, ARR, INT, ARR2)       # of a direction at a point
GS = z3.Function('reduced_numerator', INT, ARR)                   # after t steps (ghost, written once per step)
INCM = z3.Function('inclusion', KEYS, ARR2)
LOWG = z3.Function('numerator_of_order_n', ARR)


def PV(e, t):
    """direction taken at step t (ghost, written once per step)"""
    return z3.Function('direction_taken', INT, vsort(e))(t)


def PW(e, t):
    """point reached after t steps (ghost, written once per step)"""
    return z3.Function('point_reached', INT, vsort(e))(t)


def START(e):
    return z3.Function('first_numerator', vsort(e))()


def KD(k):
    """key of u - (1, ..., 1), u the vector with key k"""
    return z3.Function('key_divided_by_x0_xn', KEYS, KEYS)(k)


def kd_ax(e, u):
    kf, kl, ka, wit = keyax(e)
    k, q = kf(u), fv('q')
    return [Fact(z3.And(kl(KD(k)) == vlen(u), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < vlen(u)), ka(KD(k), q) == sel(vdat(u), q) - 1), patterns=[ka(KD(k), q)])), 'definition of key_divided_by_x0_xn')]


def mat_def(k, u, n):
    a, b = fv('a'), fv('b')
    x = MAT(k, u, n)[a][b]
    return Fact(z3.ForAll([a, b], x == RM(k, 0)[a][b] + RSUM(k, u, a, b, n + 1), patterns=[x]), 'definition of reduction_matrix')


def incm_def(e, k):
    h, g = C14.incl_levels(e)
    a, b = fv('a'), fv('b')
    x = INCM(k)[a][b]
    return Fact(z3.ForAll([a, b], x == z3.If(keyax(e)[0](TL(e, h, a)) == KI(e, k, TL(e, g, b)), z3.IntVal(1), z3.IntVal(0)), patterns=[x]), 'definition of inclusion')


dot_unit = Lemma('inner product with a unit vector', [('r', ARR), ('g', ARR), ('b', INT), ('n', INT)], lambda r, g, b, n: z3.Implies(z3.And(b >= 0, forall_range(0, n, lambda q: g[q] == z3.If(q == b, 1, 0))), DOT(r, g, n) == z3.If(b < n, r[b], 0)), induct=3,
                 facts=lambda r, g, b, n: [DOT.base(r, g), DOT.at_pos(r, g, n)])
exact_div2 = Lemma('quotient of a multiple', I('s', 'd'), lambda s, d: z3.Implies(z3.And(d > 0, s % d == 0), s == d * (s / d)))
sum_eq = Lemma('equal entries, equal sums', AR('a', 'b') + I('n'), lambda a, b, n: z3.Implies(forall_range(0, n, lambda q: a[q] == b[q]), SUM(a, n) == SUM(b, n)), induct=2, facts=lambda a, b, n: [SUM.base(a), SUM.base(b), SUM.at_pos(a, n), SUM.at_pos(b, n)])
sum_sub = Lemma('sum of a difference', AR('a', 'b', 'c') + I('n'), lambda a, b, c, n: z3.Implies(forall_range(0, n, lambda q: c[q] == a[q] - b[q]), SUM(c, n) == SUM(a, n) - SUM(b, n)), induct=3,
                facts=lambda a, b, c, n: [f for x in (a, b, c) for f in (SUM.base(x), SUM.at_pos(x, n))])
sum_plus_one = Lemma('sum after one entry grew by one', AR('a', 'b') + I('i', 'n'), lambda a, b, i, n: z3.Implies(z3.And(i >= 0, forall_range(0, n, lambda q: b[q] == a[q] + z3.If(q == i, 1, 0))), SUM(b, n) == SUM(a, n) + z3.If(i < n, 1, 0)), induct=3,
                     facts=lambda a, b, i, n: [f for x in (a, b) for f in (SUM.base(x), SUM.at_pos(x, n))])
sum_ones = Lemma('a sum of zeros and ones', [('a', ARR)] + I('n'), lambda a, n: z3.Implies(z3.And(n >= 0, forall_range(0, n, lambda q: z3.And(0 <= a[q], a[q] <= 1))), z3.And(0 <= SUM(a, n), SUM(a, n) <= n)), induct=1, facts=lambda a, n: [SUM.base(a), SUM.at_pos(a, n)])


prod_ge = Lemma('product with a positive number', I('d', 'x'), lambda d, x: z3.Implies(z3.And(d >= 0, x >= 1), d * x >= d), facts=lambda d, x: [C10.rp3.inst(d, x - 1)])
div_pos = Lemma('quotients of positive multiples', I('s', 'd'), lambda s, d: z3.Implies(z3.And(d > 0, s > 0, s % d == 0), z3.And(1 <= s / d, s / d <= s)), facts=lambda s, d: [exact_div2.inst(s, d), C10.rp3.inst(d - 1, s / d)])


def vec_is(vec, size, val):
    q = fv('q')
    x = sel(vdat(vec), q)
    return z3.And(vlen(vec) == size, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < size), x == val(q)), patterns=[x]))


def monomial():
    n, d = (lambda e: e.f('n')), (lambda e: e.f('d'))
    u = lambda e: vdat(e.old('u'))
    N1 = lambda e: n(e) + 1
    total = lambda e: SUM(u(e), N1(e))
    m = lambda e: total(e) / d(e)
    w, v = (lambda e: vdat(e['w'])), (lambda e: vdat(e['v']))
    bas = lambda e: e.f('coKernels_J_basis')
    t = lambda e: m(e) - e['e']
    wok = lambda e: [('point', z3.And(vlen(e['w']) == N1(e), nonneg(w(e), N1(e)), forall_range(0, N1(e), lambda q: w(e)[q] <= u(e)[q], pats=lambda q: w(e)[q]), SUM(w(e), N1(e)) == n(e) + d(e) * (e['e'] - n(e))))]
    caches = lambda e: C11.kept_caches(e)
    numer = lambda e: [('numerator', vec_is(e['G'], DIM, lambda q: GS(t(e))[q])), ('point reached', PW(e, t(e)) == e['w'])]
    vlens = lambda e: vlen(e['v']) == N1(e)
    vbox = lambda e, i: forall_range(0, i, lambda q: z3.And(0 <= v(e)[q], v(e)[q] <= w(e)[q], (v(e)[q] > 0) == (w(e)[q] > 0)), pats=lambda q: v(e)[q])

    def pos0(e):
        return sel(mval(TD(e, level_G(e))), keyax(e)[0](START(e)))

    def begins(e):
        """u = w_0 + s, numerator x^s"""
        q = fv('q')
        s, w0 = START(e), PW(e, 0)
        return ('the chain starts at u', z3.And(is_tuple(s, level_G(e), N1(e)), vlen(w0) == N1(e), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N1(e)), sel(vdat(w0), q) + sel(vdat(s), q) == u(e)[q]), patterns=[sel(vdat(s), q)]),
                                                z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < DIM), GS(0)[q] == z3.If(q == pos0(e), 1, 0)), patterns=[GS(0)[q]])))

    def stepped(e, upto):
        """every step applies the reduction matrix of an admissible direction at the point it leads to"""
        a, q, s = fv('a'), fv('q'), fv('s')
        x = GS(s + 1)[a]
        V, W0, W1 = PV(e, s), PW(e, s), PW(e, s + 1)
        ok = z3.And(0 <= s, s < upto)
        inq = z3.And(0 <= q, q < N1(e))
        return [('every step is a reduction step', z3.ForAll([s, a], z3.Implies(z3.And(ok, 0 <= a, a < DIM), x == DOT(MAT(keyax(e)[0](V), vdat(W1), n(e))[a], GS(s), DIM)), patterns=[x])),
                ('every direction is one of degree d', z3.ForAll([s], z3.Implies(ok, is_tuple(V, d(e), N1(e))), patterns=[V])),
                ('every step goes down by its direction', z3.ForAll([s, q], z3.Implies(z3.And(ok, inq), z3.And(sel(vdat(W1), q) == sel(vdat(W0), q) - sel(vdat(V), q), sel(vdat(W1), q) >= 0, z3.Implies(sel(vdat(V), q) == 0, sel(vdat(W1), q) == 0))), patterns=[sel(vdat(V), q)]))]

    def ending(e):
        """numerator of pole order n"""
        a = fv('a')
        h, g = C14.incl_levels(e)
        x = LOWG()[a]
        return ('the numerator of order n is the included one', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < TLN(e, h)), x == DOT(INCM(keyax(e)[0](PW(e, m(e) - n(e))))[a], GS(m(e) - n(e)), TLN(e, g))), patterns=[x]))

    def low(e, r):
        l = total(e) - N1(e)
        return vec_is(r, vlen(bas(e)), lambda a: FIN(m(e))[a][sel(mval(TD(e, l)), KD(keyax(e)[0](e.old('u'))))])

    def ens(e):
        hi = m(e) > n(e)
        return [('length', vlen(e.result) == vlen(bas(e)))] + C11.kept_caches(e) + C14.inv_incl(e) + C14.inv_final(e) + [('pole order at most n: the column of the final reduction', z3.Implies(z3.Not(hi), low(e, e.result)))] + \
            [(nm, z3.Implies(hi, f)) for nm, f in [begins(e)] + stepped(e, m(e) - n(e)) + [ending(e), ('higher pole order: final reduction of the included numerator', vec_is(e.result, vlen(bas(e)), lambda a: DOT(FIN(n(e))[a], LOWG(), TLN(e, C14.deg(e, n(e))))))]]
    req = lambda e: [('exponents', z3.And(vlen(e['u']) == N1(e), forall_range(0, N1(e), lambda q: sel(vdat(e['u']), q) > 0, pats=lambda q: sel(vdat(e['u']), q)), SUM(vdat(e['u']), N1(e)) <= 1 << 40, SUM(vdat(e['u']), N1(e)) % d(e) == 0)), ('n', n(e) <= MAXN)] + \
        C11.inv_all(e) + C14.inv_incl(e) + C14.inv_final(e) + C14.solved_shape(e)

    def long(e):
        try:
            e['s']
            return True
        except Unsupported:
            return False

    def after_sub(e):
        return [sum_sub.inst(u(e), w(e), vdat(e['s']), N1(e)), sum_sub.inst(w(e), v(e), w(e), N1(e))]

    def entry(e):
        q = fv('q')
        return [Fact(z3.And(START(e) == e['s'], PW(e, 0) == e['w']), 'ghost assignment'), Fact(z3.ForAll([q], GS(0)[q] == z3.If(q == pos0(e), 1, 0), patterns=[GS(0)[q]]), 'ghost assignment')]

    def step(e):
        t0 = m(e) - e.head_val('e')
        w0, V = e.head_val('w'), e['v']
        a, b = fv('a'), fv('b')
        k = key(e, V)
        M = dat(e['M_red'])
        x = GS(t0 + 1)[a]
        new = MAT(k, w(e), n(e))
        return [sum_sub.inst(vdat(w0), vdat(V), w(e), N1(e)), Fact(z3.And(PV(e, t0) == V, PW(e, t0 + 1) == e['w']), 'ghost assignment'), Fact(z3.ForAll([a], x == DOT(MAT(keyax(e)[0](PV(e, t0)), vdat(PW(e, t0 + 1)), n(e))[a], GS(t0), DIM), patterns=[x]), 'ghost assignment'), mat_def(k, w(e), n(e)),
                forall_facts([a], dot_cong.inst(M[a], vdat(e.head_val('G')), new[a], GS(t0), DIM), [DOT(new[a], GS(t0), DIM)]), Cut('count of steps', GS(m(e) - e['e']) == GS(t0 + 1)),
                Cut('the matrix', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < DIM, 0 <= b, b < DIM), M[a][b] == new[a][b]), patterns=[M[a][b]])),
                Cut('one step', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), DOT(M[a], vdat(e.head_val('G')), DIM) == x), patterns=[x]))]

    def after_incl(e):
        h, g = C14.incl_levels(e)
        T = m(e) - n(e)
        k = key(e, e['w'])
        M = dat(sel(mval(e.f(IN)), k))
        a = fv('a')
        x = LOWG()[a]
        r = INCM(k)[a]
        return [incm_def(e, k), Fact(z3.ForAll([a], x == DOT(INCM(keyax(e)[0](PW(e, T)))[a], GS(T), TLN(e, g)), patterns=[x]), 'ghost assignment'), forall_facts([a], dot_cong.inst(M[a], vdat(e['G']), r, GS(T), DIM), [DOT(r, GS(T), DIM)]),
                Cut('the included numerator', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < TLN(e, h)), x == DOT(M[a], vdat(e['G']), DIM)), patterns=[x]))]

    def after_final(e):
        a = fv('a')
        if not long(e):
            M = dat(sel(vdat(e.f(FR)), m(e) - 1))
            l = total(e) - N1(e)
            return [forall_facts([a], dot_unit.inst(M[a], vdat(e['G']), sel(mval(TD(e, l)), KD(key(e, e.old('u')))), TLN(e, l)), [M[a]])]
        M = dat(sel(vdat(e.f(FR)), n(e) - 1))
        N = TLN(e, C14.deg(e, n(e)))
        F = FIN(n(e))[a]
        return [forall_facts([a], dot_cong.inst(M[a], vdat(e['G']), F, LOWG(), N), [DOT(F, LOWG(), N)])]

    def lowered(e):
        kf, kl, ka, wit = keyax(e)
        x = KD(kf(e.old('u')))
        k = kf(e['w'])
        q = fv('q')
        return kd_ax(e, e.old('u')) + [minus_ones.inst(u(e), w(e), N1(e)), C14.pole_fits.inst(m(e), n(e), d(e)), Cut('a tuple', is_tuple(e['w'], total(e) - N1(e), N1(e))), same_key(e, k, x), z3.ForAll([q], key_entry(e, e['w'], q), patterns=[ka(x, q)]), Cut('the same monomial', k == x)]
    loops = {
        0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e))), ('partial sum', e['sum'] == SUM(u(e), e['i']))], lambda e: N1(e) - e['i'], hints=lambda e: [SUM.at_pos(u(e), e['i'])], pre_hints=lambda e: [SUM.base(u(e))] + C11.running(u(e), N1(e)) + [entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])],
                post=lambda e: [exact_div2.inst(total(e), d(e)), entry_le.inst(u(e), N1(e), 0), Cut('positive', total(e) > 0), div_pos.inst(total(e), d(e)), level_fits.inst(n(e), d(e))]),
        1: Loop(lambda e: [('counter', z3.And(n(e) <= e['e'], e['e'] <= m(e)))] + wok(e) + [('lengths', vlens(e))] + numer(e) + stepped(e, t(e)) + [begins(e)] + caches(e), lambda e: e['e'] - n(e), hints=step, pre_hints=entry),
        2: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e))), ('lengths', vlens(e)), ('ones where w is positive', forall_range(0, e['i'], lambda q: v(e)[q] == z3.If(w(e)[q] > 0, 1, 0), pats=lambda q: v(e)[q])), ('partial sum', z3.And(e['sum'] == SUM(v(e), e['i']), 0 <= e['sum'], e['sum'] <= e['i']))], lambda e: N1(e) - e['i'],
                pre_hints=lambda e: [SUM.base(v(e))], hints=lambda e: [sum_eq.inst(vdat(e.head_val('v')), v(e), e.head_val('i')), SUM.at_pos(v(e), e['i'])]),
        3: Loop(lambda e: [('lengths', vlens(e)), ('sum', z3.And(e['sum'] == SUM(v(e), N1(e)), e['sum'] <= d(e))), ('below w', vbox(e, N1(e)))], lambda e: d(e) - e['sum'], pre_hints=lambda e: [prod_ge.inst(d(e), e['e'] - n(e))]),
        4: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e))), ('nothing changed yet', z3.And(e['v'] == e.pre('v'), e['sum'] == e.pre('sum'))), ('no room so far', forall_range(0, e['i'], lambda q: v(e)[q] == w(e)[q], pats=lambda q: v(e)[q]))], lambda e: N1(e) - e['i'],
                post=lambda e: [sum_plus_one.inst(vdat(e.pre('v')), v(e), e['i'], N1(e)), sum_eq.inst(v(e), w(e), N1(e)), Cut('a unit was placed', e['sum'] == e.pre('sum') + 1)]),
        5: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e))), ('partial sum', e['sum'] == SUM(w(e), e['i']))], lambda e: N1(e) - e['i'], hints=lambda e: [SUM.at_pos(w(e), e['i'])], pre_hints=lambda e: [SUM.base(w(e))] + C11.running(w(e), N1(e))),
        6: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N1(e))), ('one unit less', z3.And(vlen(e['w']) == N1(e), forall_range(0, e['i'], lambda q: w(e)[q] == u(e)[q] - 1, pats=lambda q: w(e)[q]))), ('the rest', forall_range(e['i'], N1(e), lambda q: w(e)[q] == u(e)[q], pats=lambda q: w(e)[q]))], lambda e: N1(e) - e['i'], post=lowered),
    }
    return Contract('dr/monomial_to_basis_J.cc', 'monomial_to_basis_J', None, req, ens, loops, modifies=['this.' + x for x in (C11.D, SJ, FR, IN)], fields=FIELDS, flags={'present': ['tuple_dict'], 'after': {'sub': after_sub, 'get_inclusion_matrix_J': after_incl, 'get_final_reduction_matrix_J': after_final}}, overflow=True, label='dr/monomial_to_basis_J.cc:monomial_to_basis_J', timeout=20)


def contracts():
    from . import jinit, ndcache as N, ndinit
    J = jinit.contracts()
    return J + [ndinit.init_nd(J[0]), N.get_solve_ND(True), monomial(), C14.get_final(), C14.compute_final(), C14.get_inclusion(), C14.compute_inclusion(), C11.matrix_form('dr/get_reduction_matrix_J.cc', 'get_reduction_matrix_J', C11.D, 'mat'), C11.computeJ(), get_solve_J(), C10.matrix_J(), N.solve_padic()] + C10.base()[2:] + C03.contracts()[1:]


def theorems():
    from . import jinit
    return jinit.theorems()


def lemmas():
    from . import jinit, ndinit
    return jinit.lemmas() + ndinit.lemmas() + C11.lemmas() + C14.jonly_lemmas() + [dot_unit, exact_div2, sum_eq, sum_sub, sum_plus_one, sum_ones, prod_ge, div_pos]
