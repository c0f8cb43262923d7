"""Polynomials stored as maps from exponents to coefficients (C05): the value at every point of a linear substitution is the value of
the polynomial at the transformed point, and the stored powers of f have the powers of the value of f.

Coefficients stand for any integer lifting them (only ring operations occur), so equal values at every integer point make equal
polynomials over every coefficient ring."""
from .expand import *
from .expand import lemmas as expand_lemmas, contracts as expand_contracts
from ..engine import Sorts

_kinds = {}


class Kind:
    """polynomials with coefficients of type T: the sort of the map, the value at a point, sums after one key changes"""

    def __init__(s, T):
        s.T = T
        s.type = ty(f'map<Vec<int64_t>, {T}>')
        s.sort = Sorts().sort(s.type)
        s.ES_ = RecDef('value_of_polynomial_' + T, [s.sort, ARR, INT], INT, lambda m, u, N: z3.IntVal(0), lambda m, u, N, i, r: r + MON(u, MKEY(dom(m), i), N) * sel(mval(m), MKEY(dom(m), i)))
        s.ES = s.ES_.fn
        s.NEWKEY, s.NEWVALUE = grown('polynomials over ' + T, s.sort, s.ES_, lambda m, k, u, N: sel(mval(m), k), [('u', ARR), ('N', INT)])

    def value(s, m, U, N):
        return s.ES(m, U, N, MSIZE(dom(m)))


def kind(T):
    if T not in _kinds:
        _kinds[T] = Kind(T)
    return _kinds[T]


def anyU():
    return z3.Const(f'U?{fv("U")}', ARR)


def anyw():
    return z3.Const(f'w?{fv("w")}', KEYS)


def monomials(m, N, degree=None):
    """every key is an exponent of N variables, of that degree"""
    w = anyw()
    c = z3.And(KL(w) == N, pos_entries(w, N), KSUM(w, N) == degree if degree is not None else z3.And(0 <= KSUM(w, N), KSUM(w, N) <= LIM))
    return ('exponents', z3.ForAll([w], z3.Implies(sel(dom(m), w), c), patterns=[sel(dom(m), w)]))


def whole_value(K, m, N, rhs):
    U = anyU()
    x = K.value(m, U, N)
    return ('value', z3.ForAll([U], x == rhs(U), patterns=[x]))


def small(e, w, N):
    """the exponents of a monomial are at most its degree"""
    q = fv('q')
    return forall_facts([q], entry_of_sum.inst(w, q, N), [KA(w, q)])


def empty_map(e, m):
    D = dom(m)
    e.eng.enumerate_map(e.st, D)
    return Cut('nothing yet', z3.And(z3.Or(MSIZE(D) == 0, sel(D, MKEY(D, 0))), MSIZE(D) == 0))


def added(e, K, r0, r1, w, N, coef, what):
    """r1 is r0 with coef added at w: its value is that of r0 plus coef * (the monomial). what = [(name, function of U equal to coef * monomial)]"""
    D, E = dom(r0), dom(r1)
    e.eng.enumerate_map(e.st, D)
    e.eng.enumerate_map(e.st, E)
    U, t, k = anyU(), fv('t'), anyw()
    kt = MKEY(D, t)
    c1, c0 = sel(mval(r1), w), sel(mval(r0), w)
    x1, x0 = K.value(r1, U, N), K.value(r0, U, N)
    mw = MON(U, w, N)
    return [Cut('keys', E == z3.Store(D, w, True)), ordered_insert(e, D, w), Cut('this coefficient', c1 == z3.If(sel(D, w), c0, 0) + coef),
            Cut('other coefficients', z3.ForAll([k], z3.Implies(z3.And(sel(D, k), k != w), sel(mval(r1), k) == sel(mval(r0), k)), patterns=[sel(mval(r1), k)])),
            Cut('place of the key', z3.If(sel(D, w), z3.And(D == E, MPOS(D, w) >= 0, MPOS(D, w) < MSIZE(D), MKEY(D, MPOS(D, w)) == w), z3.And(MPOS(E, w) >= 0, MPOS(E, w) <= MSIZE(D), MSIZE(E) == MSIZE(D) + 1, MKEY(E, MPOS(E, w)) == w))),
            Cut('the rest', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < MSIZE(D), z3.Or(z3.Not(sel(D, w)), t != MPOS(D, w))), z3.And(sel(D, kt), kt != w, sel(mval(r1), kt) == sel(mval(r0), kt))), patterns=[kt])),
            forall_facts([U], what(U), [x1]),
            forall_facts([U], K.NEWKEY.inst(r0, r1, w, U, N, MSIZE(E)), [x1]), Cut('a new term', z3.Implies(z3.Not(sel(D, w)), z3.ForAll([U], x1 == x0 + mw * c1, patterns=[x1]))),
            forall_facts([U], K.NEWVALUE.inst(r0, r1, w, U, N, MSIZE(E)), [x1]), Cut('a term changes', z3.Implies(sel(D, w), z3.ForAll([U], x1 == x0 + mw * (c1 - c0), patterns=[x1]))),
            forall_facts([U], factorsub.inst(z3.If(sel(D, w), c1 - c0, c1), coef, mw), [x1]), Cut('one more term', z3.ForAll([U], x1 == x0 + mw * coef, patterns=[x1]))]


# ---------------------------------------------------------------- linear substitution
UK = z3.Function('unit_exponent', INT, INT, KEYS)
UKI = z3.Function('place_of_one', KEYS, INT)
mon_unit = Lemma('monomials of degree one', [('U', ARR), ('k', KEYS)] + I('i', 'n', 'j'),
                 lambda U, k, i, n, j: z3.Implies(z3.And(0 <= i, i < n, j <= n, forall_range(0, n, lambda q: KA(k, q) == z3.If(q == i, 1, 0), pats=lambda q: KA(k, q))), z3.And(MON(U, k, j) == z3.If(j > i, U[i], 1), KSUM(k, j) == z3.If(j > i, 1, 0))), induct=4,
                 facts=lambda U, k, i, n, j: [MON_.base(U, k), MON_.at_pos(U, k, j), KSUM_.base(k), KSUM_.at_pos(k, j), POW_.base(U[j - 1]), POW_.unfold(U[j - 1], z3.IntVal(0))])
mon_zero = Lemma('the constant monomial', [('U', ARR), ('k', KEYS)] + I('n', 'j'),
                 lambda U, k, n, j: z3.Implies(z3.And(j <= n, forall_range(0, n, lambda q: KA(k, q) == 0, pats=lambda q: KA(k, q))), z3.And(MON(U, k, j) == 1, KSUM(k, j) == 0)), induct=3,
                 facts=lambda U, k, n, j: [MON_.base(U, k), MON_.at_pos(U, k, j), KSUM_.base(k), KSUM_.at_pos(k, j), POW_.base(U[j - 1])])
LINE = z3.Function('transformed_point', ARR2, ARR, INT, ARR)
regroup = Lemma('regrouping three factors', I('a', 'b', 'c', 'd', 'p'), lambda a, b, c, d, p: z3.Implies(p == a * b, p * c == a * (b * c)))


def uk_ax():
    n, j, q = z3.Ints('uk!n uk!j uk!q')
    x = UK(n, j)
    return [Fact(z3.ForAll([n, j], z3.Implies(z3.And(0 <= j, j < n), z3.And(KL(x) == n, UKI(x) == j)), patterns=[x]), 'definition of unit_exponent'),
            Fact(z3.ForAll([n, j, q], z3.Implies(z3.And(0 <= j, j < n, 0 <= q, q < n), KA(x, q) == z3.If(q == j, 1, 0)), patterns=[KA(x, q)]), 'definition of unit_exponent')]


def line_ax():
    M, U, n, i = z3.Const('ln!M', ARR2), z3.Const('ln!U', ARR), z3.Int('ln!n'), z3.Int('ln!i')
    x = LINE(M, U, n)[i]
    return Fact(z3.ForAll([M, U, n, i], x == DOT(M[i], U, n), patterns=[x]), 'definition of transformed_point')


def substitution(T, src, text=None, use_only=False):
    K = kind(T)
    n = lambda e: acc('nr', e['M'])
    f, M = (lambda e: e.old('f')), (lambda e: dat(e['M']))
    res = lambda e: e['result']
    H, Hn = (lambda e: e['H']), (lambda e: e['Hnew'])
    L = lambda e, U: LINE(M(e), U, n(e))
    ev = lambda e, m, U: K.value(m, U, n(e))
    kf = lambda e: e['itf'].key
    row = lambda e, i: sel(vdat(e['Mvec']), i)
    same = lambda e: ('polynomial', e['f'] == f(e))

    def req(e):
        return [('square', z3.And(acc('nc', e['M']) == n(e), 0 <= n(e), n(e) <= LIM)), monomials(e['f'], n(e))]

    def ens(e):
        return [monomials(e.result, n(e)), whole_value(K, e.result, n(e), lambda U: K.value(f(e), L(e, U), n(e)))]

    def unit_vectors(e, k):
        q, t = fv('q'), fv('t')
        x = sel(vdat(e['X']), t)
        return [('X', vlen(e['X']) == n(e)), ('unit vectors', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), key(e, x) == UK(n(e), t)), patterns=[x]))]

    def scratch(e):
        return ('scratch vector', z3.And(vlen(e['monomial']) == n(e), forall_range(0, n(e), lambda q: sel(vdat(e['monomial']), q) == 0, pats=lambda q: sel(vdat(e['monomial']), q))))

    def ukeys(e):
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n(e))), scratch(e)] + unit_vectors(e, e['i'])

    def ukeys_step(e):
        i = e.head_val('i')
        x = sel(vdat(e['X']), i)
        q, t = fv('q'), fv('t')
        x0, x1 = (sel(vdat(y), t) for y in (e.head_val('X'), e['X']))
        return uk_ax() + [forall_facts([q], key_entry(e, x, q), [KA(key(e, x), q)]), Cut('this vector', z3.And(vlen(x) == n(e), forall_range(0, n(e), lambda q: sel(vdat(x), q) == z3.If(q == i, 1, 0), pats=lambda q: sel(vdat(x), q)))), same_key(e, key(e, x), UK(n(e), i)), Cut('its key', key(e, x) == UK(n(e), i)),
                          Cut('the others', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < i), x1 == x0), patterns=[x1]))]

    # ---- rows of M as linear forms
    def linear(e, m, i, j):
        """m is the linear form with the first j entries of row i"""
        w, U = anyw(), anyU()
        x = K.value(m, U, n(e))
        return z3.And(z3.ForAll([w], z3.Implies(sel(dom(m), w), z3.And(w == UK(n(e), UKI(w)), 0 <= UKI(w), UKI(w) < j)), patterns=[sel(dom(m), w)]), z3.ForAll([U], x == DOT(M(e)[i], U, j), patterns=[x]))

    def rows_done(e, i):
        t = fv('t')
        x = row(e, t)
        return [('rows', z3.And(vlen(e['Mvec']) == n(e), z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < i), linear(e, x, t, n(e))), patterns=[x]))),
                ('rows to come', z3.ForAll([t], z3.Implies(z3.And(i <= t, t < n(e)), dom(x) == z3.K(KEYS, False)), patterns=[x]))]

    def rows(e):
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n(e)))] + unit_vectors(e, n(e)) + rows_done(e, e['i'])

    def entries_of_row(e):
        t = fv('t')
        x = row(e, t)
        i = e['i']
        return [('counter', z3.And(0 <= e['j'], e['j'] <= n(e))), ('place', z3.And(0 <= i, i < n(e)))] + unit_vectors(e, n(e)) + [('rows', z3.And(vlen(e['Mvec']) == n(e), z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < i), linear(e, x, t, n(e))), patterns=[x]))),
            ('rows to come', z3.ForAll([t], z3.Implies(z3.And(i < t, t < n(e)), dom(x) == z3.K(KEYS, False)), patterns=[x])), ('this row', linear(e, row(e, i), i, e['j']))]

    def row_pre(e):
        U = anyU()
        m = row(e, e['i'])
        return [Cut('still empty', dom(m) == z3.K(KEYS, False)), empty_map(e, m), K.ES_.base_ax(), DOT.base_ax()]

    def row_step(e):
        i, j = e['i'], e.head_val('j')
        v0, v1 = e.head_val('Mvec'), e['Mvec']
        m0, m1 = sel(vdat(v0), i), sel(vdat(v1), i)
        w = UK(n(e), j)
        U, t = anyU(), fv('t')
        x1, x0 = ev(e, m1, U), ev(e, m0, U)
        c = M(e)[i][j]
        y0, y1 = sel(vdat(v0), t), sel(vdat(v1), t)
        return uk_ax() + [Cut('a new key', z3.Not(sel(dom(m0), w))), Cut('other rows', z3.ForAll([t], z3.Implies(t != i, y1 == y0), patterns=[y1])), forall_facts([U], mon_unit.inst(U, w, j, n(e), n(e)), [MON(U, w, n(e))])] + \
            added(e, K, m0, m1, w, n(e), c, lambda U: mon_unit.inst(U, w, j, n(e), n(e))) + [forall_facts([U], DOT.unfold(M(e)[i], U, j), [x1]), forall_facts([U], turn.inst(MON(U, w, n(e)), U[j], c), [x1]), Cut('one more entry', z3.ForAll([U], x1 == DOT(M(e)[i], U, z3.simplify(j + 1)), patterns=[x1]))]

    # ---- the substitution
    common = lambda e: [same(e)] + rows_done(e, n(e))

    def outer(e):
        it = e['itf']
        return common(e) + [('place', z3.And(0 <= it.pos, it.pos <= MSIZE(dom(f(e))))), monomials(res(e), n(e)), whole_value(K, res(e), n(e), lambda U: K.ES(f(e), L(e, U), n(e), it.pos))]

    def outer_pre(e):
        return [empty_map(e, res(e)), K.ES_.base_ax()]

    def outer_step(e):
        it = e.head_val('itf')
        U = anyU()
        x1 = ev(e, res(e), U)
        return [forall_facts([U], K.ES_.unfold(f(e), L(e, U), n(e), it.pos), [x1])]

    def coefs(e):
        return sel(mval(f(e)), kf(e))

    def variables(e):
        i = e['i']
        return [('counter', z3.And(0 <= i, i <= n(e))), monomials(H(e), n(e), KSUM(kf(e), i)), whole_value(K, H(e), n(e), lambda U: coefs(e) * MON(L(e, U), kf(e), i))]

    def entries_f(e):
        q = fv('q')
        x = e.eng.key_value(e.st, kf(e), VT)
        return [Cut('a monomial of f', z3.And(KL(kf(e)) == n(e), pos_entries(kf(e), n(e)), KSUM(kf(e), n(e)) <= LIM)), Cut('its exponents', z3.And(vlen(x) == n(e), forall_range(0, n(e), lambda q: z3.And(sel(vdat(x), q) == KA(kf(e), q), KA(kf(e), q) >= 0), pats=lambda q: sel(vdat(x), q))))]

    def variables_pre(e):
        U = anyU()
        D, w = dom(H(e)), key(e, e['zero'])
        q = fv('q')
        z = mk(H(e).sort(), z3.K(KEYS, False), mval(H(e)))
        x1 = ev(e, H(e), U)
        return entries_f(e) + [forall_facts([q], key_entry(e, e['zero'], q), [KA(w, q)]), Cut('the constant monomial', z3.And(KL(w) == n(e), forall_range(0, n(e), lambda q: KA(w, q) == 0, pats=lambda q: KA(w, q)))), KSUM_.base(kf(e)), MON_.base_ax(), empty_map(e, z), K.ES_.base_ax(),
            forall_facts([U], mon_zero.inst(U, w, n(e), n(e)), [MON(U, w, n(e))]), mon_zero.inst(z3.K(INT, z3.IntVal(0)), w, n(e), n(e)), Cut('degree zero', KSUM(w, n(e)) == 0)] + added(e, K, z, H(e), w, n(e), coefs(e), lambda U: mon_zero.inst(U, w, n(e), n(e))) + \
            [Cut('its value', z3.ForAll([U], z3.And(ev(e, z, U) == 0, MON(U, w, n(e)) == 1), patterns=[x1])), forall_facts([U], times_one.inst(MON(U, w, n(e)), coefs(e)), [x1])]

    def variables_step(e):
        i = e.head_val('i')
        U = anyU()
        x1 = ev(e, H(e), U)
        w = anyw()
        return [KSUM_.unfold(kf(e), i), forall_facts([U], MON_.unfold(L(e, U), kf(e), i), [x1]), forall_facts([U], regroup3.inst(coefs(e), MON(L(e, U), kf(e), i), POW(L(e, U)[i], KA(kf(e), i)), MON(L(e, U), kf(e), z3.simplify(i + 1))), [x1])]

    def powers(e):
        i, j = e['i'], e['j']
        return [('counter', z3.And(0 <= j, j <= KA(kf(e), i))), monomials(H(e), n(e), KSUM(kf(e), i) + j), whole_value(K, H(e), n(e), lambda U: (coefs(e) * MON(L(e, U), kf(e), i)) * POW(L(e, U)[i], j))]

    def powers_pre(e):
        i = e['i']
        U = anyU()
        x1 = ev(e, H(e), U)
        return entries_f(e) + [entry_of_sum.inst(kf(e), i, n(e)), forall_facts([U], POW_.base(L(e, U)[i]), [x1]), forall_facts([U], times1.inst(coefs(e) * MON(L(e, U), kf(e), i), POW(L(e, U)[i], z3.IntVal(0))), [x1])]

    def powers_step(e):
        i, j = e['i'], e.head_val('j')
        U = anyU()
        x1 = ev(e, H(e), U)
        h0 = e.head_val('H')
        m = row(e, i)
        A = coefs(e) * MON(L(e, U), kf(e), i)
        l, P, P1 = L(e, U)[i], POW(L(e, U)[i], j), POW(L(e, U)[i], z3.simplify(j + 1))
        return [line_ax(), Cut('the product', z3.ForAll([U], x1 == ev(e, h0, U) * ev(e, m, U), patterns=[x1])), Cut('the factors', z3.ForAll([U], z3.And(ev(e, h0, U) == A * P, ev(e, m, U) == l), patterns=[x1])), forall_facts([U], POW_.unfold(l, j), [x1]), forall_facts([U], twofactors.inst(A, P, l, P1, ev(e, h0, U), ev(e, m, U)), [x1])]

    # ---- the product
    def degree(e):
        return KSUM(kf(e), e['i']) + e['j'] + 1

    def product(e):
        it = e['itH']
        return [('place', z3.And(0 <= it.pos, it.pos <= MSIZE(dom(H(e))))), monomials(Hn(e), n(e), degree(e)), whole_value(K, Hn(e), n(e), lambda U: K.ES(H(e), U, n(e), it.pos) * ev(e, row(e, e['i']), U))]

    def product_pre(e):
        return [empty_map(e, Hn(e)), K.ES_.base_ax()]

    def product_step(e):
        it, U = e.head_val('itH'), anyU()
        nxt = K.ES(H(e), U, n(e), z3.simplify(it.pos + 1))
        return [forall_facts([U], K.ES_.unfold(H(e), U, n(e), it.pos), [nxt]), forall_facts([U], plus_times.inst(K.ES(H(e), U, n(e), it.pos), MON(U, it.key, n(e)) * sel(mval(H(e)), it.key), ev(e, row(e, e['i']), U), nxt), [nxt])]

    def rowterm(e, U):
        return MON(U, e['itH'].key, n(e)) * sel(mval(H(e)), e['itH'].key)

    def line_product(e):
        it, im = e['itH'], e['itX']
        m = row(e, e['i'])
        return [('place', z3.And(0 <= im.pos, im.pos <= MSIZE(dom(m)))), monomials(Hn(e), n(e), degree(e)), whole_value(K, Hn(e), n(e), lambda U: K.ES(H(e), U, n(e), it.pos) * ev(e, m, U) + rowterm(e, U) * K.ES(m, U, n(e), im.pos))]

    def line_head(e):
        g, h, i = e['itX'].key, e['itH'].key, e['i']
        x, y = e.eng.key_value(e.st, g, VT), e.eng.key_value(e.st, h, VT)
        t = UKI(g)
        U0 = z3.K(INT, z3.IntVal(0))
        return uk_ax() + [Cut('a unit exponent', z3.And(g == UK(n(e), t), 0 <= t, t < n(e))), Cut('its entries', z3.And(KL(g) == n(e), forall_range(0, n(e), lambda q: KA(g, q) == z3.If(q == t, 1, 0), pats=lambda q: KA(g, q)))), mon_unit.inst(U0, g, t, n(e), n(e)), Cut('its degree', KSUM(g, n(e)) == 1),
                Cut('this monomial', z3.And(KL(h) == n(e), pos_entries(h, n(e)), KSUM(h, n(e)) == degree(e) - 1)), small(e, h, n(e)), ksum_mono.inst(kf(e), i + 1, n(e)), KSUM_.unfold(kf(e), i), Cut('degrees', z3.And(degree(e) <= LIM, KSUM(h, n(e)) <= LIM)), Cut('lengths', z3.And(vlen(x) == n(e), vlen(y) == n(e))),
                Cut('entries of the unit', forall_range(0, n(e), lambda q: z3.And(sel(vdat(x), q) == KA(g, q), 0 <= sel(vdat(x), q), sel(vdat(x), q) <= 1), pats=lambda q: sel(vdat(x), q))),
                Cut('entries of the key', forall_range(0, n(e), lambda q: z3.And(sel(vdat(y), q) == KA(h, q), 0 <= sel(vdat(y), q), sel(vdat(y), q) <= LIM), pats=lambda q: sel(vdat(y), q)))]

    def line_step(e):
        it, im = e['itH'], e.head_val('itX')
        m = row(e, e['i'])
        return product_of_terms(e, K, H(e), it.key, m, im, e.head_val('Hnew'), Hn(e), n(e), degree(e), lambda U: K.ES(H(e), U, n(e), it.pos) * ev(e, m, U), lambda U: rowterm(e, U))

    # ---- collecting
    def collect(e):
        it = e['itH']
        return [('place', z3.And(0 <= it.pos, it.pos <= MSIZE(dom(H(e))))), monomials(res(e), n(e)), whole_value(K, res(e), n(e), lambda U: K.ES(f(e), L(e, U), n(e), e['itf'].pos) + K.ES(H(e), U, n(e), it.pos))]

    def collect_step(e):
        it = e.head_val('itH')
        U = anyU()
        r0, r1 = e.head_val('result'), res(e)
        x1 = ev(e, r1, U)
        return [Cut('this key', z3.And(KL(it.key) == n(e), pos_entries(it.key, n(e)), KSUM(it.key, n(e)) == KSUM(kf(e), n(e))))] + added(e, K, r0, r1, it.key, n(e), sel(mval(H(e)), it.key), lambda U: K.ES_.unfold(H(e), U, n(e), it.pos))
    loops = {0: Loop(ukeys, lambda e: n(e) - e['i'], hints=ukeys_step),
             1: Loop(rows, lambda e: n(e) - e['i']),
             2: Loop(entries_of_row, lambda e: n(e) - e['j'], pre_hints=row_pre, hints=row_step),
             3: Loop(outer, lambda e: MSIZE(dom(f(e))) - e['itf'].pos, pre_hints=outer_pre, hints=outer_step),
             4: Loop(variables, lambda e: n(e) - e['i'], pre_hints=variables_pre, head=entries_f, hints=variables_step),
             5: Loop(powers, lambda e: KA(kf(e), e['i']) - e['j'], pre_hints=powers_pre, hints=powers_step),
             6: Loop(product, lambda e: MSIZE(dom(H(e))) - e['itH'].pos, pre_hints=product_pre, hints=product_step),
             7: Loop(line_product, lambda e: MSIZE(dom(row(e, e['i']))) - e['itX'].pos, pre_hints=lambda e: [K.ES_.base_ax()], head=line_head, hints=line_step),
             8: Loop(collect, lambda e: MSIZE(dom(H(e))) - e['itH'].pos, pre_hints=lambda e: [K.ES_.base_ax()], hints=collect_step)}
    return Contract(src, 'change_of_variables', [f'map<vec<i64>,{T}>', f'mat<{T}>'], req, ens, loops, label=f'tools.h:change_of_variables<{T}>', text=text, use_only=use_only, overflow=True)


turn = Lemma('turning a product', I('p', 'u', 'c'), lambda p, u, c: z3.Implies(p == u, p * c == c * u))
regroup3 = Lemma('a monomial times a power', I('c', 'm', 'p', 'q'), lambda c, m, p, q: z3.Implies(q == m * p, (c * m) * p == c * q))
times1 = Lemma('one as a factor', I('x', 'y'), lambda x, y: z3.Implies(y == 1, x * y == x))
twofactors = Lemma('one power more', I('a', 'p', 'l', 'q', 'x', 'y'), lambda a, p, l, q, x, y: z3.Implies(z3.And(x == a * p, y == l, q == l * p), x * y == a * q))
commute = Lemma('products of terms', I('M', 'c', 'h', 'm', 'a', 'b'), lambda M, c, h, m, a, b: z3.Implies(z3.And(c == h * m, M == a * b), M * c == (a * h) * (b * m)))


def product_of_terms(e, K, mh, h, mm, im, r0, r1, N, degree, base, rowterm, K2=None):
    """the product of the term of h in mh and of the term at im in mm was added to r0: the invariant of the inner loop of a product"""
    K2 = K2 or K
    g = im.key
    w = key(e, e['monomial'])
    U, q = anyU(), fv('q')
    ch, cm = sel(mval(mh), h), sel(mval(mm), g)
    mhU, mgU, mw = (MON(U, y, N) for y in (h, g, w))
    x1, x0 = K.value(r1, U, N), K.value(r0, U, N)
    es1 = K2.ES(mm, U, N, z3.simplify(im.pos + 1))
    U0 = z3.K(INT, z3.IntVal(0))
    k = anyw()
    return [forall_facts([q], key_entry(e, e['monomial'], q), [KA(w, q)]), Cut('sum of the exponents', z3.And(KL(w) == N, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(KA(w, q) == KA(h, q) + KA(g, q), KA(h, q) >= 0, KA(g, q) >= 0)), patterns=[KA(w, q)]))), mon_sum.inst(U0, h, g, w, N), Cut('degree', KSUM(w, N) == degree),
            forall_facts([U], mon_sum.inst(U, h, g, w, N), [mw]), Cut('monomial', z3.ForAll([U], mw == mhU * mgU, patterns=[mw]))] + added(e, K, r0, r1, w, N, ch * cm, lambda U: K2.ES_.unfold(mm, U, N, im.pos)) + \
        [forall_facts([U], commute.inst(mw, ch * cm, ch, cm, mhU, mgU), [x1]), Cut('one more product', z3.ForAll([U], x1 == x0 + (mhU * ch) * (mgU * cm), patterns=[x1])),
         forall_facts([U], K2.ES_.unfold(mm, U, N, im.pos), [es1]), forall_facts([U], times_plus.inst(K2.ES(mm, U, N, im.pos), mgU * cm, rowterm(U), es1), [es1])]


def lemmas():
    return [mon_unit, mon_zero, regroup, turn, regroup3, times1, twofactors, commute] + [l for T in _kinds for l in (_kinds[T].NEWKEY, _kinds[T].NEWVALUE)]


# ---------------------------------------------------------------- powers of f
FIELDS_F = {'verbose': 'bool', 'n': 'int64_t', 'd': 'int64_t', 'p': 'int64_t', 'precision': 'int64_t', 'dR.f': 'map<Vec<int64_t>, ZZ_p>', 'fpow': 'Vec<map<Vec<int64_t>, ZZ_p>>', 'dR.n': 'int64_t', 'dR.d': 'int64_t', 'dR.p': 'int64_t', 'dR.precision': 'int64_t', 'dR.verbose': 'bool'}


def equal_maps(K):
    return Lemma('equal coefficients, equal values over ' + K.T, [('m', K.sort), ('r', K.sort), ('u', ARR)] + I('N', 'i'), lambda m, r, u, N, i: z3.Implies(z3.And(dom(m) == dom(r), forall_range(0, i, lambda t: sel(mval(m), MKEY(dom(m), t)) == sel(mval(r), MKEY(dom(m), t)), pats=lambda t: MKEY(dom(m), t))), K.ES(m, u, N, i) == K.ES(r, u, N, i)), induct=4,
                 facts=lambda m, r, u, N, i: [K.ES_.base(m, u, N), K.ES_.base(r, u, N), K.ES_.at_pos(m, u, N, i), K.ES_.at_pos(r, u, N, i)])


KP = kind('ZZ_p')
EQUAL = equal_maps(KP)


def powers_ok(e, v, k):
    """the first k entries of v are the powers of f"""
    t, w, U = fv('t'), anyw(), anyU()
    N, d, f = e.f('n') + 1, e.f('d'), e.f('dR.f')
    m = sel(vdat(v), t)
    x = KP.value(m, U, N)
    return [('powers: exponents', z3.ForAll([t, w], z3.Implies(z3.And(0 <= t, t < k, sel(dom(m), w)), z3.And(KL(w) == N, pos_entries(w, N), KSUM(w, N) == t * d)), patterns=[sel(dom(m), w)])),
            ('powers: values', z3.ForAll([t, U], z3.Implies(z3.And(0 <= t, t < k), x == POW(KP.value(f, U, N), t)), patterns=[x]))]


def inv_f(e):
    return [('n and d', z3.And(0 <= e.f('n'), 1 <= e.f('d'), e.f('n') < LIM, e.f('d') <= LIM)), monomials(e.f('dR.f'), e.f('n') + 1, e.f('d'))]


def inv_fpow(e):
    return [('at least one power', vlen(e.f('fpow')) >= 1)] + powers_ok(e, e.f('fpow'), vlen(e.f('fpow')))


mono_prod = Lemma('multiples grow', I('j', 'k', 'd'), lambda j, k, d: z3.Implies(z3.And(0 <= j, j <= k, d >= 0), z3.And(0 <= j * d, j * d <= k * d)), facts=lambda j, k, d: [prodpos.inst(k - j, d), prodpos.inst(j, d)])
kd_step = Lemma('one multiple more', I('k', 'd'), lambda k, d: z3.And((k - 1) * d + d == k * d, (k + 1) * d == k * d + d))


def powers(use_only=False):
    N, d, f, v = (lambda e: e.f('n') + 1), (lambda e: e.f('d')), (lambda e: e.f('dR.f')), (lambda e: e.f('fpow'))
    old = lambda e: e.oldf('fpow') if hasattr(e, 'oldf') else None
    last = lambda e: sel(vdat(v(e)), e['k'] - 1)
    fv_ = lambda e, U: KP.value(f(e), U, N(e))
    Y = lambda e: e['Y']
    size = lambda e: ('degree', z3.And(e['power'] >= 0, e['power'] * d(e) <= LIM, vlen(v(e)) * d(e) <= LIM, vlen(v(e)) <= LIM, e['power'] < LIM))

    def ens(e):
        return [('enough powers', z3.And(vlen(v(e)) > e['power'], vlen(v(e)) >= 1))] + powers_ok(e, v(e), vlen(v(e)))

    def copied(e, k):
        t, w = fv('t'), anyw()
        x, y = sel(vdat(e['new_fpow']), t), sel(vdat(v(e)), t)
        return [('copied', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), dom(x) == dom(y)), patterns=[x])), ('copied values', z3.ForAll([t, w], z3.Implies(z3.And(0 <= t, t < k, sel(dom(x), w)), sel(mval(x), w) == sel(mval(y), w)), patterns=[sel(mval(x), w)])),
                ('to be copied', z3.ForAll([t], z3.Implies(z3.And(k <= t, t < vlen(v(e))), dom(x) == z3.K(KEYS, False)), patterns=[x]))]

    def copy(e):
        return [('counter', z3.And(0 <= e['k'], e['k'] <= vlen(v(e)))), ('length', vlen(e['new_fpow']) == vlen(v(e)))] + copied(e, e['k'])

    def copy_step(e):
        k = e.head_val('k')
        x, x0, y = sel(vdat(e['new_fpow']), k), sel(vdat(e.head_val('new_fpow')), k), sel(vdat(v(e)), k)
        w, t = anyw(), fv('t')
        a, b = sel(vdat(e['new_fpow']), t), sel(vdat(e.head_val('new_fpow')), t)
        return [Cut('was empty', dom(x0) == z3.K(KEYS, False)), Cut('same keys', z3.ForAll([w], sel(dom(x), w) == sel(dom(y), w), patterns=[sel(dom(x), w)])), Cut('same domain', dom(x) == dom(y)), Cut('same values', z3.ForAll([w], sel(mval(x), w) == sel(mval(y), w), patterns=[sel(mval(x), w)])), Cut('others', z3.ForAll([t], z3.Implies(t != k, a == b), patterns=[a]))]

    def copy_post(e):
        """the copies are powers of f as well"""
        t, U, w, q = fv('t'), anyU(), anyw(), fv('q')
        x, y = sel(vdat(e['new_fpow']), t), sel(vdat(v(e)), t)
        vx, vy = KP.value(x, U, N(e)), KP.value(y, U, N(e))
        D = z3.Const('cp!D', dom(x).sort())
        kt = MKEY(dom(x), q)
        e.eng.enumerate_map(e.st, dom(sel(vdat(v(e)), z3.IntVal(0))))
        return [every_key_listed(), Cut('copied coefficients', z3.ForAll([t, q], z3.Implies(z3.And(0 <= t, t < vlen(v(e)), 0 <= q, q < MSIZE(dom(x))), z3.And(dom(x) == dom(y), sel(mval(x), kt) == sel(mval(y), kt))), patterns=[kt])),
                Cut('same keys', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < vlen(v(e))), z3.And(MSIZE(dom(x)) >= 0, dom(x) == dom(y))), patterns=[x])), forall_facts([t, U], EQUAL.inst(x, y, U, N(e), MSIZE(dom(x))), [vx]), Cut('equal values', z3.ForAll([t, U], z3.Implies(z3.And(0 <= t, t < vlen(v(e))), vx == KP.ES(y, U, N(e), MSIZE(dom(x)))), patterns=[vx]), last=3), Cut('same values', z3.ForAll([t, U], z3.Implies(z3.And(0 <= t, t < vlen(v(e))), vx == vy), patterns=[vx]), last=3), Cut('copied powers', z3.ForAll([t, U], z3.Implies(z3.And(0 <= t, t < vlen(v(e))), vx == POW(fv_(e, U), t)), patterns=[vx])),
                Cut('copied exponents', z3.ForAll([t, w], z3.Implies(z3.And(0 <= t, t < vlen(v(e)), sel(dom(x), w)), z3.And(KL(w) == N(e), pos_entries(w, N(e)), KSUM(w, N(e)) == t * d(e))), patterns=[sel(dom(x), w)]))]

    def build(e):
        return [('counter', z3.And(e['k'] == vlen(v(e)), 1 <= e['k'], e['k'] <= e['power'] + 1))] + powers_ok(e, v(e), e['k'])

    def build_head(e):
        return [mono_prod.inst(e['k'], e['power'], d(e)), mono_prod.inst(e['k'] - 1, e['k'], d(e)), kd_step.inst(e['k'], d(e)), Cut('degrees', z3.And(0 <= (e['k'] - 1) * d(e), (e['k'] - 1) * d(e) + d(e) == e['k'] * d(e), e['k'] * d(e) <= LIM))]

    def build_step(e):
        k = e.head_val('k')
        v0, y = e.head_val('this.fpow'), sel(vdat(v(e)), k)
        U, t = anyU(), fv('t')
        a, b = sel(vdat(v(e)), t), sel(vdat(v0), t)
        x = KP.value(y, U, N(e))
        p0 = POW(fv_(e, U), k - 1)
        m = sel(vdat(v0), k - 1)
        return [Cut('others', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), a == b), patterns=[a])), Cut('the product', z3.ForAll([U], x == KP.value(m, U, N(e)) * fv_(e, U), patterns=[x])), Cut('the last power', z3.ForAll([U], KP.value(m, U, N(e)) == p0, patterns=[x])),
                forall_facts([U], POW_.at_pos(fv_(e, U), k), [x]), forall_facts([U], turn.inst(KP.value(m, U, N(e)), p0, fv_(e, U)), [x]), Cut('this power', z3.ForAll([U], x == POW(fv_(e, U), k), patterns=[x]))]

    def rows(e):
        it = e['itfkminus1']
        return [('place', z3.And(0 <= it.pos, it.pos <= MSIZE(dom(last(e))))), monomials(Y(e), N(e), e['k'] * d(e)), whole_value(KP, Y(e), N(e), lambda U: KP.ES(last(e), U, N(e), it.pos) * fv_(e, U))]

    def rows_pre(e):
        return [empty_map(e, Y(e)), KP.ES_.base_ax()]

    def rows_step(e):
        it, U = e.head_val('itfkminus1'), anyU()
        nxt = KP.ES(last(e), U, N(e), z3.simplify(it.pos + 1))
        return [forall_facts([U], KP.ES_.unfold(last(e), U, N(e), it.pos), [nxt]), forall_facts([U], plus_times.inst(KP.ES(last(e), U, N(e), it.pos), MON(U, it.key, N(e)) * sel(mval(last(e)), it.key), fv_(e, U), nxt), [nxt])]

    def rowterm(e, U):
        return MON(U, e['itfkminus1'].key, N(e)) * sel(mval(last(e)), e['itfkminus1'].key)

    def terms(e):
        it, im = e['itfkminus1'], e['itf']
        return [('place', z3.And(0 <= im.pos, im.pos <= MSIZE(dom(f(e))))), monomials(Y(e), N(e), e['k'] * d(e)), whole_value(KP, Y(e), N(e), lambda U: KP.ES(last(e), U, N(e), it.pos) * fv_(e, U) + rowterm(e, U) * KP.ES(f(e), U, N(e), im.pos))]

    def terms_head(e):
        g, h = e['itf'].key, e['itfkminus1'].key
        x, y = e.eng.key_value(e.st, g, VT), e.eng.key_value(e.st, h, VT)
        out = [Cut('two monomials', z3.And(KL(g) == N(e), pos_entries(g, N(e)), KSUM(g, N(e)) == d(e), KL(h) == N(e), pos_entries(h, N(e)), KSUM(h, N(e)) == (e['k'] - 1) * d(e))), small(e, h, N(e)), small(e, g, N(e)), Cut('lengths', z3.And(vlen(x) == N(e), vlen(y) == N(e)))]
        for z, l, nm in ((x, g, 'f'), (y, h, 'the power')):
            out.append(Cut('entries: ' + nm, forall_range(0, N(e), lambda q: z3.And(sel(vdat(z), q) == KA(l, q), 0 <= sel(vdat(z), q), sel(vdat(z), q) <= LIM), pats=lambda q: sel(vdat(z), q))))
        return out

    def terms_step(e):
        it, im = e['itfkminus1'], e.head_val('itf')
        e2 = Renamed(e, 'u')
        return product_of_terms(e2, KP, last(e), it.key, f(e), im, e.head_val('Y'), Y(e), N(e), e['k'] * d(e), None, lambda U: rowterm(e, U))
    loops = {0: Loop(copy, lambda e: vlen(v(e)) - e['k'], hints=copy_step, post=copy_post),
             1: Loop(build, lambda e: e['power'] + 1 - e['k'], head=build_head, hints=build_step),
             2: Loop(rows, lambda e: MSIZE(dom(last(e))) - e['itfkminus1'].pos, pre_hints=rows_pre, hints=rows_step),
             3: Loop(terms, lambda e: MSIZE(dom(f(e))) - e['itf'].pos, pre_hints=lambda e: [KP.ES_.base_ax()], head=terms_head, hints=terms_step)}
    return Contract('hypersurface/compute_fpow.cc', 'compute_fpow', None, lambda e: inv_f(e) + inv_fpow(e) + [size(e)], ens, loops, modifies=['this.fpow'], fields=FIELDS_F, label='hypersurface/compute_fpow.cc:compute_fpow', use_only=use_only, overflow=True)


class Renamed:
    """the environment with another name for the vector that holds the new exponent"""

    def __init__(s, e, nm):
        s.e, s.nm = e, nm

    def __getitem__(s, k):
        return s.e[s.nm if k == 'monomial' else k]

    def __getattr__(s, k):
        return getattr(s.e, k)


def every_key_listed():
    """every index of a traversal below the size gives a key of the map (instances for all domains)"""
    D, q = z3.Const('ek!D', DOMK), z3.Int('ek!q')
    return Fact(z3.And(z3.ForAll([D], MSIZE(D) >= 0, patterns=[MSIZE(D)]), z3.ForAll([D, q], z3.Implies(z3.And(0 <= q, q < MSIZE(D)), sel(D, MKEY(D, q))), patterns=[MKEY(D, q)])), 'library: std::map is traversed in key order')


_lemmas0 = lemmas


def lemmas():
    return _lemmas0() + [EQUAL, mono_prod, kd_step]


ZEROKEY = z3.Function('constant_monomial', INT, KEYS)


def zk_ax():
    n, q = z3.Ints('zk!n zk!q')
    x = ZEROKEY(n)
    return [Fact(z3.ForAll([n], z3.Implies(n >= 0, KL(x) == n), patterns=[x]), 'definition of constant_monomial'), Fact(z3.ForAll([n, q], z3.Implies(z3.And(0 <= q, q < n), KA(x, q) == 0), patterns=[KA(x, q)]), 'definition of constant_monomial')]


def start():
    """a new hypersurface stores f^0 = 1"""
    N = lambda e: e.f('n') + 1

    def req(e):
        return [('n and d', z3.And(0 <= e.f('dR.n'), e.f('dR.n') < LIM)), ('newly constructed', z3.And(vlen(e.f('fpow')) == 0, dom(sel(vdat(e.f('fpow')), 0)) == z3.K(KEYS, False)))]

    def ens(e):
        return [('parameters', z3.And(*[e.f(x) == e.f('dR.' + x) for x in ('n', 'd', 'p', 'precision', 'verbose')])), ('one power', vlen(e.f('fpow')) == 1)] + powers_ok(e, e.f('fpow'), vlen(e.f('fpow')))

    def final(e):
        U, q = anyU(), fv('q')
        m = sel(vdat(e.f('fpow')), z3.IntVal(0))
        D, w = dom(m), ZEROKEY(N(e))
        z = mk(m.sort(), z3.K(KEYS, False), mval(m))
        U0 = z3.K(INT, z3.IntVal(0))
        x = KP.value(m, U, N(e))
        fU = KP.value(e.f('dR.f'), U, N(e))
        t = fv('t')
        return zk_ax() + [Cut('the constant monomial', z3.And(KL(w) == N(e), forall_range(0, N(e), lambda q: KA(w, q) == 0, pats=lambda q: KA(w, q)))), mon_zero.inst(U0, w, N(e), N(e)), Cut('degree', KSUM(w, N(e)) == 0), empty_map(e, z), KP.ES_.base_ax(), Cut('no value yet', z3.ForAll([U], KP.value(z, U, N(e)) == 0, patterns=[x]))] + \
            added(e, KP, z, m, w, N(e), z3.IntVal(1), lambda U: mon_zero.inst(U, w, N(e), N(e))) + [Cut('value one', z3.ForAll([U], x == 1, patterns=[x])), POW_.base_ax()]
    def its_key(e):
        q, w = fv('q'), key(e, e['u'])
        return zk_ax() + [forall_facts([q], key_entry(e, e['u'], q), [KA(w, q)]), same_key(e, w, ZEROKEY(N(e))), Cut('its key', w == ZEROKEY(N(e)))]
    return Contract('hypersurface/constructors.cc', 'init_after_dR', None, req, ens, {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N(e))), ('entries', z3.And(vlen(e['u']) == N(e), forall_range(0, e['i'], lambda q: sel(vdat(e['u']), q) == 0, pats=lambda q: sel(vdat(e['u']), q))))], lambda e: N(e) - e['i'], post=its_key)},
                    modifies=['this.' + x for x in ('fpow', 'n', 'd', 'p', 'precision', 'verbose')], fields=FIELDS_F, ret_hint=final, label='hypersurface/constructors.cc:init_after_dR', overflow=True)
