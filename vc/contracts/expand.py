"""change_of_variables_monomial(u, v) expands prod_i (y_i + x v_i)^u_i: at every point, the sum over the keys of the result of
coefficient times monomial is that product. The engine of the proof is the binomial theorem, proved from Pascal's rule."""
from .ndmodel import *
from .math import I, FACT, fact_pos, CHO, cho_def, choose_fact, POW, POW_
from . import C01, C02, C04

SRC = 'tools/change_of_variables_monomial.cc'
PTS = z3.Function('point_on_the_line', ARR, ARR, INT, ARR)
KVEC = z3.Function('entries_of_the_key', KEYS, ARR)


def kvec_ax():
    k, i = z3.Const('kv!k', KEYS), z3.Int('kv!i')
    return Fact(z3.ForAll([k, i], KVEC(k)[i] == KA(k, i), patterns=[KVEC(k)[i]]), 'definition of entries_of_the_key')


def pts_ax():
    u, v, x, i = z3.Const('pt!u', ARR), z3.Const('pt!v', ARR), z3.Int('pt!x'), z3.Int('pt!i')
    y = PTS(u, v, x)[i]
    return Fact(z3.ForAll([u, v, x, i], y == u[i] + x * v[i], patterns=[y]), 'definition of point_on_the_line')


# sum over t < j of C(u, t) v^t (y^(u-t) x^t)
BS_ = RecDef('binomial_sum', [INT, INT, INT, INT], INT, lambda y, x, v, u: z3.IntVal(0), lambda y, x, v, u, t, r: r + (CHO(u, t) * POW(v, t)) * (POW(y, u - t) * POW(x, t)))
BS = BS_.fn
alg = Lemma('algebra of a term of the binomial sum', I('a', 'b', 'v', 'V', 'x', 'X', 'y', 'Y', 'p', 'q', 'r', 's'),
            lambda a, b, v, V, x, X, y, Y, p, q, r, s: z3.Implies(z3.And(p == a + b, q == v * V, r == y * Y, s == x * X), (p * q) * (r * s) == y * ((b * q) * (Y * s)) + (x * v) * ((a * V) * (r * X))))
alg1 = Lemma('algebra of the last term', I('v', 'V', 'x', 'X', 'a', 'b', 'q', 's', 'r'), lambda v, V, x, X, a, b, q, s, r: z3.Implies(z3.And(a == 1, b == 1, r == 1, q == v * V, s == x * X), (a * q) * (r * s) == (x * v) * ((b * V) * (r * X))))
over = Lemma('distribution over a new term', I('y', 'x', 'a', 'b', 'c', 'd', 'p', 'q'), lambda y, x, a, b, c, d, p, q: z3.Implies(z3.And(p == a + b, q == c + d), y * p + x * q == (y * a + x * c) + (y * b + x * d)))
cho_top = Lemma('C(n,n) = 1', I('n'), lambda n: z3.And(CHO(n, n) == 1, CHO(n, n + 1) == 0), induct=0, facts=lambda n: [cho_def(n, n), cho_def(n - 1, n - 1), cho_def(n, z3.IntVal(0)), cho_def(z3.IntVal(0), n + 1), choose_fact.inst(n, n + 1)])


def _pascal(y, x, v, u, j):
    return z3.Implies(z3.And(u >= 0, j <= u), BS(y, x, v, u + 1, j + 1) == y * BS(y, x, v, u, j + 1) + (x * v) * BS(y, x, v, u, j))


def _pfacts(y, x, v, u, j):
    t = z3.simplify(j - 1)
    out = [BS_.base(y, x, v, u + 1), BS_.base(y, x, v, u), BS_.at_pos(y, x, v, u + 1, z3.simplify(j + 1)), BS_.at_pos(y, x, v, u, z3.simplify(j + 1)), BS_.at_pos(y, x, v, u, j), POW_.base(v), POW_.base(x), POW_.base(y),
           POW_.at_pos(v, j), POW_.at_pos(x, j), POW_.at_pos(y, u + 1 - j), POW_.at_pos(y, z3.simplify(u - t)), cho_def(u, t), cho_def(u + 1, z3.IntVal(0)), cho_def(u, z3.IntVal(0))]
    T = lambda u, j: (CHO(u, j) * POW(v, j)) * (POW(y, z3.simplify(u - j)) * POW(x, j))
    return out + [alg.inst(CHO(u, t), CHO(u, j), v, POW(v, t), x, POW(x, t), y, POW(y, z3.simplify(u - j)), CHO(u + 1, j), POW(v, j), POW(y, z3.simplify(u + 1 - j)), POW(x, j)),
                  over.inst(y, x * v, BS(y, x, v, u, j), T(u, j), BS(y, x, v, u, t), T(u, t), BS(y, x, v, u, z3.simplify(j + 1)), BS(y, x, v, u, j))]


pascal = Lemma('binomial sums, one power more', I('y', 'x', 'v', 'u', 'j'), _pascal, induct=4, facts=_pfacts, timeout=40)


def _topfacts(y, x, v, u):
    # (u + 1, u + 2) from (u, u + 1) and (u, u)
    q = u + 1
    T = lambda n, j: (CHO(n, j) * POW(v, j)) * (POW(y, z3.simplify(n - j)) * POW(x, j))
    return [pascal.inst(y, x, v, u, u), BS_.at_pos(y, x, v, q, u + 2), BS_.at_pos(y, x, v, u, q), cho_top.inst(u), cho_top.inst(q), POW_.base(y), POW_.at_pos(v, q), POW_.at_pos(x, q),
            alg1.inst(v, POW(v, u), x, POW(x, u), CHO(q, q), CHO(u, u), POW(v, q), POW(x, q), POW(y, 0)), lastover.inst(y, x * v, BS(y, x, v, u, q), BS(y, x, v, u, u), T(u, u))]


lastover = Lemma('collecting the last term', I('y', 'x', 'p', 'c', 'd'), lambda y, x, p, c, d: z3.Implies(p == c + d, (y * p + x * c) + x * d == (y + x) * p))
top = Lemma('binomial sums, whole', I('y', 'x', 'v', 'u'), lambda y, x, v, u: z3.Implies(u >= 0, BS(y, x, v, u + 1, u + 2) == (y + x * v) * BS(y, x, v, u, u + 1)), facts=_topfacts, timeout=40)
binomial_theorem = Lemma('binomial theorem', I('y', 'x', 'v', 'u'), lambda y, x, v, u: BS(y, x, v, u, u + 1) == POW(y + x * v, u), induct=3,
                         facts=lambda y, x, v, u: [top.inst(y, x, v, z3.simplify(u - 1)), POW_.base(y + x * v), POW_.at_pos(y + x * v, u), BS_.base(y, x, v, z3.IntVal(0)), BS_.at_pos(y, x, v, z3.IntVal(0), z3.IntVal(1)), cho_def(z3.IntVal(0), z3.IntVal(0)), POW_.base(v), POW_.base(y), POW_.base(x)])
pow_add = Lemma('powers of sums of exponents', I('b', 'x', 'y'), lambda b, x, y: z3.Implies(x >= 0, POW(b, x + y) == POW(b, x) * POW(b, y)), induct=2,
                facts=lambda b, x, y: [POW_.base(b), POW_.at_pos(b, y), POW_.at_pos(b, x + y), mulswap.inst(b, POW(b, x), POW(b, z3.simplify(y - 1)), POW(b, y))])
mulswap = Lemma('moving a factor', I('b', 'p', 'q', 'r'), lambda b, p, q, r: z3.Implies(r == b * q, b * (p * q) == p * r))
one_or = lambda c, x: z3.If(c, x, z3.IntVal(1))
mon_two = Lemma('monomials in two variables', [('U', ARR), ('k', KEYS)] + I('i', 'n', 'a', 'b', 'j'),
                lambda U, k, i, n, a, b, j: z3.Implies(z3.And(0 <= i, i < n, forall_range(0, j, lambda q: KA(k, q) == z3.If(q == i, a, z3.If(q == n, b, 0)), pats=lambda q: KA(k, q))), z3.And(MON(U, k, j) == z3.If(j > n, POW(U[i], a) * POW(U[n], b), z3.If(j > i, POW(U[i], a), 1)), KSUM(k, j) == z3.If(j > i, a, 0) + z3.If(j > n, b, 0))), induct=6,
                facts=lambda U, k, i, n, a, b, j: [MON_.base(U, k), MON_.at_pos(U, k, j), KSUM_.base(k), KSUM_.at_pos(k, j), POW_.base(U[j - 1])])
mon_sum = Lemma('monomials of sums of keys', [('U', ARR), ('k', KEYS), ('l', KEYS), ('m', KEYS)] + I('j'),
                lambda U, k, l, m, j: z3.Implies(forall_range(0, j, lambda q: z3.And(KA(m, q) == KA(k, q) + KA(l, q), KA(k, q) >= 0, KA(l, q) >= 0), pats=lambda q: KA(m, q)), z3.And(MON(U, m, j) == MON(U, k, j) * MON(U, l, j), KSUM(m, j) == KSUM(k, j) + KSUM(l, j))), induct=4,
                facts=lambda U, k, l, m, j: [f for x in (k, l, m) for f in (MON_.base(U, x), MON_.at_pos(U, x, j), KSUM_.base(x), KSUM_.at_pos(x, j))] + [pow_add.inst(U[j - 1], KA(k, j - 1), KA(l, j - 1)), four.inst(MON(U, k, j - 1), MON(U, l, j - 1), POW(U[j - 1], KA(k, j - 1)), POW(U[j - 1], KA(l, j - 1)), MON(U, m, j - 1), POW(U[j - 1], KA(m, j - 1)))])
four = Lemma('regrouping four factors', I('a', 'b', 'c', 'd', 'p', 'q'), lambda a, b, c, d, p, q: z3.Implies(z3.And(p == a * b, q == c * d), p * q == (a * c) * (b * d)))


swapped = Lemma('substituting both factors', I('x', 'y', 'p', 'c'), lambda x, y, p, c: z3.Implies(z3.And(x == p, y == c), x * y == c * p))
coef_term = Lemma('product of two terms', I('M', 'c', 'h', 'm', 'a', 'b'), lambda M, c, h, m, a, b: z3.Implies(z3.And(c == h * m, M == a * b), M * c == (a * h) * (b * m)))
plus_times = Lemma('sum times, by value', I('x', 'y', 'z', 'w'), lambda x, y, z, w: z3.Implies(w == x + y, w * z == x * z + y * z))
times_plus = Lemma('times sum', I('x', 'y', 'z', 'w'), lambda x, y, z, w: z3.Implies(w == x + y, z * w == z * x + z * y))
factorsub = Lemma('substituting the second factor', I('p', 'r', 's'), lambda p, r, s: z3.Implies(p == r, s * p == s * r))
pos_entries = lambda k, j: forall_range(0, j, lambda q: KA(k, q) >= 0, pats=lambda q: KA(k, q))
ksum_nonneg = Lemma('degrees are not negative', [('k', KEYS)] + I('j'), lambda k, j: z3.Implies(pos_entries(k, j), KSUM(k, j) >= 0), induct=1, facts=lambda k, j: [KSUM_.base(k), KSUM_.at_pos(k, j)])
ksum_mono = Lemma('partial degrees', [('k', KEYS)] + I('i', 'j'), lambda k, i, j: z3.Implies(z3.And(0 <= i, i <= j, pos_entries(k, j)), KSUM(k, i) <= KSUM(k, j)), induct=2, facts=lambda k, i, j: [KSUM_.at_pos(k, j)])
entry_of_sum = Lemma('an exponent is at most the degree', [('k', KEYS)] + I('i', 'j'), lambda k, i, j: z3.Implies(z3.And(0 <= i, i < j, pos_entries(k, j)), KA(k, i) <= KSUM(k, j)), facts=lambda k, i, j: [ksum_mono.inst(k, i + 1, j), ksum_nonneg.inst(k, i), KSUM_.unfold(k, i)])
NEWKEY, NEWVALUE = grown_ints()


# ---- sizes: at the point (1, ..., 1) every monomial is 1, so the sum there bounds every coefficient
ONES = z3.Const('all_ones', ARR)
ROOM = 1 << 62


def ones_ax():
    i = z3.Int('on!i')
    return Fact(z3.ForAll([i], ONES[i] == 1, patterns=[ONES[i]]), 'definition of all_ones')


pow_one = Lemma('powers of one', I('k'), lambda k: POW(z3.IntVal(1), k) == 1, induct=0, facts=lambda k: [POW_.base(z3.IntVal(1)), POW_.at_pos(z3.IntVal(1), k)])
pow_nonneg = Lemma('powers of non-negative numbers', I('b', 'k'), lambda b, k: z3.Implies(b >= 0, z3.And(POW(b, k) >= 0, z3.Implies(b >= 1, POW(b, k) >= 1))), induct=1, facts=lambda b, k: [POW_.base(b), POW_.at_pos(b, k), prodpos.inst(b, POW(b, z3.simplify(k - 1)))])
prodpos = Lemma('products of non-negative numbers', I('x', 'y'), lambda x, y: z3.And(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0), z3.Implies(z3.And(x >= 1, y >= 0), x * y >= y), z3.Implies(z3.And(x >= 0, y >= 1), x * y >= x)))
mon_ones = Lemma('monomials at (1, ..., 1)', [('k', KEYS)] + I('j'), lambda k, j: z3.Implies(pos_entries(k, j), MON(ONES, k, j) == 1), induct=1, facts=lambda k, j: [ones_ax(), MON_.base(ONES, k), MON_.at_pos(ONES, k, j), pow_one.inst(KA(k, j - 1))])
atone = lambda m, N, i: forall_range(0, MSIZE(dom(m)), lambda t: z3.And(sel(mval(m), MKEY(dom(m), t)) >= 0, MON(ONES, MKEY(dom(m), t), N) == 1), pats=lambda t: MKEY(dom(m), t))
esi_mono = Lemma('partial sums of coefficients', [('m', intsort())] + I('N', 'i', 'j'), lambda m, N, i, j: z3.Implies(z3.And(0 <= i, i <= j, j <= MSIZE(dom(m)), atone(m, N, j)), ESI(m, ONES, N, i) <= ESI(m, ONES, N, j)), induct=3, facts=lambda m, N, i, j: [ESI_.at_pos(m, ONES, N, j)])
esi_nonneg = Lemma('sums of coefficients', [('m', intsort())] + I('N', 'j'), lambda m, N, j: z3.Implies(z3.And(j <= MSIZE(dom(m)), atone(m, N, j)), ESI(m, ONES, N, j) >= 0), induct=2, facts=lambda m, N, j: [ESI_.base(m, ONES, N), ESI_.at_pos(m, ONES, N, j)])
coef_le = Lemma('a coefficient is at most the sum', [('m', intsort())] + I('N', 't'), lambda m, N, t: z3.Implies(z3.And(0 <= t, t < MSIZE(dom(m)), atone(m, N, t)), sel(mval(m), MKEY(dom(m), t)) <= ESI(m, ONES, N, MSIZE(dom(m)))),
                facts=lambda m, N, t: [esi_mono.inst(m, N, t + 1, MSIZE(dom(m))), esi_nonneg.inst(m, N, t), ESI_.unfold(m, ONES, N, t)])
cho_pos = Lemma('binomial coefficients are positive', I('n', 'k'), lambda n, k: z3.Implies(z3.And(0 <= k, k <= n), CHO(n, k) >= 1), facts=lambda n, k: [choose_fact.inst(n, k), fact_pos.inst(n), fact_pos.inst(k), fact_pos.inst(n - k), signs.inst(CHO(n, k), FACT(k), FACT(n - k), FACT(n))])
signs = Lemma('sign of a factor', I('c', 'a', 'b', 'f'), lambda c, a, b, f: z3.Implies(z3.And(c * a * b == f, f >= 1, a >= 1, b >= 1), c >= 1))
bs_term = Lemma('a term is at most the binomial sum', I('v', 'u', 'j', 'k'), lambda v, u, j, k: z3.Implies(z3.And(v >= 0, k <= u + 1), z3.And(BS(1, 1, v, u, k) >= 0, z3.Implies(z3.And(0 <= j, j < k), CHO(u, j) * POW(v, j) <= BS(1, 1, v, u, k)))), induct=3,
                facts=lambda v, u, j, k: [BS_.base(1, 1, v, u), BS_.at_pos(1, 1, v, u, k), pow_one.inst(z3.simplify(u - (k - 1))), pow_one.inst(z3.simplify(k - 1)), cho_pos.inst(u, k - 1), pow_nonneg.inst(v, k - 1), prodpos.inst(CHO(u, k - 1), POW(v, k - 1)), oneone.inst(CHO(u, k - 1) * POW(v, k - 1), POW(z3.IntVal(1), z3.simplify(u - (k - 1))), POW(z3.IntVal(1), z3.simplify(k - 1)))])
oneone = Lemma('factors one', I('c', 'a', 'b'), lambda c, a, b: z3.Implies(z3.And(a == 1, b == 1), c * (a * b) == c))
mon_grow = Lemma('monomials at points >= 1 grow', [('U', ARR), ('k', KEYS)] + I('i', 'j'), lambda U, k, i, j: z3.Implies(z3.And(0 <= i, i <= j, pos_entries(k, j), forall_range(0, j, lambda q: U[q] >= 1, pats=lambda q: U[q])), MON(U, k, i) <= MON(U, k, j)), induct=3,
                 facts=lambda U, k, i, j: [MON_.at_pos(U, k, j), pow_nonneg.inst(U[j - 1], KA(k, j - 1)), mon_pos.inst(U, k, j - 1), prodpos.inst(MON(U, k, j - 1), POW(U[j - 1], KA(k, j - 1)))])
mon_pos = Lemma('monomials at points >= 1 are positive', [('U', ARR), ('k', KEYS)] + I('j'), lambda U, k, j: z3.Implies(z3.And(pos_entries(k, j), forall_range(0, j, lambda q: U[q] >= 1, pats=lambda q: U[q])), MON(U, k, j) >= 1), induct=2,
                facts=lambda U, k, j: [MON_.base(U, k), MON_.at_pos(U, k, j), pow_nonneg.inst(U[j - 1], KA(k, j - 1)), prodpos.inst(MON(U, k, j - 1), POW(U[j - 1], KA(k, j - 1)))])
room = Lemma('the products of two terms fit', I('A', 'A1', 'B', 'b', 'b1', 'h', 'c', 'S', 'x'), lambda A, A1, B, b, b1, h, c, S, x: z3.Implies(z3.And(A1 == A + h, b1 == b + c, b1 <= B, A1 <= S, A >= 0, B >= 0, b >= 0, h >= 0, c >= 0, x == A * B + h * b), z3.And(0 <= h * c, 0 <= x, x + h * c <= S * B)),
              facts=lambda A, A1, B, b, b1, h, c, S, x: [prodpos.inst(h, B - b1), prodpos.inst(S - A1, B), prodpos.inst(A, B), prodpos.inst(h, b), prodpos.inst(h, c), roomalg.inst(A, B, b, h, c, S)])
roomalg = Lemma('algebra of the room', I('A', 'B', 'b', 'h', 'c', 'S'), lambda A, B, b, h, c, S: S * B - (A * B + h * b + h * c) == (S - (A + h)) * B + h * (B - (b + c)))
times_one = Lemma('times one', I('x', 'y'), lambda x, y: z3.Implies(x == 1, x * y == y))


def TERM(k, i, n, t):
    """the key of y_i^(k_i - t) x^t"""
    return z3.Function('key_of_term', KEYS, INT, INT, INT, KEYS)(k, i, n, t)


def term_ax():
    k, (i, n, t, q) = z3.Const('tm!k', KEYS), z3.Ints('tm!i tm!n tm!t tm!q')
    x = TERM(k, i, n, t)
    return [Fact(z3.ForAll([k, i, n, t], z3.Implies(n >= 0, KL(x) == n + 1), patterns=[x]), 'definition of key_of_term'),
            Fact(z3.ForAll([k, i, n, t, q], z3.Implies(z3.And(0 <= q, q <= n), KA(x, q) == z3.If(q == i, KA(k, i) - t, z3.If(q == n, t, 0))), patterns=[KA(x, q)]), 'definition of key_of_term')]


def expand(use_only=False):
    n = lambda e: vlen(e['u'])
    N = lambda e: n(e) + 1
    ku, kv = (lambda e: key(e, e['u'])), (lambda e: key(e, e['v']))
    line = lambda e, U: PTS(U, KVEC(kv(e)), U[n(e)])
    anyU = lambda: z3.Const(f'U?{fv("U")}', ARR)
    anyw = lambda: z3.Const(f'w?{fv("w")}', KEYS)
    ev = lambda e, m, U: ESI(m, U, N(e), MSIZE(dom(m)))
    H, m, Hn = (lambda e: e['H']), (lambda e: e['monomial_extended']), (lambda e: e['Hnew'])

    def value(e, mp, rhs):
        U = anyU()
        x = ev(e, mp, U)
        return [('value', z3.ForAll([U], x == rhs(U), patterns=[x]))]

    def keys(e, mp, degree):
        w = anyw()
        return [('exponents', z3.ForAll([w], z3.Implies(sel(dom(mp), w), z3.And(exponent(w, N(e)), KSUM(w, N(e)) == degree)), patterns=[sel(dom(mp), w)])), signs_ok(mp)]

    def signs_ok(mp):
        w = anyw()
        return ('coefficients are not negative', z3.ForAll([w], z3.Implies(sel(dom(mp), w), sel(mval(mp), w) >= 0), patterns=[sel(mval(mp), w)]))

    def ens(e):
        c = e.result
        return keys(e, c, KSUM(ku(e), n(e))) + value(e, c, lambda U: MON(line(e, U), ku(e), n(e)))

    def req(e):
        return [('lengths', z3.And(n(e) >= 1, n(e) < LIM, vlen(e['v']) == n(e))), ('exponents', forall_range(0, n(e), lambda i: z3.And(sel(vdat(e['u']), i) >= 0, sel(vdat(e['v']), i) >= 0), pats=lambda i: sel(vdat(e['u']), i))),
                ('degree', KSUM(ku(e), n(e)) <= LIM), ('coefficients fit', MON(line(e, ONES), ku(e), n(e)) <= ROOM)]

    def entries(e, x):
        """keys hold the entries of the vectors"""
        q = fv('q')
        return [forall_facts([q], key_entry(e, e[y], q), [sel(vdat(e[y]), q)]) for y in x] + [forall_facts([q], key_entry(e, e[y], q), [KA(key(e, e[y]), q)]) for y in x]

    zero_ok = lambda e, i: z3.And(vlen(e['zero']) == N(e), forall_range(0, i, lambda q: sel(vdat(e['zero']), q) == 0, pats=lambda q: sel(vdat(e['zero']), q)))
    # ---- outer loop
    deg = lambda e: KSUM(ku(e), e['i'])

    def outer(e):
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n(e)))] + keys(e, H(e), deg(e)) + value(e, H(e), lambda U: MON(line(e, U), ku(e), e['i']))

    def outer_pre(e):
        U = anyU()
        D, w = dom(H(e)), key(e, e['zero'])
        q = fv('q')
        z = mk(H(e).sort(), z3.K(KEYS, False), mval(H(e)))
        e.eng.enumerate_map(e.st, dom(z))
        e.eng.enumerate_map(e.st, D)
        i0 = z3.IntVal(0)
        return entries(e, ['zero', 'u', 'v']) + [Cut('the constant monomial', z3.And(KL(w) == N(e), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N(e)), KA(w, q) == 0), patterns=[KA(w, q)]))), KSUM_.base(ku(e)),
            Cut('one key', D == z3.Store(z3.K(KEYS, False), w, True)), Cut('nothing yet', z3.And(z3.Or(MSIZE(dom(z)) == 0, sel(dom(z), MKEY(dom(z), 0))), MSIZE(dom(z)) == 0)), ordered_insert(e, dom(z), w), ESI_.base_ax(), POW_.base_ax(), MON_.base_ax(),
            forall_facts([U], NEWKEY.inst(z, H(e), w, U, N(e), MSIZE(D)), [ev(e, H(e), U)]), forall_facts([U], mon_two.inst(U, w, i0, n(e), i0, i0, N(e)), [MON(U, w, N(e))])]

    # ---- the factor of one variable
    ui, vi = (lambda e: KA(ku(e), e['i'])), (lambda e: KA(kv(e), e['i']))
    bs = lambda e, U, j: BS(U[e['i']], U[n(e)], vi(e), ui(e), j)

    def terms(e):
        w = anyw()
        D = dom(m(e))
        return [('counter', z3.And(0 <= e['j'], e['j'] <= ui(e) + 1)),
                ('keys', z3.ForAll([w], z3.Implies(sel(D, w), z3.And(w == TERM(ku(e), e['i'], n(e), KA(w, n(e))), 0 <= KA(w, n(e)), KA(w, n(e)) < e['j'])), patterns=[sel(D, w)])), signs_ok(m(e))] + value(e, m(e), lambda U: bs(e, U, e['j']))

    def terms_pre(e):
        D = dom(m(e))
        e.eng.enumerate_map(e.st, D)
        return entries(e, ['u', 'v']) + [ESI_.base_ax(), BS_.base_ax(), Cut('no term yet', z3.And(z3.Or(MSIZE(D) == 0, sel(D, MKEY(D, 0))), MSIZE(D) == 0))]

    def terms_step(e):
        m0, m1, j = e.head_val('monomial_extended'), m(e), e.head_val('j')
        D, E = dom(m0), dom(m1)
        U, t = anyU(), fv('t')
        e.eng.enumerate_map(e.st, D)
        e.eng.enumerate_map(e.st, E)
        w = TERM(ku(e), e['i'], n(e), j)
        kt = MKEY(D, t)
        c = CHO(ui(e), j) * POW(vi(e), j)
        mono = POW(U[e['i']], z3.simplify(ui(e) - j)) * POW(U[n(e)], j)
        x1, x0 = ev(e, m1, U), ev(e, m0, U)
        return term_ax() + entries(e, ['tmp_monomial', 'zero', 'u']) + [same_key(e, key(e, e['tmp_monomial']), w), Cut('the key', key(e, e['tmp_monomial']) == w), Cut('a new term', z3.And(KA(w, n(e)) == j, z3.Not(sel(D, w)))),
                Cut('keys grow', E == z3.Store(D, w, True)), Cut('the coefficient', sel(mval(m1), w) == c), ordered_insert(e, D, w),
                Cut('the rest', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < MSIZE(D)), z3.And(sel(D, kt), kt != w, sel(mval(m1), kt) == sel(mval(m0), kt))), patterns=[kt])),
                forall_facts([U], NEWKEY.inst(m0, m1, w, U, N(e), MSIZE(E)), [x1]), forall_facts([U], mon_two.inst(U, w, e['i'], n(e), ui(e) - j, j, N(e)), [x1]), Cut('its monomial', z3.ForAll([U], MON(U, w, N(e)) == mono, patterns=[x1])),
                forall_facts([U], swapped.inst(MON(U, w, N(e)), sel(mval(m1), w), mono, c), [x1]), Cut('one more term', z3.ForAll([U], x1 == x0 + c * mono, patterns=[x1])), forall_facts([U], BS_.unfold(U[e['i']], U[n(e)], vi(e), ui(e), j), [x1])]

    # ---- the product
    def product(e):
        it = e['itH']
        return [('place', z3.And(0 <= it.pos, it.pos <= MSIZE(dom(H(e)))))] + keys(e, Hn(e), deg(e) + ui(e)) + value(e, Hn(e), lambda U: ESI(H(e), U, N(e), it.pos) * ev(e, m(e), U))

    def product_pre(e):
        D = dom(Hn(e))
        e.eng.enumerate_map(e.st, D)
        return [ESI_.base_ax(), Cut('nothing multiplied yet', z3.And(z3.Or(MSIZE(D) == 0, sel(D, MKEY(D, 0))), MSIZE(D) == 0))]

    def product_step(e):
        it, U = e.head_val('itH'), anyU()
        nxt = ESI(H(e), U, N(e), z3.simplify(it.pos + 1))
        return [forall_facts([U], ESI_.unfold(H(e), U, N(e), it.pos), [nxt]), forall_facts([U], plus_times.inst(ESI(H(e), U, N(e), it.pos), MON(U, it.key, N(e)) * sel(mval(H(e)), it.key), ev(e, m(e), U), nxt), [nxt])]

    def rowterm(e, U):
        return MON(U, e['itH'].key, N(e)) * sel(mval(H(e)), e['itH'].key)

    def row(e):
        it, im = e['itH'], e['it_monomial']
        return [('place', z3.And(0 <= im.pos, im.pos <= MSIZE(dom(m(e)))))] + keys(e, Hn(e), deg(e) + ui(e)) + value(e, Hn(e), lambda U: ESI(H(e), U, N(e), it.pos) * ev(e, m(e), U) + rowterm(e, U) * ESI(m(e), U, N(e), im.pos))

    def row_step(e):
        it, im = e['itH'], e.head_val('it_monomial')
        h, g = it.key, im.key
        r0, r1 = e.head_val('Hnew'), Hn(e)
        D, E = dom(r0), dom(r1)
        w = key(e, e['monomial'])
        U, t, q, k = anyU(), fv('t'), fv('q'), anyw()
        e.eng.enumerate_map(e.st, D)
        e.eng.enumerate_map(e.st, E)
        kt = MKEY(D, t)
        ch, cm = sel(mval(H(e)), h), sel(mval(m(e)), g)
        x1, x0 = ev(e, r1, U), ev(e, r0, U)
        mh, mg, mw = (MON(U, y, N(e)) for y in (h, g, w))
        i0 = e['i']
        c1, c0 = sel(mval(r1), w), sel(mval(r0), w)
        es1 = ESI(m(e), U, N(e), z3.simplify(im.pos + 1))
        return term_ax() + entries(e, ['monomial', 'u']) + [Cut('sum of the exponents', z3.And(KL(w) == N(e), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N(e)), z3.And(KA(w, q) == KA(h, q) + KA(g, q), KA(h, q) >= 0, KA(g, q) >= 0)), patterns=[KA(w, q)]))),
                forall_facts([U], mon_two.inst(U, g, i0, n(e), KA(g, i0), KA(g, n(e)), N(e)), [MON(U, g, N(e))]), Cut('degree of the factor', KSUM(g, N(e)) == ui(e)),
                forall_facts([U], mon_sum.inst(U, h, g, w, N(e)), [mw]), Cut('monomial', z3.ForAll([U], mw == mh * mg, patterns=[mw])), Cut('degree', KSUM(w, N(e)) == deg(e) + ui(e)), ka_le(e, w), ksum_mono.inst(ku(e), i0 + 1, n(e)), KSUM_.unfold(ku(e), i0), Cut('exponents of the product', exponent(w, N(e))),
                Cut('keys', E == z3.Store(D, w, True)), ordered_insert(e, D, w), Cut('this coefficient', c1 == z3.If(sel(D, w), c0, 0) + ch * cm),
                Cut('other coefficients', z3.ForAll([k], z3.Implies(z3.And(sel(D, k), k != w), sel(mval(r1), k) == sel(mval(r0), k)), patterns=[sel(mval(r1), k)])),
                Cut('place of the key', z3.If(sel(D, w), z3.And(D == E, MPOS(D, w) >= 0, MPOS(D, w) < MSIZE(D), MKEY(D, MPOS(D, w)) == w), z3.And(MPOS(E, w) >= 0, MPOS(E, w) <= MSIZE(D), MSIZE(E) == MSIZE(D) + 1, MKEY(E, MPOS(E, w)) == w))),
                Cut('the rest', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < MSIZE(D), z3.Or(z3.Not(sel(D, w)), t != MPOS(D, w))), z3.And(sel(D, kt), kt != w, sel(mval(r1), kt) == sel(mval(r0), kt))), patterns=[kt])),
                forall_facts([U], NEWKEY.inst(r0, r1, w, U, N(e), MSIZE(E)), [x1]), forall_facts([U], coef_term.inst(mw, z3.If(sel(D, w), c1 - c0, c1), ch, cm, mh, mg), [x1]),
                Cut('a new term', z3.Implies(z3.Not(sel(D, w)), z3.ForAll([U], x1 == x0 + (mh * ch) * (mg * cm), patterns=[x1]))),
                forall_facts([U], NEWVALUE.inst(r0, r1, w, U, N(e), MSIZE(E)), [x1]),
                Cut('a term changes', z3.Implies(sel(D, w), z3.ForAll([U], x1 == x0 + (mh * ch) * (mg * cm), patterns=[x1]))),
                Cut('one more product', z3.ForAll([U], x1 == x0 + (mh * ch) * (mg * cm), patterns=[x1])),
                forall_facts([U], ESI_.unfold(m(e), U, N(e), im.pos), [es1]), forall_facts([U], times_plus.inst(ESI(m(e), U, N(e), im.pos), mg * cm, mh * ch, es1), [es1])]

    def outer_step(e):
        # H is the product H' * (the factor of variable i)
        h0, i = e.head_val('H'), e.head_val('i')
        U = anyU()
        L = line(e, U)
        a, b = ev(e, h0, U), ev(e, m(e), U)
        y, x = U[i], U[n(e)]
        x1 = ev(e, H(e), U)
        return [kvec_ax(), pts_ax(), KSUM_.unfold(ku(e), i), forall_facts([U], factorsub.inst(KVEC(kv(e))[i], KA(kv(e), i), x), [x1]), Cut('point of the line', z3.ForAll([U], L[i] == y + x * KA(kv(e), i), patterns=[x1])), Cut('the product', z3.ForAll([U], x1 == a * b, patterns=[x1])), Cut('the factor', z3.ForAll([U], b == BS(y, x, KA(kv(e), i), KA(ku(e), i), KA(ku(e), i) + 1), patterns=[b])),
                forall_facts([U], binomial_theorem.inst(y, x, KA(kv(e), i), KA(ku(e), i)), [x1]), forall_facts([U], MON_.unfold(L, ku(e), i), [x1]), forall_facts([U], swapped.inst(b, a, POW(L[i], KA(ku(e), i)), MON(L, ku(e), i)), [x1]),
                Cut('power of the line', z3.ForAll([U], b == POW(L[i], KA(ku(e), i)), patterns=[x1])), Cut('whole product', z3.ForAll([U], x1 == MON(L, ku(e), i) * POW(L[i], KA(ku(e), i)), patterns=[x1]))]
    def ka_le(e, w):
        q = fv('q')
        return forall_facts([q], entry_of_sum.inst(w, q, N(e)), [KA(w, q)])

    def outer_head(e):
        return entries(e, ['u', 'v']) + [Cut('exponents of u', forall_range(0, n(e), lambda q: z3.And(KA(ku(e), q) == sel(vdat(e['u']), q), KA(ku(e), q) >= 0, KA(kv(e), q) == sel(vdat(e['v']), q), KA(kv(e), q) >= 0), pats=lambda q: [KA(ku(e), q), KA(kv(e), q)])),
                entry_of_sum.inst(ku(e), e['i'], n(e)), Cut('this exponent', z3.And(0 <= ui(e), ui(e) <= LIM, vi(e) >= 0))]

    one = z3.IntVal(1)
    whole = lambda e: BS(one, one, vi(e), ui(e), ui(e) + 1)

    def outer_room(e):
        L, q, i = line(e, ONES), fv('q'), e['i']
        kq = KVEC(kv(e))[q]
        return [ones_ax(), pts_ax(), kvec_ax(), forall_facts([q], times_one.inst(ONES[n(e)], kq), [L[q]]), Cut('the line at (1, ..., 1)', forall_range(0, n(e), lambda q: z3.And(L[q] == 1 + KA(kv(e), q), L[q] >= 1), pats=lambda q: L[q])),
                MON_.unfold(L, ku(e), i), mon_grow.inst(L, ku(e), i + 1, n(e)), mon_pos.inst(L, ku(e), i), binomial_theorem.inst(one, one, vi(e), ui(e)), times_one.inst(one, vi(e)), pow_nonneg.inst(L[i], ui(e)), Cut('this factor', z3.And(whole(e) == POW(L[i], ui(e)), whole(e) >= 1)),
                factorsub.inst(whole(e), POW(L[i], ui(e)), MON(L, ku(e), i)), prodpos.inst(MON(L, ku(e), i), whole(e)), Cut('room', z3.And(MON(L, ku(e), i) * whole(e) <= ROOM, whole(e) <= ROOM, MON(L, ku(e), i) >= 1))]

    def terms_room(e):
        j = e['j']
        c, p = CHO(ui(e), j), POW(vi(e), j)
        return [bs_term.inst(vi(e), ui(e), j, ui(e) + 1), cho_pos.inst(ui(e), j), pow_nonneg.inst(vi(e), j), prodpos.inst(c, p), Cut('the coefficient fits', z3.And(0 <= p, p <= c * p, c * p <= ROOM))]

    def row_room(e):
        p, q = e['itH'].pos, e['it_monomial'].pos
        g, h, t, w = e['it_monomial'].key, e['itH'].key, fv('t'), anyw()
        mh, mm, mn = H(e), m(e), Hn(e)
        for x in (mh, mm, mn):
            e.eng.enumerate_map(e.st, dom(x))
        S = lambda x: ev(e, x, ONES)
        es = lambda x, i: ESI(x, ONES, N(e), z3.simplify(i))
        ch, cm = sel(mval(mh), h), sel(mval(mm), g)
        x = sel(mval(mn), w)
        k = anyw()
        out = [Cut('exponents of the factor', z3.ForAll([k], z3.Implies(sel(dom(mm), k), pos_entries(k, N(e))), patterns=[sel(dom(mm), k)]))]
        for y, nm in ((mh, 'old'), (mm, 'factor'), (mn, 'new')):
            kt = MKEY(dom(y), t)
            out += [forall_facts([t], mon_ones.inst(kt, N(e)), [kt]), Cut('coefficients: ' + nm, atone(y, N(e), MSIZE(dom(y))))]
        out += [forall_facts([w], coef_le.inst(mn, N(e), MPOS(dom(mn), w)), [x]), Cut('places', z3.ForAll([w], z3.Implies(sel(dom(mn), w), z3.And(0 <= MPOS(dom(mn), w), MPOS(dom(mn), w) < MSIZE(dom(mn)), MKEY(dom(mn), MPOS(dom(mn), w)) == w)), patterns=[x])), Cut('sums bound coefficients', z3.ForAll([w], z3.Implies(sel(dom(mn), w), z3.And(0 <= x, x <= S(mn))), patterns=[x])),
                esi_mono.inst(mm, N(e), z3.simplify(q + 1), MSIZE(dom(mm))), esi_mono.inst(mh, N(e), z3.simplify(p + 1), MSIZE(dom(mh))), esi_nonneg.inst(mm, N(e), q), esi_nonneg.inst(mh, N(e), p), esi_nonneg.inst(mm, N(e), MSIZE(dom(mm))), ESI_.unfold(mh, ONES, N(e), p), ESI_.unfold(mm, ONES, N(e), q),
                times_one.inst(MON(ONES, h, N(e)), ch), times_one.inst(MON(ONES, g, N(e)), cm), Cut('next sums', z3.And(es(mh, p + 1) == es(mh, p) + ch, es(mm, q + 1) == es(mm, q) + cm, rowterm(e, ONES) == ch, ch >= 0, cm >= 0)),
                factorsub.inst(rowterm(e, ONES), ch, es(mm, q)), Cut('sum so far', S(mn) == es(mh, p) * S(mm) + ch * es(mm, q)), room.inst(es(mh, p), es(mh, p + 1), S(mm), es(mm, q), es(mm, q + 1), ch, cm, S(mh), S(mn)), Cut('the sum', z3.And(0 <= ch * cm, 0 <= S(mn), S(mn) + ch * cm <= S(mh) * S(mm))),
                Cut('sums', z3.And(S(mm) == whole(e), S(mh) == MON(line(e, ONES), ku(e), e['i']))), swapped.inst(S(mm), S(mh), whole(e), MON(line(e, ONES), ku(e), e['i'])),
                Cut('the product fits', z3.And(0 <= ch * cm, ch * cm <= ROOM, z3.ForAll([w], z3.Implies(sel(dom(mn), w), z3.And(0 <= x, x + ch * cm <= ROOM)), patterns=[x])))]
        return out

    def row_head(e):
        g, h, q = e['it_monomial'].key, e['itH'].key, fv('q')
        x, y = e.eng.key_value(e.st, g, VT), e.eng.key_value(e.st, h, VT)
        return term_ax() + [Cut('the factor has one variable more', z3.And(KL(g) == N(e), forall_range(0, N(e), lambda q: z3.And(0 <= KA(g, q), KA(g, q) <= LIM), pats=lambda q: KA(g, q)))), Cut('lengths', z3.And(vlen(x) == N(e), vlen(y) == N(e))),
                Cut('entries of the keys', forall_range(0, N(e), lambda q: z3.And(sel(vdat(x), q) == KA(g, q), 0 <= sel(vdat(x), q), sel(vdat(x), q) <= LIM), pats=lambda q: sel(vdat(x), q))),
                Cut('entries of the other keys', forall_range(0, N(e), lambda q: z3.And(sel(vdat(y), q) == KA(h, q), 0 <= sel(vdat(y), q), sel(vdat(y), q) <= LIM), pats=lambda q: sel(vdat(y), q)))]
    loops = {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N(e))), ('zeros', zero_ok(e, e['i']))], lambda e: N(e) - e['i']),
             1: Loop(outer, lambda e: n(e) - e['i'], pre_hints=outer_pre, head=lambda e: outer_head(e) + outer_room(e), hints=outer_step, post=lambda e: [kvec_ax()]),
             2: Loop(terms, lambda e: ui(e) + 1 - e['j'], pre_hints=terms_pre, head=terms_room, hints=terms_step),
             3: Loop(product, lambda e: MSIZE(dom(H(e))) - e['itH'].pos, pre_hints=product_pre, hints=product_step),
             4: Loop(row, lambda e: MSIZE(dom(m(e))) - e['it_monomial'].pos, pre_hints=lambda e: [ESI_.base_ax()], head=lambda e: row_head(e) + row_room(e), hints=row_step)}
    return Contract(SRC, 'change_of_variables_monomial', None, req, ens, loops, label=SRC + ':change_of_variables_monomial', use_only=use_only, overflow=True)


def base():
    return [c for c in C02.contracts() if c.label in ('vec_int64.h:operator+', 'vec_int64.h:add')] + [c for c in C04.contracts() if c.label == 'tools/binomial.cc:binomial']


pow_mono = Lemma('powers grow with the exponent', I('b', 'x', 'y'), lambda b, x, y: z3.Implies(z3.And(b >= 1, 0 <= x, x <= y), POW(b, x) <= POW(b, y)), induct=2, facts=lambda b, x, y: [POW_.at_pos(b, y), pow_nonneg.inst(b, y - 1), prodpos.inst(b, POW(b, z3.simplify(y - 1)))])
pow_base = Lemma('powers grow with the base', I('b', 'c', 'k'), lambda b, c, k: z3.Implies(z3.And(0 <= b, b <= c), POW(b, k) <= POW(c, k)), induct=2, facts=lambda b, c, k: [POW_.base(b), POW_.base(c), POW_.at_pos(b, k), POW_.at_pos(c, k), prodpos.inst(c - b, POW(b, z3.simplify(k - 1))), prodpos.inst(c, POW(c, z3.simplify(k - 1)) - POW(b, z3.simplify(k - 1))), pow_nonneg.inst(b, k - 1), basealg.inst(b, c, POW(b, z3.simplify(k - 1)), POW(c, z3.simplify(k - 1)))])
basealg = Lemma('difference of products of powers', I('b', 'c', 'p', 'q'), lambda b, c, p, q: c * q - b * p == (c - b) * p + c * (q - p))
mon_le = Lemma('monomials are at most a power', [('U', ARR), ('k', KEYS)] + I('b', 'j'), lambda U, k, b, j: z3.Implies(z3.And(pos_entries(k, j), forall_range(0, j, lambda q: z3.And(0 <= U[q], U[q] <= b), pats=lambda q: U[q])), z3.And(0 <= MON(U, k, j), MON(U, k, j) <= POW(b, KSUM(k, j)))), induct=3,
               facts=lambda U, k, b, j: [MON_.base(U, k), MON_.at_pos(U, k, j), KSUM_.base(k), KSUM_.at_pos(k, j), POW_.base(b), ksum_nonneg.inst(k, j - 1), pow_add.inst(b, KSUM(k, j - 1), KA(k, j - 1)), pow_base.inst(U[j - 1], b, KA(k, j - 1)), pow_nonneg.inst(U[j - 1], KA(k, j - 1)), pow_nonneg.inst(b, KSUM(k, j - 1)),
                                         lefac.inst(MON(U, k, j - 1), POW(b, KSUM(k, j - 1)), POW(U[j - 1], KA(k, j - 1)), POW(b, KA(k, j - 1)))])
lefac = Lemma('products of smaller numbers', I('a', 'A', 'b', 'B'), lambda a, A, b, B: z3.Implies(z3.And(0 <= a, a <= A, 0 <= b, b <= B), z3.And(0 <= a * b, a * b <= A * B)), facts=lambda a, A, b, B: [prodpos.inst(A - a, B), prodpos.inst(a, B - b), prodpos.inst(a, b), basealg.inst(a, A, b, B)])


def lemmas():
    return [alg, alg1, over, cho_top, pascal, lastover, top, binomial_theorem, pow_add, mulswap, mon_two, mon_sum, four, choose_fact, swapped, coef_term, plus_times, times_plus, NEWKEY, NEWVALUE, minus, factorsub, ksum_nonneg, ksum_mono, entry_of_sum, fact_pos, pow_one, pow_nonneg, prodpos, mon_ones, esi_mono, esi_nonneg, coef_le, cho_pos, signs, bs_term, oneone, mon_grow, mon_pos, room, roomalg, times_one, pow_mono, pow_base, basealg, mon_le, lefac]


def contracts():
    return base() + [expand()]
