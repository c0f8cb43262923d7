"""Reduction steps in the toric model: every form evaluates the same reduction map."""
from .ndmodel import *
from .C01 import nonneg
from . import C06, C11, C14, expand as X
from .expand import PTS, KVEC, pts_ax, kvec_ax, expand, ksum_nonneg, ksum_mono, ONES
from .C11 import AR
from .C11 import distr3, distr_sum, dot_line, running, sumloop, sum_mono, prefix_range, modmul, modmod, moddiff
from .math import I
SRC = 'dr_nd/dr_nd.cc'
VI = 'vec<i64>'


def shapeND(e):
    n, d = e.f('n'), e.f('d')
    return [('n and d', z3.And(n >= 1, n < d, (n + 1) * d <= LIM)), ('dimension', z3.And(DIM == vlen(e.f('coKernels_ND_basis')), DIM >= 1, DIM <= LIM)), ('coefficients of a change of variables are machine words', POW(d + 1, n + 1) <= X.ROOM)]


def admissible(e, field, zz):
    n, d = e.f('n'), e.f('d')
    u, v = e['u'], e['v']
    return shapeND(e) + [('v is a direction', is_tuple(v, d, n + 1)), ('u is an exponent', z3.And(vlen(u) == n + 1, nonneg(vdat(u), n + 1), SUM(vdat(u), n + 1) % d == 0, SUM(vdat(u), n + 1) < (1 << 62)))] + invND(e)


def invND(e):
    return [('modulus', MODULUS > 1)] + cacheND(e, DN, False) + cacheND(e, DNZ, True)


def compute(use_only=True):
    k = lambda e: key(e, e.old('v'))
    return Contract(SRC, 'compute_reduction_matrix_ND', [VI], lambda e: shapeND(e) + [('direction', is_tuple(e['v'], e.f('d'), e.f('n') + 1))] + cacheND(e, DN, False),
                    lambda e: [('stored', has(e, DN, k(e))), ('not zero', nonzero(k(e)))] + cacheND(e, DN, False), modifies=['this.' + DN, 'this.' + SN, 'this.tuple_dict', 'this.coKernels_ND_basis_dict'], fields=FIELDS_ND, label=SRC + ':compute_reduction_matrix_ND', returns=it_of(DN), use_only=use_only)


def two_sums():
    return Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('partial sums', z3.And(e['sum_v'] == SUM(vdat(e['v']), e['i']), e['sum_u'] == SUM(vdat(e['u']), e['i'])))], lambda e: e.f('n') + 1 - e['i'],
                hints=lambda e: [SUM.at_pos(vdat(e[x]), e['i']) for x in 'uv'], pre_hints=lambda e: [f for x in 'uv' for f in [SUM.base(vdat(e[x]))] + running(vdat(e[x]), e.f('n') + 1)])


def monomial_loop():
    it = lambda e: e['itM']
    q = fv('q')
    def pos(e):
        x = sel(vdat(e.eng.key_value(e.st, it(e).key, VT)), q)
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= e.f('n')), z3.And(x == KA(it(e).key, q), x >= 0, x <= LIM)), patterns=[KA(it(e).key, q), x])
    return Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('monomial', e['monomial_evaluated'] == MON(vdat(e['u']), it(e).key, e['i'])), ('exponents', pos(e))], lambda e: e.f('n') + 1 - e['i'],
                pre_hints=lambda e: [MON_.base(vdat(e['u']), it(e).key)], hints=lambda e: [MON_.at_pos(vdat(e['u']), it(e).key, e['i'])])


def square(m):
    return z3.And(NR(m) == DIM, NC(m) == DIM)


def cells(m, val):
    a, b = fv('a'), fv('b')
    x = sel(sel(dat(m), a), b)
    return z3.ForAll([a, b], z3.Implies(inab(a, b), x == val(a, b)), patterns=[x])


def writes(zz):
    return ['this.' + DN, 'this.' + SN, 'this.tuple_dict', 'this.coKernels_ND_basis_dict'] + (['this.' + DNZ] if zz else [])


def congruent(e, zz, x, y):
    """equal modulo the modulus (zz: an integer form, which may be reduced on the way; else equal as lifts)"""
    return x % MODULUS == y % MODULUS if zz else x == y


def cong(x, y):
    return x % MODULUS == y % MODULUS


def partial(e, zz):
    """the terms of the first keys in the order of traversal"""
    k = key(e, e['v'])
    m = sel(mval(e.f(DNZ if zz else DN)), k)
    return lambda a, b, i=None: ES_(e, zz).fn(m, vdat(e['u']), e.f('n') + 1, a, b, e['itM'].pos if i is None else i)


def partial_at(e, zz, a, b):
    k = key(e, e['v'])
    m = sel(mval(e.f(DNZ if zz else DN)), k)
    return ES_(e, zz).at_pos(m, vdat(e['u']), e.f('n') + 1, a, b, e['itM'].pos)


modterm = Lemma('adding a term reduced in one factor', I('s', 't', 'x', 'y', 'c', 'm'), lambda s, t, x, y, c, m: z3.Implies(z3.And(m > 0, s % m == t % m, y == x % m), (s + y * c) % m == (t + x * c) % m),
                facts=lambda s, t, x, y, c, m: [modmod.inst(x, m), modmul.inst(c, y, x, m), modpair.inst(s, t, c * y, c * x, m)])
modpair = Lemma('sums of congruent numbers', I('s', 't', 'x', 'y', 'm'), lambda s, t, x, y, m: z3.Implies(z3.And(m > 0, s % m == t % m, x % m == y % m), (s + x) % m == (t + y) % m),
                facts=lambda s, t, x, y, m: [C06.modadd.inst(s, x, m), C06.modadd.inst(t, y, m), C06.modadd.inst(x, s % m, m), C06.modadd.inst(y, t % m, m)])


def matrix_form(name, field, zz):
    k = lambda e: key(e, e['v'])
    m = lambda e: sel(mval(e.f(field)), k(e))
    a, b = fv('a'), fv('b')

    def now(e):
        part = partial(e, zz)
        a, b = fv('a'), fv('b')
        x = dat(e['result'])[a][b]
        return z3.ForAll([a, b], z3.Implies(inab(a, b), congruent(e, zz, x, part(a, b))), patterns=[x])

    def trav(e):
        return [('place', z3.And(0 <= e['itM'].pos, e['itM'].pos <= MSIZE(dom(m(e))))), ('square', square(e['result'])), ('partial sum', now(e))]

    def step(e):
        part = partial(e, zz)
        out = [forall_facts([a, b], partial_at(e, zz, a, b), [part(a, b)])]
        if zz:
            it = e.head_val('itM')
            old, new = dat(e.head_val('result')), dat(e['result'])
            out.append(forall_facts([a, b], modterm.inst(old[a][b], part(a, b, it.pos), MON(vdat(e['u']), it.key, e.f('n') + 1), e['monomial_evaluated'], dat(sel(mval(m(e)), it.key))[a][b], MODULUS), [new[a][b]]))
        return out
    loops = {0: two_sums(), 1: Loop(trav, lambda e: MSIZE(dom(m(e))) - e['itM'].pos, pre_hints=lambda e: [ES_(e, zz).base_ax()], hints=step), 2: monomial_loop()}

    def ens(e):
        a, b = fv('a'), fv('b')
        x = dat(e.result)[a][b]
        return [('square', square(e.result)), ('the reduction map at u', z3.ForAll([a, b], z3.Implies(inab(a, b), cong(x, REDND(k(e), vdat(e['u']), a, b))), patterns=[x]))] + invND(e)
    return Contract(SRC, name, [VI, VI], lambda e: admissible(e, field, zz), ens, loops, modifies=writes(zz), fields=FIELDS_ND, overflow=True, label=f'{SRC}:{name}')


REDROW = z3.Function('row_of_the_reduction_map', KEYS, ARR, INT, ARR)
_er = {}


def ESROW(e, zz):
    if zz not in _er:
        _er[zz] = z3.Function('row_of_evaluation_of_' + ('integer_' if zz else '') + 'polynomial', mapsort(e, zz), ARR, INT, INT, INT, ARR)
    return _er[zz]


def redrow_ax():
    k, u, a, b = z3.Const('rr!k', KEYS), z3.Const('rr!u', ARR), z3.Int('rr!a'), z3.Int('rr!b')
    x = REDROW(k, u, a)[b]
    return Fact(z3.ForAll([k, u, a, b], x == REDND(k, u, a, b), patterns=[x]), 'definition of row_of_the_reduction_map')


def esrow_ax(e, zz):
    m, u, N, a, i, b = z3.Const('er!m', mapsort(e, zz)), z3.Const('er!u', ARR), z3.Int('er!N'), z3.Int('er!a'), z3.Int('er!i'), z3.Int('er!b')
    x = ESROW(e, zz)(m, u, N, a, i)[b]
    return Fact(z3.ForAll([m, u, N, a, i, b], x == ES_(e, zz).fn(m, u, N, a, b, i), patterns=[x]), 'definition of row_of_evaluation')


dot_scaled = Lemma('inner product with a multiple', AR('r', 'g', 'y') + I('x', 'n'), lambda r, g, y, x, n: z3.Implies(forall_range(0, n, lambda b: y[b] == x * g[b], pats=lambda b: y[b]), DOT(r, y, n) == x * DOT(r, g, n)), induct=4,
                   facts=lambda r, g, y, x, n: [DOT.base(r, g), DOT.base(r, y), DOT.at_pos(r, g, n), DOT.at_pos(r, y, n), distr_sum.inst(x, DOT(r, g, n - 1), r[n - 1] * g[n - 1]), reassoc.inst(r[n - 1], x, g[n - 1])])
reassoc = Lemma('reassociation of a product', I('r', 'x', 'g'), lambda r, x, g: r * (x * g) == x * (r * g))
dot_rows = Lemma('inner products of equal rows', AR('p', 'q', 'g') + I('n'), lambda p, q, g, n: z3.Implies(forall_range(0, n, lambda b: p[b] == q[b], pats=lambda b: p[b]), DOT(p, g, n) == DOT(q, g, n)), induct=3,
                 facts=lambda p, q, g, n: [DOT.base(p, g), DOT.base(q, g), DOT.at_pos(p, g, n), DOT.at_pos(q, g, n)])


def vector_form(name, field, zz):
    k = lambda e: key(e, e['v'])
    m = lambda e: sel(mval(e.f(field)), k(e))
    u = lambda e: vdat(e['u'])
    g = lambda e: vdat(e.old('G'))
    N = lambda e: e.f('n') + 1
    row = lambda e, a, i: ESROW(e, zz)(m(e), u(e), N(e), a, i)

    def now(e, what):
        a = fv('a')
        x = sel(vdat(e['result']), a)
        return z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), x == DOT(what(a), g(e), DIM)), patterns=[x])

    def term(e, it, pos, new, old=None):
        """one more key: the row grows by the monomial times the row of its matrix"""
        a, b = fv('a'), fv('b')
        r1, M = row(e, a, z3.simplify(pos + 1)), dat(sel(mval(m(e)), it.key))
        mon = MON(u(e), it.key, N(e))
        scaled = z3.Const('scaled', ARR)
        x = sel(new, a)
        es1 = ES_(e, zz).fn(m(e), u(e), N(e), a, b, z3.simplify(pos + 1))
        return [forall_facts([a, b], ES_(e, zz).unfold(m(e), u(e), N(e), a, b, pos), [es1]),
                Cut('rows', z3.ForAll([a, b], z3.Implies(inab(a, b), r1[b] == row(e, a, pos)[b] + mon * M[a][b]), patterns=[r1[b]])),
                forall_facts([a], dot_line.inst(r1, row(e, a, pos), M[a], g(e), g(e), mon, DIM), [x]),
                Cut('inner products with the next row', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), DOT(r1, g(e), DIM) == DOT(row(e, a, pos), g(e), DIM) + mon * DOT(M[a], g(e), DIM)), patterns=[x]))]

    def trav(e):
        return [('place', z3.And(e['itM'].pos >= (1 if zz else 0), e['itM'].pos <= MSIZE(dom(m(e))))), ('length', vlen(e['result']) == DIM), ('partial sum', now(e, lambda a: row(e, a, e['itM'].pos)))]

    def scale(e, it, M):
        """M * (monomial * G)"""
        a = fv('a')
        y = fv('y', ARR)
        mon = MON(u(e), it.key, N(e))
        d = DOT(M[a], y, DIM)
        return forall_facts([a, y], dot_scaled.inst(M[a], g(e), y, mon, DIM), [d])

    def step(e):
        it = e.head_val('itM')
        return final(e, it, it.pos, vdat(e.head_val('result')))

    def final(e, it, pos, old):
        a = fv('a')
        M = dat(sel(mval(m(e)), it.key))
        mon = MON(u(e), it.key, N(e))
        x = sel(vdat(e['result']), a)
        was = sel(old, a) if old is not None else 0
        return [scale(e, it, M), Cut('the new term', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), x == was + mon * DOT(M[a], g(e), DIM)), patterns=[x]))] + term(e, it, pos, vdat(e['result']))

    def first(e):
        it = e['itM']
        a = fv('a')
        return []
    axioms = lambda e: [redrow_ax()]
    mon = monomial_loop()
    tr = Loop(trav, lambda e: MSIZE(dom(m(e))) - e['itM'].pos, pre_hints=lambda e: [esrow_ax(e, zz), ES_(e, zz).base_ax()] + ([zero_rows(e)] if not zz else first_term(e)), hints=step)

    def zero_rows(e):
        a = fv('a')
        r = row(e, a, z3.IntVal(0))
        return forall_facts([a], C11.dot_zero.inst(r, g(e), DIM), [r])

    def first_term(e):
        p = e.pre if False else None
        it = eng_first(e)
        return [zero_rows(e)] + final(e, it, z3.IntVal(0), None)

    def eng_first(e):
        d = dom(m(e))
        return Iter(None, MKEY(d, 0), None, z3.IntVal(0), d)
    loops = {0: two_sums(), 1: tr, 2: mon} if not zz else {0: two_sums(), 1: mon, 2: tr, 3: monomial_loop()}

    def ens(e):
        a = fv('a')
        x = sel(vdat(e['result']), a)
        return [('length', vlen(e['result']) == DIM), ('the reduction map at u applied to G', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), cong(x, DOT(REDROW(k(e), u(e), a), g(e), DIM))), patterns=[x]))] + invND(e)

    def ret(e):
        a, b = fv('a'), fv('b')
        r = REDROW(k(e), u(e), a)
        q = row(e, a, MSIZE(dom(m(e))))
        return [redrow_ax(), Cut('rows of the map', z3.ForAll([a, b], z3.Implies(inab(a, b), cong(q[b], r[b])), patterns=[q[b]])), forall_facts([a], dot_congmod.inst(q, g(e), r, g(e), DIM, MODULUS), [r])]
    def after(e):
        K, mm = k(e), m(e)
        a, b = NZA(K), NZB(K)
        return [ES_(e, zz).base(mm, NZU(K), N(e), a, b), Cut('value there', cong(EV(e, zz, mm, NZU(K), N(e), a, b), REDND(K, NZU(K), a, b))), Cut('the polynomial is not empty', MSIZE(dom(mm)) != 0)]
    return Contract(SRC, name, None, lambda e: admissible(e, field, zz) + [('vector of the right length', vlen(e['G']) == DIM)], ens, loops, modifies=['result'] + writes(zz), fields=FIELDS_ND, overflow=True, label=f'{SRC}:{name}', ret_hint=ret, flags={'after': {'compute_reduction_matrix_ND_ZZ': after}} if zz else {})


# ---------------------------------------------------------------- one direction many times
# c_0 + c_1 x + ... + c_{j-1} x^{j-1}
PV_ = RecDef('polynomial_value', [INT, ARR], INT, lambda x, c: z3.IntVal(0), lambda x, c, j, r: r + POW(x, j) * c[j])
PV = PV_.fn
ITND = z3.Function('iterated_reduction_ND', KEYS, ARR, ARR, ARR, INT, INT, ARR)
_cf = {}


def vmsort(e, zz):
    return z3.ArraySort(INT, e.eng.sorts.sort(ty('Mat<ZZ>' if zz else 'Mat<ZZ_p>')))


def CF(e, zz):
    """the entries (a, b) of a list of matrices"""
    if ('cf', zz) not in _cf:
        _cf['cf', zz] = z3.Function('entries_of_integer_matrices' if zz else 'entries_of_matrices', vmsort(e, zz), INT, INT, ARR)
        _cf['row', zz] = z3.Function('row_of_value_of_integer_matrices' if zz else 'row_of_value_of_matrices', vmsort(e, zz), INT, INT, INT, ARR)
    return _cf['cf', zz]


def PROW(e, zz):
    """row a of M_0 + ... + M_{j-1} x^{j-1}"""
    CF(e, zz)
    return _cf['row', zz]


def cf_ax(e, zz):
    P, a, b, i, x, j = z3.Const('cf!P', vmsort(e, zz)), *z3.Ints('cf!a cf!b cf!i cf!x cf!j')
    c = CF(e, zz)(P, a, b)
    r = PROW(e, zz)(P, x, a, j)[b]
    return [Fact(z3.ForAll([P, a, b, i], c[i] == dat(sel(P, i))[a][b], patterns=[c[i]]), 'definition of entries_of_matrices'),
            Fact(z3.ForAll([P, x, a, j, b], r == PV(x, c, j), patterns=[r]), 'definition of row_of_value_of_matrices')]


def itnd_def(k, u, v, g, N, t):
    a = fv('a')
    y = ITND(k, u, v, g, N, z3.simplify(t + 1))[a]
    return Fact(z3.Implies(t >= 0, z3.ForAll([a], y == DOT(REDROW(k, PTS(u, v, z3.simplify(N - 1 - t)), a), ITND(k, u, v, g, N, t), DIM), patterns=[y])), 'definition of iterated_reduction_ND')


def itnd_base(k, u, v, g, N):
    return Fact(ITND(k, u, v, g, N, 0) == g, 'definition of iterated_reduction_ND')


def on_line(e, zz, m, k):
    """the map represents U, x -> reduction map at U + x v (v: the direction of key k)"""
    u, v = z3.Const(f'u?{fv("u")}', ARR), z3.Const(f'v?{fv("v")}', ARR)
    a, b = fv('a'), fv('b')
    n = e.f('n')
    x = EV(e, zz, m, u, n + 2, a, b)
    y = REDND(k, PTS(u, KVEC(k), u[n + 1]), a, b)
    return well_formed(m, n + 2, n) + [('value at every point of every line', z3.ForAll([u, a, b], z3.Implies(inab(a, b), cong(x, y)), patterns=[x]))]




def red_local(k, u, w, a, b, n):
    """the reduction map is a polynomial in the n + 1 exponents"""
    return Fact(z3.Implies(forall_range(0, n + 1, lambda i: u[i] == w[i], pats=lambda i: u[i]), REDND(k, u, a, b) == REDND(k, w, a, b)), 'definition of reduction_map_ND')


def invP(e):
    return [('modulus', MODULUS > 1)] + cacheND(e, DN, False) + cacheND(e, DNP, False, on_line) + cacheND(e, DNPZ, True, on_line)


def writesP(zz):
    return ['this.' + DN, 'this.' + SN, 'this.tuple_dict', 'this.coKernels_ND_basis_dict', 'this.' + DNP] + (['this.' + DNPZ] if zz else [])


NEWKEY, NEWVALUE = grown_matrices()


def compute_poly():
    """the polynomial along a line: the change of variables applied term by term"""
    F, k, n = DNP, (lambda e: key(e, e['v'])), (lambda e: e.f('n'))
    src = lambda e: sel(mval(e.f(DN)), k(e))
    dst = lambda e: sel(mval(e.f(DNP)), k(e))
    N = lambda e: n(e) + 2
    line = lambda e, U: PTS(U, KVEC(k(e)), U[n(e) + 1])
    inv = lambda e: invP(e)

    def rest(e):
        q = z3.Const(f'k?{fv("k")}', KEYS)
        m, o = e.f(DNP), e.oldf(DNP)
        return [('other directions', z3.ForAll([q], z3.Implies(q != k(e), z3.And(sel(dom(m), q) == sel(dom(o), q), sel(mval(m), q) == sel(mval(o), q))), patterns=[sel(mval(m), q)])), ('represented', has(e, DN, k(e))), ('present', has(e, DNP, k(e)))] + well_formed(dst(e), N(e), n(e))

    def value(e, rhs, r=lambda x, y: x == y):
        U, a, b = z3.Const(f'U?{fv("U")}', ARR), fv('a'), fv('b')
        x = EV(e, False, dst(e), U, N(e), a, b)
        return [('value', z3.ForAll([U, a, b], z3.Implies(inab(a, b), r(x, rhs(U, a, b))), patterns=[x]))]
    upto = lambda e, U, a, b, pos: ES_(e, False).fn(src(e), line(e, U), n(e) + 1, a, b, pos)
    M = lambda e: dat(sel(mval(src(e)), e['it_matrix'].key))
    c = lambda e: e['monomial_expanded']

    def outer(e):
        return [('place', z3.And(0 <= e['it_matrix'].pos, e['it_matrix'].pos <= MSIZE(dom(src(e)))))] + rest(e) + value(e, lambda U, a, b: upto(e, U, a, b, e['it_matrix'].pos))

    def inner(e):
        return [('place', z3.And(0 <= e['it_monomial'].pos, e['it_monomial'].pos <= MSIZE(dom(c(e)))))] + rest(e) + value(e, lambda U, a, b: upto(e, U, a, b, e['it_matrix'].pos) + ESI(c(e), U, N(e), e['it_monomial'].pos) * M(e)[a][b])

    def inner_step(e):
        it = e.head_val('it_monomial')
        w = it.key
        r0, r1 = sel(mval(e.head_val('this.' + DNP)), k(e)), dst(e)
        U, a, b, q = z3.Const(f'U?{fv("U")}', ARR), fv('a'), fv('b'), z3.Const(f'q?{fv("q")}', KEYS)
        D, E = dom(r0), dom(r1)
        coef = sel(mval(c(e)), w)
        x1, x0 = EV(e, False, r1, U, N(e), a, b), EV(e, False, r0, U, N(e), a, b)
        m1, m0 = (lambda K: dat(sel(mval(r1), K))[a][b]), (lambda K: dat(sel(mval(r0), K))[a][b])
        mon = MON(U, w, N(e))
        es1 = ESI(c(e), U, N(e), z3.simplify(it.pos + 1))
        e.eng.enumerate_map(e.st, D)
        e.eng.enumerate_map(e.st, E)
        t = fv('t')
        kt = MKEY(D, t)
        return [Cut('keys', E == z3.Store(D, w, True)), ordered_insert(e, D, w), Cut('degrees', z3.And(exponent(w, N(e)), KSUM(w, N(e)) == KSUM(e['it_matrix'].key, n(e) + 1))),
                Cut('other matrices', z3.ForAll([q], z3.Implies(z3.And(sel(D, q), q != w), sel(mval(r1), q) == sel(mval(r0), q)), patterns=[sel(mval(r1), q)])),
                Cut('this matrix', z3.ForAll([a, b], z3.Implies(inab(a, b), m1(w) == z3.If(sel(D, w), m0(w), 0) + coef * M(e)[a][b]), patterns=[m1(w)])),
                Cut('place of the key', z3.If(sel(D, w), z3.And(D == E, MPOS(D, w) >= 0, MPOS(D, w) < MSIZE(D), MKEY(D, MPOS(D, w)) == w), z3.And(MPOS(E, w) >= 0, MPOS(E, w) <= MSIZE(D), MSIZE(E) == MSIZE(D) + 1, MKEY(E, MPOS(E, w)) == w))),
                Cut('the rest', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < MSIZE(D), z3.Or(z3.Not(sel(D, w)), t != MPOS(D, w))), z3.And(sel(D, kt), kt != w, sel(mval(r1), kt) == sel(mval(r0), kt))), patterns=[kt])),
                forall_facts([U, a, b], NEWKEY.inst(r0, r1, w, U, N(e), a, b, MSIZE(E)), [x1]),
                forall_facts([U, a, b], factorsub.inst(m1(w), coef * M(e)[a][b], mon), [x1]),
                Cut('a new term', z3.Implies(z3.Not(sel(D, w)), z3.ForAll([U, a, b], z3.Implies(inab(a, b), x1 == x0 + mon * (coef * M(e)[a][b])), patterns=[x1]))),
                forall_facts([U, a, b], NEWVALUE.inst(r0, r1, w, U, N(e), a, b, MSIZE(E)), [x1]),
                Cut('a term changes', z3.Implies(sel(D, w), z3.ForAll([U, a, b], z3.Implies(inab(a, b), x1 == x0 + mon * (coef * M(e)[a][b])), patterns=[x1]))),
                Cut('one more term', z3.ForAll([U, a, b], z3.Implies(inab(a, b), x1 == x0 + mon * (coef * M(e)[a][b])), patterns=[x1])),
                forall_facts([U], ESI_.unfold(c(e), U, N(e), it.pos), [es1]), forall_facts([U, a, b], assoc.inst(mon, coef, M(e)[a][b]), [x1]), forall_facts([U, a, b], plus_times.inst(ESI(c(e), U, N(e), it.pos), mon * coef, M(e)[a][b]), [x1]),
                forall_facts([U, a, b], factorsub.inst(es1, ESI(c(e), U, N(e), it.pos) + mon * coef, M(e)[a][b]), [x1]),
                Cut('terms so far', z3.ForAll([U, a, b], z3.Implies(inab(a, b), es1 * M(e)[a][b] == ESI(c(e), U, N(e), it.pos) * M(e)[a][b] + mon * (coef * M(e)[a][b])), patterns=[x1]))]

    def outer_step(e):
        it = e.head_val('it_matrix')
        U, a, b = z3.Const(f'U?{fv("U")}', ARR), fv('a'), fv('b')
        es = upto(e, U, a, b, z3.simplify(it.pos + 1))
        return [kvec_ax(), forall_facts([U, a, b], ES_(e, False).unfold(src(e), line(e, U), n(e) + 1, a, b, it.pos), [es])]

    def erase(e):
        return [('place', z3.And(0 <= e['it_result'].pos, e['it_result'].pos <= MSIZE(dom(dst(e)))))] + rest(e) + value(e, lambda U, a, b: upto(e, U, a, b, MSIZE(dom(src(e)))), cong)

    def erase_step(e):
        r0, r1 = sel(mval(e.head_val('this.' + DNP)), k(e)), dst(e)
        w = e.head_val('it_result').key
        U, a, b = z3.Const(f'U?{fv("U")}', ARR), fv('a'), fv('b')
        x1, x0 = EV(e, False, r1, U, N(e), a, b), EV(e, False, r0, U, N(e), a, b)
        E = dom(r1)
        m0 = dat(sel(mval(r0), w))[a][b]
        mon = MON(U, w, N(e))
        return [ordered_insert(e, E, w), forall_facts([U, a, b], NEWKEY.inst(r1, r0, w, U, N(e), a, b, MSIZE(dom(r0))), [x0]),
                Cut('kept or dropped', z3.Or(r0 == r1, z3.And(z3.Store(E, w, True) == dom(r0), z3.Not(sel(E, w)), mval(r0) == mval(r1), z3.ForAll([a, b], z3.Implies(inab(a, b), m0 % MODULUS == 0), patterns=[m0])))),
                forall_facts([U, a, b], modmul.inst(mon, m0, z3.IntVal(0), MODULUS), [x0]), forall_facts([U, a, b], modpair.inst(x1, x1, mon * m0, z3.IntVal(0), MODULUS), [x0]),
                Cut('the value stays', z3.ForAll([U, a, b], z3.Implies(inab(a, b), cong(x0, x1)), patterns=[x0, x1]))]

    def final(e):
        return []

    def start(e):
        D = dom(dst(e))
        e.eng.enumerate_map(e.st, D)
        return [ES_(e, False).base_ax(), Cut('a new map is empty', z3.And(z3.Or(MSIZE(D) == 0, sel(D, MKEY(D, 0))), MSIZE(D) == 0))]
    def outer_head(e):
        w, q = e['it_matrix'].key, fv('q')
        m = n(e) + 1
        x = sel(vdat(e.eng.key_value(e.st, w, VT)), q)
        v, kv = e['v'], k(e)
        L = PTS(ONES, KVEC(kv), ONES[m])
        return [X.ones_ax(), pts_ax(), kvec_ax(), Cut('this exponent', z3.And(exponent(w, m), KSUM(w, m) <= m, KL(w) == m)), Cut('its entries', z3.And(vlen(e.eng.key_value(e.st, w, VT)) == m, forall_range(0, m, lambda q: z3.And(sel(vdat(e.eng.key_value(e.st, w, VT)), q) == KA(w, q), KA(w, q) >= 0), pats=lambda q: [KA(w, q), sel(vdat(e.eng.key_value(e.st, w, VT)), q)]))),
                forall_facts([q], key_entry(e, v, q), [KA(kv, q)]), forall_facts([q], C01.entry_le.inst(vdat(v), m, q), [KA(kv, q)]), Cut('entries of the direction', forall_range(0, m, lambda q: z3.And(KA(kv, q) == sel(vdat(v), q), 0 <= KA(kv, q), KA(kv, q) <= e.f('d')), pats=lambda q: KA(kv, q))),
                forall_facts([q], X.times_one.inst(ONES[m], KVEC(kv)[q]), [L[q]]), Cut('the line at (1, ..., 1)', forall_range(0, m, lambda q: z3.And(0 <= L[q], L[q] <= e.f('d') + 1), pats=lambda q: L[q])),
                X.mon_le.inst(L, w, e.f('d') + 1, m), ksum_nonneg.inst(w, m), X.pow_mono.inst(e.f('d') + 1, KSUM(w, m), m), Cut('coefficients fit', MON(L, w, m) <= X.ROOM)]
    degree = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('degree', e['sum'] == KSUM(e['it_matrix'].key, e['i'])), ('exponents', same_entries(e, 'it_matrix'))], lambda e: n(e) + 1 - e['i'],
                  pre_hints=lambda e: [KSUM_.base(e['it_matrix'].key)] + bounds(e, 'it_matrix'), hints=lambda e: [KSUM_.at_pos(e['it_matrix'].key, e['i'])])
    loops = {0: Loop(outer, lambda e: MSIZE(dom(src(e))) - e['it_matrix'].pos, pre_hints=start, head=outer_head, hints=outer_step), 1: degree,
             2: Loop(inner, lambda e: MSIZE(dom(c(e))) - e['it_monomial'].pos, pre_hints=lambda e: [ESI_.base_ax()], hints=inner_step),
             3: Loop(erase, lambda e: MSIZE(dom(dst(e))) - e['it_result'].pos, hints=erase_step, post=final, follows=['it_result'])}
    return Contract(SRC, 'compute_reduction_matrix_ND_poly', [VI], lambda e: shapeND(e) + [('direction', is_tuple(e['v'], e.f('d'), n(e) + 1))] + invP(e),
                    lambda e: [('stored', has(e, F, k(e)))] + invP(e), loops, modifies=writesP(False), fields=FIELDS_ND, label=SRC + ':compute_reduction_matrix_ND_poly', returns=it_of(F), overflow=True)


plus_times = Lemma('sum times', I('x', 'y', 'z'), lambda x, y, z: (x + y) * z == x * z + y * z)


def same_entries(e, it):
    q = fv('q')
    w = e[it].key
    x = sel(vdat(e.eng.key_value(e.st, w, VT)), q)
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q <= e.f('n')), z3.And(x == KA(w, q), x >= 0, x <= LIM)), patterns=[KA(w, q), x])


pv_change = Lemma('changing one coefficient', AR('c', 'f') + I('x', 'j', 't', 'n'), lambda c, f, x, j, t, n: z3.Implies(z3.And(j >= 0, forall_range(0, n, lambda i: f[i] == c[i] + z3.If(i == j, t, 0), pats=lambda i: f[i])), PV(x, f, n) == PV(x, c, n) + z3.If(j < n, POW(x, j) * t, 0)), induct=5,
                  facts=lambda c, f, x, j, t, n: [PV_.base(x, c), PV_.base(x, f), PV_.at_pos(x, c, n), PV_.at_pos(x, f, n), distr_sum.inst(POW(x, n - 1), c[n - 1], t)])
mon_local = Lemma('monomials depend on their variables only', AR('u', 'w') + [('k', KEYS)] + I('j'), lambda u, w, k, j: z3.Implies(forall_range(0, j, lambda i: u[i] == w[i], pats=lambda i: u[i]), MON(u, k, j) == MON(w, k, j)), induct=3,
                  facts=lambda u, w, k, j: [f for y in (u, w) for f in (MON_.base(y, k), MON_.at_pos(y, k, j))])




def degree_loop():
    """monomial and degree of the current key"""
    base = monomial_loop()
    it = lambda e: e['itM']
    n = lambda e: e.f('n')
    return Loop(lambda e: base.inv(e) + [('degree', e['sum_u'] == KA(it(e).key, n(e) + 1) + KSUM(it(e).key, e['i'])), ('last exponent', sel(vdat(e.eng.key_value(e.st, it(e).key, VT)), n(e) + 1) == KA(it(e).key, n(e) + 1))], base.dec,
                pre_hints=lambda e: base.pre_hints(e) + [KSUM_.base(it(e).key), KSUM_.at_pos(it(e).key, n(e) + 2), ksum_nonneg.inst(it(e).key, n(e) + 1), Cut('power of x', z3.And(0 <= KA(it(e).key, n(e) + 1), KA(it(e).key, n(e) + 1) <= n(e) + 1, KSUM(it(e).key, n(e) + 2) <= n(e) + 1))] + bounds(e),
                hints=lambda e: base.hints(e) + [KSUM_.at_pos(it(e).key, e['i'])])


def bounds(e, it='itM'):
    k, n, j = e[it].key, e.f('n'), fv('j')
    return [forall_facts([j], x, [KSUM(k, j)]) for x in (ksum_mono.inst(k, j, n + 1), ksum_nonneg.inst(k, j))]


def squares(e, P, count):
    j = fv('j')
    x = sel(vdat(P), j)
    return z3.And(vlen(P) == e.f('n') + 2, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < count), square(x)), patterns=[x]))


def gather(e, zz, var, field):
    """the matrices collected per power of x after some keys"""
    k = key(e, e['v'])
    m = sel(mval(e.f(field)), k)
    P = vdat(e[var])
    n = e.f('n')
    x, a, b = fv('x'), fv('a'), fv('b')
    pv = PV(x, CF(e, zz)(P, a, b), n + 2)
    es = ES_(e, zz).fn(m, z3.Store(vdat(e['u']), n + 1, x), n + 2, a, b, e['itM'].pos)
    top = dat(sel(P, n + 1))[a][b]
    return [('place', z3.And(0 <= e['itM'].pos, e['itM'].pos <= MSIZE(dom(m)))), ('square', squares(e, e[var], n + 2)), ('top degree', z3.ForAll([a, b], z3.Implies(z3.And(1 <= a, a < DIM), top == 0), patterns=[top])),
            ('partial sum', z3.ForAll([x, a, b], z3.Implies(inab(a, b), pv == es), patterns=[pv]))]


def gather_step(e, zz, var, field):
    k = key(e, e['v'])
    m = sel(mval(e.f(field)), k)
    n = e.f('n')
    it = e.head_val('itM')
    w = it.key
    old, new = vdat(e.head_val(var)), vdat(e[var])
    M = dat(sel(mval(m), w))
    u = vdat(e['u'])
    j = KA(w, n + 1)
    mon = MON(u, w, n + 1)
    x, a, b, i = fv('x'), fv('a'), fv('b'), fv('i')
    U = z3.Store(u, n + 1, x)
    C = CF(e, zz)
    pv1 = PV(x, C(new, a, b), n + 2)
    pos = z3.simplify(it.pos + 1)
    es1 = ES_(e, zz).fn(m, U, n + 2, a, b, pos)
    return [KSUM_.at_pos(w, n + 2), ksum_nonneg.inst(w, n + 1), Cut('power of x', z3.And(0 <= j, j <= n + 1, KSUM(w, n + 2) == KSUM(w, n + 1) + j)),
            Cut('one matrix grows', z3.ForAll([i, a, b], z3.Implies(z3.And(inab(a, b), 0 <= i, i < n + 2), dat(sel(new, i))[a][b] == dat(sel(old, i))[a][b] + z3.If(i == j, mon * M[a][b], 0)), patterns=[dat(sel(new, i))[a][b]])),
            forall_facts([x, a, b], pv_change.inst(C(old, a, b), C(new, a, b), x, j, mon * M[a][b], n + 2), [pv1]),
            Cut('values', z3.ForAll([x, a, b], z3.Implies(inab(a, b), pv1 == PV(x, C(old, a, b), n + 2) + POW(x, j) * (mon * M[a][b])), patterns=[pv1])),
            forall_facts([x, a, b], ES_(e, zz).unfold(m, U, n + 2, a, b, it.pos), [es1]), z3.ForAll([x], MON_.at_pos(U, w, n + 2), patterns=[MON(U, w, n + 2)]), z3.ForAll([x], mon_local.inst(U, u, w, n + 1), patterns=[MON(U, w, n + 2)]),
            Cut('monomial with x', z3.ForAll([x], MON(U, w, n + 2) == mon * POW(x, j), patterns=[MON(U, w, n + 2)])),
            forall_facts([x, a, b], reassoc.inst(POW(x, j), mon, M[a][b]), [pv1]), forall_facts([x, a, b], assoc.inst(mon, POW(x, j), M[a][b]), [pv1])]


assoc = Lemma('associativity', I('r', 'x', 'g'), lambda r, x, g: (r * x) * g == r * (x * g))


prodsub = Lemma('substituting a product', I('p', 'q', 'r', 's'), lambda p, q, r, s: z3.Implies(p * q == r, (p * q) * s == r * s))

pv_mod = Lemma('values of congruent polynomials', AR('c', 'f') + I('x', 'm', 'n'), lambda c, f, x, m, n: z3.Implies(z3.And(m > 0, forall_range(0, n, lambda i: c[i] % m == f[i] % m, pats=lambda i: c[i])), PV(x, c, n) % m == PV(x, f, n) % m), induct=4,
               facts=lambda c, f, x, m, n: [PV_.base(x, c), PV_.base(x, f), PV_.at_pos(x, c, n), PV_.at_pos(x, f, n), modmul.inst(POW(x, n - 1), c[n - 1], f[n - 1], m), modpair.inst(PV(x, c, n - 1), PV(x, f, n - 1), POW(x, n - 1) * c[n - 1], POW(x, n - 1) * f[n - 1], m)])
dot_congmod = Lemma('inner products of congruent vectors', AR('p', 'q', 'r', 's') + I('n', 'm'), lambda p, q, r, s, n, m: z3.Implies(z3.And(m > 0, forall_range(0, n, lambda b: z3.And(p[b] % m == r[b] % m, q[b] % m == s[b] % m), pats=lambda b: p[b])), DOT(p, q, n) % m == DOT(r, s, n) % m), induct=4,
                    facts=lambda p, q, r, s, n, m: [DOT.base(p, q), DOT.base(r, s), DOT.at_pos(p, q, n), DOT.at_pos(r, s, n), modprod.inst(p[n - 1], q[n - 1], r[n - 1], s[n - 1], m), modpair.inst(DOT(p, q, n - 1), DOT(r, s, n - 1), p[n - 1] * q[n - 1], r[n - 1] * s[n - 1], m)])
modprod = Lemma('products of congruent numbers', I('x', 'y', 'c', 'd', 'm'), lambda x, y, c, d, m: z3.Implies(z3.And(m > 0, x % m == c % m, y % m == d % m), (x * y) % m == (c * d) % m),
                facts=lambda x, y, c, d, m: [modmul.inst(x, y, d, m), modmul.inst(d, x, c, m), Lcomm.inst(x, d), Lcomm.inst(c, d)])
Lcomm = Lemma('commutativity', I('x', 'y'), lambda x, y: x * y == y * x)


def rems(depth, coll, pre):
    """poly = poly_unreduced modulo the modulus, cell by cell"""
    v = 'ijk'[depth]

    def done(e):
        i, a, b = fv('i'), fv('a'), fv('b')
        N = e.f('n') + 2
        j, k = [e[x] if depth > d else 0 for d, x in ((0, 'j'), (1, 'k'))]
        x = dat(sel(vdat(e['poly']), i))[a][b]
        I_ = e['i']
        was = z3.Or(i < I_, z3.And(i == I_, z3.Or(a < j, z3.And(a == j, b < k))) if depth else False)
        return z3.ForAll([i, a, b], z3.Implies(z3.And(0 <= i, i < N, inab(a, b), was), x == dat(sel(vdat(e[coll]), i))[a][b] % MODULUS), patterns=[x])

    def top(e):
        a, b = fv('a'), fv('b')
        t = dat(sel(vdat(e['poly']), e.f('n') + 1))[a][b]
        return z3.ForAll([a, b], z3.Implies(z3.And(1 <= a, a < DIM, inab(a, b)), t == 0), patterns=[t])
    size = lambda e: e.f('n') + 2 if depth == 0 else DIM
    return Loop(lambda e: [('counter', z3.And(0 <= e[v], e[v] <= size(e))), ('square', squares(e, e['poly'], e.f('n') + 2)), ('reduced', done(e)), ('top degree', top(e))], lambda e: size(e) - e[v], pre_hints=pre or (lambda e: []))


factorsub = Lemma('substituting a factor', I('p', 'r', 's'), lambda p, r, s: z3.Implies(p == r, p * s == r * s))


def poly_form(name, field, zz):
    k = lambda e: key(e, e['v'])
    m = lambda e: sel(mval(e.f(field)), k(e))
    g = lambda e: vdat(e.old('G'))
    u, v = (lambda e: vdat(e['u'])), (lambda e: vdat(e['v']))
    T = lambda e: e['iterations']
    n = lambda e: e.f('n')
    W = lambda e, t: ITND(k(e), u(e), v(e), g(e), T(e), t)
    rel = cong

    def now(e, vec, t):
        a = fv('a')
        x = sel(vdat(vec), a)
        return z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), rel(x, W(e, t)[a])), patterns=[x])

    coll = 'poly_unreduced' if zz else 'poly'

    def value(e, var='poly'):
        """the collected matrices at x are the reduction map at u + x v"""
        x, a, b = fv('x'), fv('a'), fv('b')
        pv = PV(x, CF(e, zz)(vdat(e[var]), a, b), n(e) + 2)
        return ('collected matrices', z3.ForAll([x, a, b], z3.Implies(inab(a, b), rel(pv, REDND(k(e), PTS(u(e), v(e), x), a, b))), patterns=[pv]))

    def partial(e, i):
        a = fv('a')
        x = sel(vdat(e['Gout']), a)
        return z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), x == DOT(PROW(e, zz)(vdat(e['poly']), e['x'], a, i), vdat(e['Gin']), DIM)), patterns=[x])

    def shapes(e):
        return [('square', squares(e, e['poly'], n(e) + 2)), ('top degree', top(e))]

    def top(e):
        a, b = fv('a'), fv('b')
        t = dat(sel(vdat(e['poly']), n(e) + 1))[a][b]
        return z3.ForAll([a, b], z3.Implies(z3.And(1 <= a, a < DIM, inab(a, b)), t == 0), patterns=[t])

    def entry(e):
        """after the collection"""
        x, a, b = fv('x'), fv('a'), fv('b')
        P = vdat(e[coll])
        U = z3.Store(u(e), n(e) + 1, x)
        pv = PV(x, CF(e, zz)(P, a, b), n(e) + 2)
        return [itnd_base(k(e), u(e), v(e), g(e), T(e)), kvec_ax(), pts_ax(), Cut('all keys', z3.ForAll([x, a, b], z3.Implies(inab(a, b), cong(pv, REDND(k(e), PTS(U, KVEC(k(e)), x), a, b))), patterns=[pv])),
                forall_facts([x, a, b], red_local(k(e), PTS(U, KVEC(k(e)), x), PTS(u(e), v(e), x), a, b, n(e)), [pv]),
                Cut('the direction', forall_range(0, n(e) + 1, lambda i: KVEC(k(e))[i] == v(e)[i], pats=lambda i: KVEC(k(e))[i])), Cut(*value(e, coll))]

    def grow(e, i):
        """Gout takes in M_i"""
        a, b = fv('a'), fv('b')
        P, x, gin = vdat(e['poly']), e['x'], vdat(e['Gin'])
        R = lambda a, j: PROW(e, zz)(P, x, a, j)
        r1, r0, M = R(a, z3.simplify(i + 1)), R(a, i), dat(sel(P, i))
        y = sel(vdat(e['Gout']), a)
        return [forall_facts([a, b], PV_.unfold(x, CF(e, zz)(P, a, b), i), [PV(x, CF(e, zz)(P, a, b), z3.simplify(i + 1))]),
                Cut('rows', z3.ForAll([a, b], z3.Implies(inab(a, b), r1[b] == r0[b] + POW(x, i) * M[a][b]), patterns=[r1[b]])), forall_facts([a], dot_line.inst(r1, r0, M[a], gin, gin, POW(x, i), DIM), [y]),
                Cut('inner products', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), DOT(r1, gin, DIM) == DOT(r0, gin, DIM) + POW(x, i) * DOT(M[a], gin, DIM)), patterns=[y]))]

    def step(e):
        """one application of the map"""
        x = e.head_val('x')
        t = z3.simplify(T(e) - 1 - x)
        count = Cut('count of steps', W(e, T(e) - 1 - e['x']) == W(e, z3.simplify(t + 1)))
        a = fv('a')
        y, o = sel(vdat(e['Gin']), a), sel(vdat(e['Gout']), a)
        r = z3.And(0 <= a, a < DIM)
        return [count, forall_facts([a], modmod.inst(o, MODULUS), [y]), Cut('reduced entries', z3.ForAll([a], z3.Implies(r, y == o % MODULUS), patterns=[y])),
                Cut('congruent to the step', z3.ForAll([a], z3.Implies(r, o % MODULUS == W(e, z3.simplify(t + 1))[a] % MODULUS), patterns=[y])),
                Cut('congruent entries', z3.ForAll([a], z3.Implies(r, y % MODULUS == W(e, z3.simplify(t + 1))[a] % MODULUS), patterns=[y]))] if zz else [count] + apply(e, x, vdat(e.head_val('Gin')), vdat(e['Gin']))

    def apply(e, x, old, out):
        t = z3.simplify(T(e) - 1 - x)
        a, b = fv('a'), fv('b')
        P = vdat(e['poly'])
        N = n(e) + 2
        row, red = PROW(e, zz)(P, x, a, N), REDROW(k(e), PTS(u(e), v(e), x), a)
        y = sel(out, a)
        top = sel(P, n(e) + 1)
        d = DOT(dat(top)[0], old, NC(top))
        cong = dot_congmod.inst(row, old, red, W(e, t), DIM, MODULUS)
        return [itnd_def(k(e), u(e), v(e), g(e), T(e), t), redrow_ax(), forall_facts([a], cong, [y]),
                Cut('rows', z3.ForAll([a, b], z3.Implies(inab(a, b), rel(row[b], red[b])), patterns=[row[b]])),
                Cut('the vector so far', z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < DIM), rel(old[b], W(e, t)[b])), patterns=[old[b]])),
                POW_.unfold(x, n(e)), Cut('last power', e['xpower'] == POW(x, n(e) + 1)), factorsub.inst(e['xpower'], POW(x, n(e) + 1), d), factorsub.inst(d, DOT(dat(top)[0], old, DIM), POW(x, n(e) + 1)), Cut('shape', NC(top) == DIM),
                Cut('first entry', sel(out, 0) == DOT(PROW(e, zz)(P, x, 0, N), old, DIM)),
                Cut('one step', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), y == DOT(row, old, DIM)), patterns=[y]))] + (
            [Cut('one step, modulo', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), rel(y, W(e, z3.simplify(t + 1))[a])), patterns=[y]))])

    def start(e):
        """the reduced matrices take congruent values"""
        x, a, b = fv('x'), fv('a'), fv('b')
        c, f = (CF(e, zz)(vdat(e[p]), a, b) for p in ('poly', coll))
        return cf_ax(e, zz) + [itnd_base(k(e), u(e), v(e), g(e), T(e)), forall_facts([x, a, b], pv_mod.inst(c, f, x, MODULUS, n(e) + 2), [PV(x, c, n(e) + 2)])]

    def one_entry(e):
        b, j = fv('b'), e.head_val('j')
        x = sel(vdat(e['Gin']), b)
        return [Cut('this entry', sel(vdat(e['Gin']), j) == sel(vdat(e['Gout']), j) % MODULUS), Cut('the other entries', z3.ForAll([b], z3.Implies(b != j, x == sel(vdat(e.head_val('Gin')), b)), patterns=[x]))]

    def reduced(e, j):
        b = fv('b')
        x = sel(vdat(e['Gin']), b)
        return z3.ForAll([b], z3.Implies(z3.And(0 <= b, b < j), x == sel(vdat(e['Gout']), b) % MODULUS), patterns=[x])

    def inner_post(e):
        a = fv('a')
        P, gin = vdat(e['poly']), vdat(e['Gin'])
        M = dat(sel(P, n(e) + 1))
        y = sel(vdat(e['Gout']), a)
        r1, r0 = PROW(e, zz)(P, e['x'], a, n(e) + 2), PROW(e, zz)(P, e['x'], a, n(e) + 1)
        return grow(e, n(e) + 1) + [POW_.unfold(e['x'], n(e)), forall_facts([a], C11.dot_zero.inst(M[a], gin, DIM), [y]),
                                    Cut('rows below the first', z3.ForAll([a], z3.Implies(z3.And(1 <= a, a < DIM), DOT(r1, gin, DIM) == y), patterns=[y]))]
    base = lambda e: [POW_.base(e['x']), forall_facts([fv('z')], PV_.base_ax(), [z3.IntVal(0)]) if False else PV_.base_ax()]

    def inner_pre(e):
        a = fv('a')
        P, gin = vdat(e['poly']), vdat(e['Gin'])
        r0 = PROW(e, zz)(P, e['x'], a, z3.IntVal(0))
        y = sel(vdat(e['Gout']), a)
        return [POW_.base(e['x']), PV_.base_ax(), forall_facts([a], C11.dot_zero.inst(r0, gin, DIM), [y])] + grow(e, z3.IntVal(0))
    def taken(e):
        i, x = e.head_val('i'), e['x']
        a = fv('a')
        P, gin = vdat(e['poly']), vdat(e['Gin'])
        d = DOT(dat(sel(P, i))[a], gin, DIM)
        y = sel(vdat(e['Gout']), a)
        xp = e.head_val('xpower')
        return [POW_.unfold(x, z3.simplify(i - 1)), Cut('next power', xp * x == POW(x, i)), forall_facts([a], prodsub.inst(xp, x, POW(x, i), d, ), [y]),
                Cut('the new term', z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), y == sel(vdat(e.head_val('Gout')), a) + POW(x, i) * d), patterns=[y]))]

    it = lambda e: e['itM']
    setdims = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 2)), ('square and zero', squares(e, e['poly'], e['i'])), ('zero', zero(e, 'poly', e['i'])), ('blank', blank(e, 'poly', e['i']))], lambda e: n(e) + 2 - e['i'])
    traverse = Loop(lambda e: gather(e, zz, coll, field), lambda e: MSIZE(dom(m(e))) - it(e).pos, pre_hints=lambda e: cf_ax(e, zz) + [ES_(e, zz).base_ax()] + pv_zeros(e, zz, coll), hints=lambda e: cf_ax(e, zz) + gather_step(e, zz, coll, field))
    main = Loop(lambda e: [('counter', z3.And(-1 <= e['x'], e['x'] <= T(e) - 1)), ('length', vlen(e['Gin']) == DIM), ('steps taken', now(e, e['Gin'], T(e) - 1 - e['x'])), value(e)] + shapes(e), lambda e: e['x'] + 1, pre_hints=start if zz else entry, hints=step)
    inner = Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= n(e) + 1)), ('power', e['xpower'] == POW(e['x'], e['i'] - 1)), ('length', vlen(e['Gout']) == DIM), ('partial sum', partial(e, e['i']))], lambda e: n(e) + 1 - e['i'],
                 pre_hints=lambda e: cf_ax(e, zz) + inner_pre(e), hints=lambda e: cf_ax(e, zz) + grow(e, e.head_val('i')) + taken(e), post=inner_post)
    reduce = Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= DIM)), ('length', vlen(e['Gin']) == DIM), ('reduced', reduced(e, e['j']))], lambda e: DIM - e['j'], pre_hints=lambda e: cf_ax(e, zz) + apply(e, e['x'], vdat(e['Gin']), vdat(e['Gout'])), hints=one_entry)
    loops = {0: two_sums(), 1: setdims, 2: traverse, 3: degree_loop(), 4: main, 5: inner}
    if zz:
        loops = {0: two_sums(), 1: setdims, 2: traverse, 3: degree_loop(), **{4 + d: rems(d, coll, entry if d == 0 else None) for d in range(3)}, 7: main, 8: inner, 9: reduce}
    return Contract(SRC, name, None, lambda e: [x for x in admissible(e, field, zz) if not x[0].startswith('reduction_matrix')] + [('vector of the right length', vlen(e['G']) == DIM), ('steps', z3.And(T(e) >= 0, T(e) < (1 << 63)))] + invP(e),
                    lambda e: [('length', vlen(e['result']) == DIM), ('the steps one after the other', now(e, e['result'], T(e)))] + invP(e), loops, modifies=['result'] + writesP(zz), fields=FIELDS_ND, overflow=True, label=f'{SRC}:{name}', timeout=20)


def zero(e, var, count):
    j, a, b = fv('j'), fv('a'), fv('b')
    x = dat(sel(vdat(e[var]), j))[a][b]
    return z3.ForAll([j, a, b], z3.Implies(z3.And(0 <= j, j < count), x == 0), patterns=[x])


def blank(e, var, i):
    j = fv('j')
    x = sel(vdat(e[var]), j)
    return z3.ForAll([j], z3.Implies(z3.And(i <= j, j < e.f('n') + 2), z3.And(NR(x) == 0, NC(x) == 0)), patterns=[x])


pv_zero = Lemma('the zero polynomial', AR('c') + I('x', 'n'), lambda c, x, n: z3.Implies(forall_range(0, n, lambda i: c[i] == 0, pats=lambda i: c[i]), PV(x, c, n) == 0), induct=2, facts=lambda c, x, n: [PV_.base(x, c), PV_.at_pos(x, c, n)])


def pv_zeros(e, zz, var):
    x, a, b = fv('x'), fv('a'), fv('b')
    c = CF(e, zz)(vdat(e[var]), a, b)
    pv = PV(x, c, e.f('n') + 2)
    return [forall_facts([x, a, b], pv_zero.inst(c, x, e.f('n') + 2), [pv])]


SAME = same_values()


def converted(name, zfield, field, callee, what, nvars, var):
    """the integer form of a cached polynomial: the same keys, the same entries"""
    k = lambda e: key(e, e['v'])
    src = lambda e: sel(mval(e.f(field)), k(e))
    dst = lambda e: sel(mval(e.f(zfield)), k(e))
    others = [f for f in (DN, DNZ, DNP, DNPZ) if f != zfield]
    inv = invND if zfield == DNZ else invP

    def copied(e):
        w = z3.Const(f'w?{fv("w")}', KEYS)
        a, b = fv('a'), fv('b')
        z, p = sel(mval(dst(e)), w), sel(mval(src(e)), w)
        seen = z3.And(sel(dom(src(e)), w), MPOS(dom(src(e)), w) < e[var].pos)
        here = has(e, zfield, k(e))
        return [('place', z3.And(0 <= e[var].pos, e[var].pos <= MSIZE(dom(src(e))))),
                ('keys so far', z3.Implies(here, z3.ForAll([w], sel(dom(dst(e)), w) == seen, patterns=[sel(dom(dst(e)), w)]))),
                ('entries so far', z3.Implies(here, z3.ForAll([w], z3.Implies(seen, z3.And(NR(z) == NR(p), NC(z) == NC(p), dat(z) == dat(p))), patterns=[z]))),
                ('present', z3.Implies(e[var].pos > 0, here) if zfield == DNPZ else here)] + rest(e)

    def rest(e):
        q = z3.Const(f'k?{fv("k")}', KEYS)
        m, o = e.f(zfield), e.oldf(zfield)
        return [('other directions', z3.ForAll([q], z3.Implies(q != k(e), z3.And(sel(dom(m), q) == sel(dom(o), q), sel(mval(m), q) == sel(mval(o), q))), patterns=[sel(mval(m), q)])), ('represented', has(e, field, k(e)))]

    def nonempty(e, m, N):
        if zfield != DNPZ:
            return []
        K, n = k(e), e.f('n')
        U = z3.Store(NZU(K), n + 1, 0)
        a, b = NZA(K), NZB(K)
        return [not_zero(e, K), pts_ax(), red_local(K, PTS(U, KVEC(K), z3.IntVal(0)), NZU(K), a, b, n), Cut('value there', cong(EV(e, False, m, U, N, a, b), REDND(K, NZU(K), a, b))), ES_(e, False).base(m, U, N, a, b),
                Cut('the polynomial is not empty', MSIZE(dom(m)) != 0), Cut('its copy exists', has(e, zfield, K))]

    def same(e):
        w = z3.Const(f'w?{fv("w")}', KEYS)
        u, a, b = z3.Const(f'u?{fv("u")}', ARR), fv('a'), fv('b')
        N = nvars(e)
        z, p = dst(e), src(e)
        ez = EV(e, True, z, u, N, a, b)
        return nonempty(e, p, N) + [Cut('the same keys', z3.ForAll([w], sel(dom(z), w) == sel(dom(p), w), patterns=[sel(dom(z), w)])), Cut('the same domain', dom(z) == dom(p)),
                Cut('the same entries', z3.ForAll([w], z3.Implies(sel(dom(p), w), z3.And(NR(sel(mval(z), w)) == NR(sel(mval(p), w)), NC(sel(mval(z), w)) == NC(sel(mval(p), w)), dat(sel(mval(z), w)) == dat(sel(mval(p), w)))), patterns=[sel(mval(z), w)])),
                forall_facts([u, a, b], SAME.inst(z, p, u, N, a, b, MSIZE(dom(z))), [ez]),
                Cut('the same values', z3.ForAll([u, a, b], z3.Implies(inab(a, b), ez == EV(e, False, p, u, N, a, b)), patterns=[ez]))] + [Cut(f'the new polynomial: {l}', f) for l, f in what(e, True, z, k(e))]
    tr = Loop(copied, lambda e: MSIZE(dom(src(e))) - e[var].pos, post=same)
    return Contract(SRC, name, [VI], lambda e: shapeND(e) + [('direction', is_tuple(e['v'], e.f('d'), e.f('n') + 1))] + inv(e),
                    lambda e: [('stored', has(e, zfield, k(e))), ('not zero', nonzero(k(e)))] + inv(e), {0: tr}, modifies=(writes if zfield == DNZ else writesP)(True), fields=FIELDS_ND, label=f'{SRC}:{name}', returns=it_of(zfield), ret_hint=lambda e: [not_zero(e, k(e))])


def not_zero(e, k):
    """multiplication by the monomial of a direction is not zero: its part on the constant is v itself"""
    return Fact(nonzero(k), 'theorem: the reduction map of a direction is not the zero map')


def compute_ZZ():
    return converted('compute_reduction_matrix_ND_ZZ', DNZ, DN, 'compute_reduction_matrix_ND', represents, lambda e: e.f('n') + 1, 'it_result')


def compute_poly_ZZ():
    return converted('compute_reduction_matrix_ND_poly_ZZ', DNPZ, DNP, 'compute_reduction_matrix_ND_poly', on_line, lambda e: e.f('n') + 2, 'it_result')


def contracts():
    return [matrix_form('get_reduction_matrix_ND', DN, False), matrix_form('get_reduction_matrix_ND_ZZ', DNZ, True), vector_form('reduce_vector_ND', DN, False), vector_form('reduce_vector_ND_ZZ', DNZ, True), poly_form('reduce_vector_ND_poly', DNP, False), poly_form('reduce_vector_ND_poly_ZZ', DNPZ, True), compute(), compute_ZZ(), compute_poly(), expand(), compute_poly_ZZ()] + X.base()


def lemmas():
    return [distr3, distr_sum, dot_line, sum_mono, prefix_range, C06.modshift, C06.modadd, C06.distr, moddiff, modmod, modmul, modpair, modterm, reassoc, dot_scaled, dot_rows, C11.dot_zero, pv_change, mon_local, ksum_nonneg, ksum_mono, assoc, prodsub, factorsub, pv_mod, dot_congmod, modprod, Lcomm, pv_zero, C14.dot_cong, SAME, NEWKEY, NEWVALUE, minus, plus_times] + [l for l in X.lemmas() if l is not minus]


def theorems():
    return ['the reduction map of a direction is not the zero map modulo p^precision (reduce_vector_ND_ZZ reads the first term without testing for an empty polynomial): stated, not proved',
            'std::map traverses its keys in the order of the comparison: inserting or erasing one key moves the later ones by one place']
