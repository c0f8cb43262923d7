"""Reduction steps in the Jacobian model: every form applies M_0 + sum u_i M_i."""
from .drlib import *
from . import C01, C06
from . import C02, C03, C10
from .C01 import nonneg, sum_mono, entry_le
from .jmodel import *

D = 'reduction_matrix_J_dict'
DZ = 'reduction_matrix_J_ZZ_dict'


def _it(field):
    def f(v):
        k = key(v, v['v'])
        return Iter(LV(('this', field), (), ty(FIELDS[field])), k, z3.BoolVal(False))
    return f


def inv_all(e):
    return object_J(e) + sizes(e) + solved_sizes(e) + inv_J(e) + inv_solve(e)


def direction(e):
    return [('direction', is_tuple(e['v'], e.f('d'), e.f('n') + 1))]


def kept_caches(e):
    return inv_J(e) + inv_solve(e)


def admissible(e):
    n, d = e.f('n'), e.f('d')
    u, v = e['u'], e['v']
    return [('lengths', z3.And(vlen(u) == n + 1, vlen(v) == n + 1)), ('v is a direction', z3.And(nonneg(vdat(v), n + 1), SUM(vdat(v), n + 1) == d, d <= (1 << 31))),
            ('u_i = 0 where v_i = 0', forall_range(0, n + 1, lambda i: z3.Or(sel(vdat(u), i) == 0, sel(vdat(v), i) > 0), pats=lambda i: sel(vdat(u), i)))] + inv_all(e)


def other_kept(e, field):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    a, b = e.f(field), e.oldf(field)
    return z3.ForAll([k], z3.Implies(sel(dom(b), k), z3.And(sel(dom(a), k), sel(mval(a), k) == sel(mval(b), k))), patterns=[sel(mval(b), k), sel(mval(a), k)])


def computeJ(use_only=False):
    n = lambda e: e.f('n')
    V = lambda e: e.old('v')
    k = lambda e: key(e, V(e))
    T = lambda e: RedTerms(e, k(e))
    M = lambda e: sel(mval(e.f(D)), k(e))
    cur = lambda e: e['coordinate_of_monomial']
    cell = lambda e, j, a, b: sel(sel(dat(sel(vdat(M(e)), j)), a), b)

    def only_here(e):
        q = z3.Const(f'k?{fv("k")}', KEYS)
        m, o = e.f(D), e.oldf(D)
        return [('only the entry of v', z3.And(dom(m) == z3.Store(dom(o), k(e), z3.BoolVal(True)), z3.ForAll([q], z3.Implies(q != k(e), sel(mval(m), q) == sel(mval(o), q)), patterns=[sel(mval(m), q)]))),
                ('number of matrices', vlen(M(e)) == n(e) + 2)]

    def shapes(e, upto=None):
        j = fv('j')
        x = sel(vdat(M(e)), j)
        N = TLN(e, level_G(e))
        ok = z3.And(NR(x) == N, NC(x) == N)
        if upto is not None:
            ok = z3.If(j < upto, ok, z3.And(NR(x) == 0, NC(x) == 0))
        return [('shapes', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n(e) + 2), ok), patterns=[x]))]

    def cellsJ(e, val):
        j, a, b = fv('j'), fv('a'), fv('b')
        x = cell(e, j, a, b)
        return ('cells', z3.ForAll([j, a, b], z3.Implies(z3.And(0 <= j, j <= n(e) + 1), x == val(j, a, b)), patterns=[x]))
    done = lambda e, upto: cellsJ(e, lambda j, a, b: z3.If(b < upto, RM(k(e), j)[a][b], 0))

    def partial(e, i, c):
        """column cur(e), directions below i done, and direction i up to monomial c"""
        t = T(e)

        def val(j, a, b):
            i1 = j - 1
            zero = t.rs(a, cur(e), i) + (0 if c is None else z3.If(z3.And(t.present(a, i), t.pos(a, i) < c), sel(vdat(t.g(a)), i) * t.coeff(a, i, cur(e)), 0))
            upto = i1 < i if c is None else z3.Or(i1 < i, z3.And(i1 == i, t.pos(a, i1) < c))
            here = z3.If(j == 0, zero, z3.If(z3.And(t.present(a, i1), upto), t.coeff(a, i1, cur(e)), 0))
            return z3.If(b == cur(e), z3.If(t.inr(a), here, 0), z3.If(b < cur(e), RM(k(e), j)[a][b], 0))
        return cellsJ(e, val)

    def ones(e, i):
        return [('ones', z3.And(vlen(e['one_minus_ei']) == n(e) + 1, forall_range(0, i, lambda q: sel(vdat(e['one_minus_ei']), q) == 1, pats=lambda q: sel(vdat(e['one_minus_ei']), q))))]

    def less(e):
        return [('ones but at i', z3.And(vlen(e['one_minus_ei']) == n(e) + 1, forall_range(0, n(e) + 1, lambda q: sel(vdat(e['one_minus_ei']), q) == z3.If(q == e['i'], 0, 1), pats=lambda q: sel(vdat(e['one_minus_ei']), q))))]

    def wloop(e):
        p, w = vdat(e.pre('w')), vdat(e['w'])
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('length', vlen(e['w']) == n(e) + 1), ('all positive so far', e['boolean']),
                ('one unit less', forall_range(0, e['i'], lambda q: z3.And(w[q] == p[q] - 1, p[q] > 0), pats=lambda q: w[q])), ('the rest', forall_range(e['i'], n(e) + 1, lambda q: w[q] == p[q], pats=lambda q: w[q]))]

    def wpost(e):
        kf, kl, ka, wit = keyax(e)
        m = n(e) + 1
        w, p = vdat(e['w']), vdat(e.pre('w'))
        t = T(e)
        c = cur(e)
        x = t.w(c)
        kw = kf(e['w'])
        i, q = e['i'], fv('q')
        b = fv('b')
        g = t.g(c)
        return ki_ax(e) + [minus_ones.inst(p, w, m), Cut('sum before', SUM(p, m) == t.lG + e.f('d')), Cut('a tuple', z3.Implies(i == m, is_tuple(e['w'], t.lT, m))),
                same_key(e, kw, x), z3.ForAll([q], z3.And(key_entry(e, V(e), q), key_entry(e, e['w'], q)), patterns=[ka(x, q)]), key_entry(e, V(e), i), Fact(z3.Implies(z3.And(0 <= i, i < m), ka(x, i) == sel(vdat(g), i) + ka(k(e), i) - 1), 'definition of key_of_product_without_x0_xn'),
                z3.ForAll([b], key_entry(e, TL(e, t.lT, b), i), patterns=[kf(TL(e, t.lT, b))]),
                Cut('the same monomial', z3.Implies(i == m, kw == x)), Cut('listed', z3.Implies(i == m, z3.And(t.listed(c), 0 <= t.cw(c), t.cw(c) < TLN(e, t.lT)))), Cut('a monomial that is not divisible', z3.Implies(z3.And(i < m, p[i] <= 0), z3.Not(t.listed(c))))]

    def fvals(e, upto=None):
        q = fv('q')
        t = T(e)
        x = sel(vdat(e['F']), q)
        return ('column of the solution', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < (vlen(e['F']) if upto is None else upto)), x == t.U[q][t.cw(cur(e))]), patterns=[x]))
    flen = lambda e: ('length', vlen(e['F']) == NR(acc('second', SOLVED(e, top_level(e)))))

    def step(e):
        kf, kl, ka, wit = keyax(e)
        a, q = fv('a'), fv('q')
        i, c = e['i'], e.head_val('coordinate_of_monomial_of_Fi')
        t = T(e)
        s = TL(e, t.lF, c)
        g = t.g(a)
        dn = DOWN(e, g, i)
        kd, kg, ks = kf(dn), kf(g), kf(s)
        out = [z3.ForAll([a], same_key(e, kd, ks), patterns=[kd]), z3.ForAll([a, q], z3.And(key_entry(e, dn, q), key_entry(e, s, q), key_entry(e, g, q)), patterns=[ka(kd, q), ka(kg, q)]),
               z3.ForAll([a], z3.And(key_entry(e, dn, i), key_entry(e, g, i)), patterns=[kd]), key_entry(e, s, i), z3.ForAll([q], key_entry(e, s, q), patterns=[ka(ks, q)]), C10.col_def(i, c, t.dimF)]
        if e.eng.lookups:
            kw = e.eng.lookups[-1]
            out += [z3.ForAll([a], same_key(e, kg, kw), patterns=[kg]), Cut('the row of this monomial', z3.ForAll([a], z3.Implies(t.inr(a), z3.And(t.present(a, i), t.pos(a, i) == c) == (a == sel(mval(TD(e, t.lG)), kw))), patterns=[dn])),
                    Cut('its row is inside', t.inr(sel(mval(TD(e, t.lG)), kw)))]
        hit = z3.And(t.inr(a), t.present(a, i), t.pos(a, i) == c)
        y = sel(vdat(e['F']), i * t.dimF + c)
        out += [Cut('the entry of the solution', t.coeff_at(i, c, cur(e)) == y),
                Cut('its exponent', z3.ForAll([a], z3.Implies(hit, z3.And(sel(vdat(g), i) == sel(vdat(s), i))), patterns=[dn])),
                Cut('the summand', last=2, f=z3.ForAll([a], z3.Implies(hit, z3.And(sel(vdat(g), i) * t.coeff(a, i, cur(e)) == sel(vdat(s), i) * y, t.coeff(a, i, cur(e)) == y)), patterns=[dn]))]
        return out

    def rs_at(e, i):
        a = fv('a')
        t = T(e)
        return z3.ForAll([a], t.rs_at(a, cur(e), i), patterns=[t.rs(a, cur(e), i)])

    def within(e):
        a, i = fv('a'), fv('i')
        t = T(e)
        return down_ax(e) + [Cut('positions', z3.ForAll([a, i], z3.Implies(t.present(a, i), z3.And(0 <= t.pos(a, i), t.pos(a, i) < t.dimF)), patterns=[t.kd(a, i)]))]
    start = lambda e: [level_fits.inst(n(e), e.f('d')), entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])]), C10.col_ax(), C10.rp3.inst(n(e) + 1, T(e).dimF), sizefit.inst(n(e) + 1, T(e).dimF)]
    frame = lambda e: only_here(e) + shapes(e)
    loops = {
        0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 2))] + only_here(e) + shapes(e, e['i']) + [cellsJ(e, lambda j, a, b: z3.IntVal(0))], lambda e: n(e) + 2 - e['i'], pre_hints=start),
        1: Loop(lambda e: [('counter', z3.And(0 <= cur(e), cur(e) <= TLN(e, level_G(e))))] + frame(e) + [done(e, cur(e))], lambda e: TLN(e, level_G(e)) - cur(e), pre_hints=lambda e: start(e) + rm_ax(e, k(e)) + within(e)),
        2: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1))] + ones(e, e['i']), lambda e: n(e) + 1 - e['i']),
        3: Loop(wloop, lambda e: n(e) + 1 - e['i'], post=wpost),
        4: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('partial sum', e['sum'] == SUM(vdat(e['w']), e['i']))], lambda e: n(e) + 1 - e['i'], hints=lambda e: [SUM.at_pos(vdat(e['w']), e['i'])], pre_hints=lambda e: [SUM.base(vdat(e['w']))] + running(vdat(e['w']), n(e) + 1)),
        5: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['F']))), flen(e), fvals(e, e['i'])], lambda e: vlen(e['F']) - e['i']),
        6: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1))] + ones(e, n(e) + 1) + frame(e) + [partial(e, e['i'], None)], lambda e: n(e) + 1 - e['i'], pre_hints=lambda e: [RS(e).base_ax()], hints=lambda e: [rs_at(e, e['i'])]),
        7: Loop(lambda e: [('counter', z3.And(0 <= e['coordinate_of_monomial_of_Fi'], e['coordinate_of_monomial_of_Fi'] <= T(e).dimF))] + less(e) + frame(e) + [partial(e, e['i'], e['coordinate_of_monomial_of_Fi'])], lambda e: T(e).dimF - e['coordinate_of_monomial_of_Fi'], hints=step,
                pre_hints=lambda e: [ones_less.inst(vdat(e['one_minus_ei']), e['i'], n(e) + 1), C10.colfit.inst(e['i'], z3.IntVal(0), T(e).dimF, n(e) + 1), C10.colfit.inst(e['i'], T(e).dimF - 1, T(e).dimF, n(e) + 1)]),
    }
    return Contract('dr/compute_reduction_matrix_J.cc', 'compute_reduction_matrix_J', ['vec<i64>'], lambda e: direction(e) + inv_all(e),
                    lambda e: kept_caches(e) + [('points at the polynomial of v', sel(dom(e.f(D)), key(e, e['v']))), ('nothing forgotten', other_kept(e, D))], loops,
                    modifies=['this.' + D, 'this.solve_J'], returns=_it(D), fields=FIELDS, overflow=True, handlers={x: (lambda eng, node, st: None) for x in ('save', 'restore')}, flags={'present': ['tuple_dict']}, label='dr/compute_reduction_matrix_J.cc:compute_reduction_matrix_J', use_only=use_only)


def computeJZZ():
    return Contract('dr/compute_reduction_matrix_J_ZZ.cc', 'compute_reduction_matrix_J_ZZ', ['vec<i64>'], lambda e: direction(e) + inv_all(e),
                    lambda e: kept_caches(e) + [('points at the polynomial of v', sel(dom(e.f(DZ)), key(e, e['v']))), ('nothing forgotten', other_kept(e, DZ))] +
                    ([('returns the entry of v', z3.And(e.result.key == key(e, e['v']), z3.BoolVal(e.result.lv.root == ('this', DZ)), z3.Not(e.result.end)))] if isinstance(e.result, Iter) else []),
                    modifies=['this.' + D, 'this.' + DZ, 'this.solve_J'], returns=_it(DZ), fields=FIELDS, label='dr/compute_reduction_matrix_J_ZZ.cc:compute_reduction_matrix_J_ZZ')


prefix_range = Lemma('prefix sums lie between 0 and the sum', [('a', ARR)] + I('n', 'k'), lambda a, n, k: z3.Implies(z3.And(nonneg(a, n), 0 <= k, k <= n), z3.And(0 <= SUM(a, k), SUM(a, k) <= SUM(a, n))),
                     facts=lambda a, n, k: [sum_mono.inst(a, 0, k), SUM.base(a), sum_mono.inst(a, k, n - k)])


def sumloop(k, extra=lambda e: []):
    """the loop adding up v"""
    return Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('partial sum', e['sum'] == SUM(vdat(e['v']), e['i']))] + extra(e), lambda e: e.f('n') + 1 - e['i'],
                hints=lambda e: [SUM.at_pos(vdat(e['v']), e['i'])], pre_hints=lambda e: [SUM.base(vdat(e['v']))] + running(vdat(e['v']), e.f('n') + 1))


def running(a, n):
    i = fv('i')
    x = a[i]
    return [forall_facts([i], prefix_range.inst(a, n, i + 1), [x]), forall_facts([i], SUM.at_pos(a, i + 1), [x])]



def square(m):
    return z3.And(NR(m) == DIM, NC(m) == DIM)


def cells(m, val):
    a, b = fv('a'), fv('b')
    x = sel(sel(dat(m), a), b)
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < DIM, 0 <= b, b < DIM), x == val(a, b)), patterns=[x])


def matrix_form(src, name, field, ret):
    k = lambda e: key(e, e['v'])
    val = lambda e, j: (lambda a, b: RM(k(e), 0)[a][b] + RSUM(k(e), vdat(e['u']), a, b, j))
    it = lambda e: z3.And(sel(dom(e.f(field)), k(e)), polynomial_ok(sel(mval(e.f(field)), k(e)), k(e), e.f('n')))
    a, b = fv('a'), fv('b')
    return Contract(src, name, ['vec<i64>', 'vec<i64>'], admissible,
                    lambda e: [('square', square(e.result)), ('M_0 + sum u_i M_i', cells(e.result, val(e, e.f('n') + 1)))] + kept_caches(e),
                    {0: sumloop(0), 1: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('square', square(e['result'])), ('partial sum', cells(e['result'], val(e, e['i'])))], lambda e: e.f('n') + 1 - e['i'],
                                            pre_hints=lambda e: [forall_facts([a, b], RSUM_.at_pos(k(e), vdat(e['u']), a, b, e['i'] + 1), [RM(k(e), e['i'] + 1)[a][b]])],
                                            hints=lambda e: [forall_facts([a, b], RSUM_.at_pos(k(e), vdat(e['u']), a, b, e['i']), [RSUM(k(e), vdat(e['u']), a, b, e['i'])])])},
                    modifies=['this.' + D, 'this.solve_J'] + (['this.' + DZ] if field == DZ else []), fields=FIELDS, overflow=True, label=f'{src}:{name}', axioms=lambda g: [RSUM_.base_ax()], timeout=20)


def vcells(v, val):
    a = fv('a')
    x = sel(vdat(v), a)
    return z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), x == val(a)), patterns=[x])


def vector_form(src, name, field, out):
    k = lambda e: key(e, e['v'])
    g = lambda e: vdat(e.old('G'))
    val = lambda e, j: (lambda a: DOT(RM(k(e), 0)[a], g(e), DIM) + VSUM(k(e), vdat(e['u']), a, g(e), j))
    a = fv('a')
    res = (lambda e: e['result']) if out else (lambda e: e.result)
    return Contract(src, name, None, lambda e: admissible(e) + [('vector of the right length', vlen(e['G']) == DIM)],
                    lambda e: [('length', vlen(res(e)) == DIM), ('M_0 G + sum u_i M_i G', vcells(res(e), val(e, e.f('n') + 1)))] + kept_caches(e),
                    {0: sumloop(0), 1: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('length', vlen(e['result']) == DIM), ('partial sum', vcells(e['result'], val(e, e['i'])))], lambda e: e.f('n') + 1 - e['i'],
                                            pre_hints=lambda e: [VSUM_.base_ax()],
                                            hints=lambda e: [forall_facts([a], VSUM_.at_pos(k(e), vdat(e['u']), a, g(e), e['i']), [VSUM(k(e), vdat(e['u']), a, g(e), e['i'])])])},
                    modifies=(['result'] if out else []) + ['this.' + D, 'this.solve_J'] + (['this.' + DZ] if field == DZ else []), fields=FIELDS, overflow=True, label=f'{src}:{name}', timeout=20)


# the matrix of the map at u + x v, and the result of t steps along v starting from the far end (N steps in all)
POINT = z3.Function('reduction_matrix_at', KEYS, ARR, ARR, INT, INT, ARR2)
ITER = z3.Function('iterated_reduction', KEYS, ARR, ARR, ARR, INT, INT, INT, ARR)


def point_def(k, u, v, x, n):
    a, b = fv('a'), fv('b')
    e = POINT(k, u, v, x, n)[a][b]
    return Fact(z3.ForAll([a, b], e == RM(k, 0)[a][b] + RSUM(k, u, a, b, n + 1) + x * RSUM(k, v, a, b, n + 1), patterns=[e]), 'definition of reduction_matrix_at')


def iter_def(k, u, v, g, n, N, t):
    """step t -> t+1"""
    a = fv('a')
    e = ITER(k, u, v, g, n, N, z3.simplify(t + 1))[a]
    return Fact(z3.Implies(t >= 0, z3.ForAll([a], e == DOT(POINT(k, u, v, z3.simplify(N - 1 - t), n)[a], ITER(k, u, v, g, n, N, t), DIM), patterns=[e])), 'definition of iterated_reduction')


def iter_base(k, u, v, g, n, N):
    return Fact(ITER(k, u, v, g, n, N, 0) == g, 'definition of iterated_reduction')


def upto(n, f, p):
    return forall_range(0, n, f, pats=p)


AR = lambda *x: [(y, ARR) for y in x]
distr3 = Lemma('distribution', I('p', 'q', 'x', 'g'), lambda p, q, x, g: (p + x * q) * g == p * g + x * (q * g))
dot_line = Lemma('inner products along a line', AR('p', 'm0', 'm1', 'g', 'h') + I('x', 'n'),
                 lambda p, m0, m1, g, h, x, n: z3.Implies(z3.And(upto(n, lambda b: p[b] == m0[b] + x * m1[b], lambda b: p[b]), upto(n, lambda b: g[b] == h[b], lambda b: g[b])), DOT(p, g, n) == DOT(m0, h, n) + x * DOT(m1, h, n)), induct=6,
                 facts=lambda p, m0, m1, g, h, x, n: [DOT.base(p, g), DOT.base(m0, h), DOT.base(m1, h), DOT.at_pos(p, g, n), DOT.at_pos(m0, h, n), DOT.at_pos(m1, h, n), distr3.inst(m0[n - 1], m1[n - 1], x, h[n - 1]), distr_sum.inst(x, DOT(m1, h, n - 1), m1[n - 1] * h[n - 1])])
distr_sum = Lemma('distribution over a sum', I('x', 'p', 'q'), lambda x, p, q: x * (p + q) == x * p + x * q)
dot_mod = Lemma('inner products of congruent vectors are congruent', AR('r', 'y', 'x') + I('n', 'm'), lambda r, y, x, n, m: z3.Implies(z3.And(m > 0, upto(n, lambda b: y[b] % m == x[b] % m, lambda b: y[b])), DOT(r, y, n) % m == DOT(r, x, n) % m), induct=3,
                facts=lambda r, y, x, n, m: [DOT.base(r, y), DOT.base(r, x), DOT.at_pos(r, y, n), DOT.at_pos(r, x, n), modmul.inst(r[n - 1], y[n - 1], x[n - 1], m), C06.modadd.inst(DOT(r, y, n - 1), r[n - 1] * y[n - 1], m), C06.modadd.inst(DOT(r, x, n - 1), r[n - 1] * x[n - 1], m)])
modmul = Lemma('multiples of congruent numbers are congruent', I('r', 'y', 'x', 'm'), lambda r, y, x, m: z3.Implies(z3.And(m > 0, y % m == x % m), (r * y) % m == (r * x) % m),
               facts=lambda r, y, x, m: [C06.modshift.inst(r * x, r * (y / m - x / m), m), moddiff.inst(r, y, x, y / m, x / m, m)])
modmod = Lemma('reducing twice', I('x', 'm'), lambda x, m: z3.Implies(m > 0, (x % m) % m == x % m))
moddiff = Lemma('difference of congruent multiples', I('r', 'y', 'x', 's', 't', 'm'), lambda r, y, x, s, t, m: z3.Implies(y - s * m == x - t * m, r * y == r * x + (r * (s - t)) * m))

# the forms agree: (1) the matrix at u + x v is the matrix form there; (2) the vector form is the matrix form applied to the vector; the iterated form is defined from (1)
K = [('k', KEYS)]
line_point = Lemma('the matrix on the line through u along v is the matrix form at u + x v', K + AR('u', 'v', 'w') + I('x', 'a', 'b', 'n', 'j'),
                   lambda k, u, v, w, x, a, b, n, j: z3.Implies(z3.And(j <= n, upto(n, lambda i: w[i] == u[i] + x * v[i], lambda i: w[i])), RSUM(k, w, a, b, j) == RSUM(k, u, a, b, j) + x * RSUM(k, v, a, b, j)), induct=8,
                   facts=lambda k, u, v, w, x, a, b, n, j: [f for q in (u, v, w) for f in (RSUM_.base(k, q, a, b), RSUM_.at_pos(k, q, a, b, j))] + [distr3.inst(u[j - 1], v[j - 1], x, RM(k, j)[a][b]), distr_sum.inst(x, RSUM(k, v, a, b, j - 1), v[j - 1] * RM(k, j)[a][b])])
ROW = z3.Function('row_of_reduction_sum', KEYS, ARR, INT, INT, ARR)


def row_def(k, u, a, j):
    b = fv('b')
    return Fact(z3.ForAll([b], ROW(k, u, a, j)[b] == RSUM(k, u, a, b, j), patterns=[ROW(k, u, a, j)[b]]), 'definition of row_of_reduction_sum')


dot_zero = Lemma('inner product of zero', AR('r', 'g') + I('n'), lambda r, g, n: z3.Implies(upto(n, lambda b: r[b] == 0, lambda b: r[b]), DOT(r, g, n) == 0), induct=2, facts=lambda r, g, n: [DOT.base(r, g), DOT.at_pos(r, g, n)])


def _rows(k, u, a, j):
    b = fv('b')
    return [row_def(k, u, a, j), row_def(k, u, a, z3.simplify(j - 1)), forall_facts([b], RSUM_.at_pos(k, u, a, b, j), [RSUM(k, u, a, b, j)])]


vector_sum = Lemma('the sum of the vectors is the sum of the matrices times the vector', K + AR('u', 'g') + I('a', 'j'), lambda k, u, g, a, j: z3.Implies(DIM >= 0, DOT(ROW(k, u, a, j), g, DIM) == VSUM(k, u, a, g, j)), induct=4,
                   facts=lambda k, u, g, a, j: [VSUM_.base(k, u, a, g), VSUM_.at_pos(k, u, a, g, j)] + _rows(k, u, a, j) + [RSUM_.base_ax(), dot_zero.inst(ROW(k, u, a, 0), g, DIM), dot_line.inst(ROW(k, u, a, j), ROW(k, u, a, z3.simplify(j - 1)), RM(k, j)[a], g, g, u[j - 1], DIM)])
vector_form_is_matrix = Lemma('the vector form is the matrix form times the vector', K + AR('u', 'g', 'r') + I('a', 'j'),
                              lambda k, u, g, r, a, j: z3.Implies(z3.And(j >= 0, DIM >= 0, upto(DIM, lambda b: r[b] == RM(k, 0)[a][b] + RSUM(k, u, a, b, j), lambda b: r[b])), DOT(r, g, DIM) == DOT(RM(k, 0)[a], g, DIM) + VSUM(k, u, a, g, j)),
                              facts=lambda k, u, g, r, a, j: [vector_sum.inst(k, u, g, a, j), row_def(k, u, a, j), dot_line.inst(r, RM(k, 0)[a], ROW(k, u, a, j), g, g, z3.IntVal(1), DIM)])


def poly_form(src, name, field, zz):
    k = lambda e: key(e, e['v'])
    g = lambda e: vdat(e.old('G'))
    U, V = (lambda e: vdat(e['u'])), (lambda e: vdat(e['v']))
    N = lambda e: e['iterations']
    n = lambda e: e.f('n')
    a, b = fv('a'), fv('b')
    W = lambda e, t: ITER(k(e), U(e), V(e), g(e), n(e), N(e), t)
    m = lambda e: MODULUS
    rel = (lambda e, x, w: x % m(e) == w % m(e)) if zz else (lambda e, x, w: x == w)

    def now(e, vec, t):
        a = fv('a')
        x = sel(vdat(vec), a)
        return z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < DIM), rel(e, x, W(e, t)[a])), patterns=[x])
    m0 = lambda e, j: (lambda a, b: RM(k(e), 0)[a][b] + RSUM(k(e), U(e), a, b, j))
    m1 = lambda e, j: (lambda a, b: RSUM(k(e), V(e), a, b, j))
    at = lambda e, which: forall_facts([a, b], RSUM_.at_pos(k(e), which(e), a, b, e['i']), [RSUM(k(e), which(e), a, b, e['i'])])

    def step(e):
        x = e.head_val('x')
        t = z3.simplify(N(e) - 1 - x)
        old = vdat(e.head_val('Gin'))
        M0, M1 = dat(e['M0']), dat(e['M1'])
        P = POINT(k(e), U(e), V(e), x, n(e))
        aa = fv('a')
        new = ITER(k(e), U(e), V(e), g(e), n(e), N(e), z3.simplify(t + 1))[aa]
        out = [Cut('count of steps', W(e, N(e) - 1 - e['x']) == W(e, z3.simplify(t + 1))), point_def(k(e), U(e), V(e), x, n(e)), iter_def(k(e), U(e), V(e), g(e), n(e), N(e), t)]
        inr = z3.And(0 <= aa, aa < DIM)
        bb = fv('b')
        mat = Cut('the matrix at this point', z3.ForAll([aa, bb], z3.Implies(z3.And(inr, 0 <= bb, bb < DIM), P[aa][bb] == M0[aa][bb] + x * M1[aa][bb]), patterns=[P[aa][bb]]))
        out.append(mat)
        if not zz:
            out.append(forall_facts([aa], dot_line.inst(P[aa], M0[aa], M1[aa], W(e, t), old, x, DIM), [new]))
            return out + [Cut('one step', z3.ForAll([aa], z3.Implies(inr, new == DOT(M0[aa], old, DIM) + x * DOT(M1[aa], old, DIM)), patterns=[new]))]
        line = DOT(M0[aa], old, DIM) + x * DOT(M1[aa], old, DIM)
        out += [forall_facts([aa], dot_mod.inst(P[aa], old, W(e, t), DIM, m(e)), [P[aa]]), forall_facts([aa], dot_line.inst(P[aa], M0[aa], M1[aa], old, old, x, DIM), [P[aa]]), Cut('rows of the matrix', z3.ForAll([aa], z3.Implies(inr, DOT(P[aa], old, DIM) == line), patterns=[P[aa]]), last=3),
                Cut('congruent products', z3.ForAll([aa], z3.Implies(inr, DOT(P[aa], old, DIM) % m(e) == DOT(P[aa], W(e, t), DIM) % m(e)), patterns=[P[aa]])),
                Cut('definition of the step', z3.ForAll([aa], new == DOT(P[aa], W(e, t), DIM), patterns=[new])),
                Cut('one step', z3.ForAll([aa], z3.Implies(inr, new % m(e) == line % m(e)), patterns=[new]), last=3)]
        return out + [
                      forall_facts([aa], modmod.inst(sel(vdat(e['Gout']), aa), m(e)), [sel(vdat(e['Gout']), aa)]),
                      Cut('reduced vector', z3.ForAll([aa], z3.Implies(inr, sel(vdat(e['Gin']), aa) % m(e) == (DOT(M0[aa], old, DIM) + x * DOT(M1[aa], old, DIM)) % m(e)), patterns=[sel(vdat(e['Gin']), aa)])),
                      Cut('count of steps', W(e, N(e) - 1 - e['x']) == W(e, z3.simplify(t + 1))), Cut('congruent to the steps taken', now(e, e['Gin'], N(e) - 1 - e['x']), last=4)]
    loops = {0: sumloop(0),
             1: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('square', z3.And(square(e['M0']), square(e['M1']))), ('constant part', cells(e['M0'], m0(e, e['i']))), ('slope', cells(e['M1'], m1(e, e['i'])))], lambda e: n(e) + 1 - e['i'],
                     pre_hints=lambda e: [RSUM_.base_ax()], hints=lambda e: [at(e, U), at(e, V)]),
             2: Loop(lambda e: [('counter', z3.And(-1 <= e['x'], e['x'] <= N(e) - 1)), ('length', vlen(e['Gin']) == DIM), ('steps taken', now(e, e['Gin'], N(e) - 1 - e['x']))], lambda e: e['x'] + 1,
                     pre_hints=lambda e: [iter_base(k(e), U(e), V(e), g(e), n(e), N(e))], hints=step)}
    if zz:
        q = fv('q')
        loops[3] = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= DIM)), ('length', vlen(e['Gin']) == DIM), ('reduced so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < e['i']), sel(vdat(e['Gin']), q) == sel(vdat(e['Gout']), q) % m(e)), patterns=[sel(vdat(e['Gin']), q)]))], lambda e: DIM - e['i'])
    return Contract(src, name, None, lambda e: admissible(e) + [('vector of the right length', vlen(e['G']) == DIM), ('steps', z3.And(N(e) >= 0, N(e) < (1 << 63)))] + ([('modulus', m(e) > 1)] if zz else []),
                    lambda e: [('length', vlen(e['result']) == DIM), ('the steps one after the other', now(e, e['result'], N(e)))] + kept_caches(e), loops,
                    modifies=['result', 'this.' + D, 'this.solve_J'] + (['this.' + DZ] if zz else []), fields=FIELDS, overflow=True, label=f'{src}:{name}', timeout=20)


def contracts():
    return [poly_form('dr/reduce_vector_J_poly.cc', 'reduce_vector_J_poly', D, False), poly_form('dr/reduce_vector_J_poly_ZZ.cc', 'reduce_vector_J_poly_ZZ', DZ, True), vector_form('dr/reduce_vector_J.cc', 'reduce_vector_J', D, False), vector_form('dr/reduce_vector_J_ZZ.cc', 'reduce_vector_J_ZZ', DZ, True), computeJ(), computeJZZ(), matrix_form('dr/get_reduction_matrix_J.cc', 'get_reduction_matrix_J', D, 'mat'), matrix_form('dr/get_reduction_matrix_J_ZZ.cc', 'get_reduction_matrix_J_ZZ', DZ, 'mat'),
            get_solve_J(), C10.matrix_J(), solve_padic()] + C10.base()[2:]


def lemmas():
    return C10.base_lemmas()[1:] + jlemmas() + [sum_mono, prefix_range, distr3, distr_sum, dot_line, moddiff, modmod, modmul, C06.modshift, C06.modadd, C06.distr, dot_mod, line_point, dot_zero, vector_sum, vector_form_is_matrix]
