"""Cached tables: whatever was computed before, in whatever order, a query returns the value determined by f alone.

The values are ghost functions of the object (SOLVED(l), the inclusion matrix of u, the final reduction of pole order k, RM(v, j));
the class invariant says every cached entry has the value of its key, every query keeps it and returns the value of its key."""
from .drlib import *
from .C01 import entry_le, sum_mono
from . import C02, C03, C10, C11
from .jmodel import *

# ---------------------------------------------------------------- inclusion V_u -> forms of pole order n
IN = 'inclusion_matrix_J_dict'


def incl_levels(e):
    n, d = e.f('n'), e.f('d')
    return z3.simplify(d * n - n - 1), z3.simplify(d * n - n)


def incl_size(e, m):
    h, g = incl_levels(e)
    return z3.And(NR(m) == TLN(e, h), NC(m) == TLN(e, g))


def incl_cells(e, m, k, upto=None):
    h, g = incl_levels(e)
    a, b = fv('a'), fv('b')
    x = sel(sel(dat(m), a), b)
    hit = keyax(e)[0](TL(e, h, a)) == KI(e, k, TL(e, g, b))
    if upto is not None:
        hit = z3.And(b < upto, hit)
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < TLN(e, h), 0 <= b, b < TLN(e, g)), x == z3.If(hit, z3.IntVal(1), z3.IntVal(0))), patterns=[x])


def inv_incl(e):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    m = e.f(IN)
    x = sel(mval(m), k)
    return [('cached inclusions are right', z3.ForAll([k], z3.Implies(sel(dom(m), k), z3.And(incl_size(e, x), incl_cells(e, x, k))), patterns=[x]))]


degree_fits = Lemma('degree of the sources of the inclusion', I('n', 'd'), lambda n, d: z3.Implies(z3.And(n >= 1, d > n), z3.And(0 <= d * n - n - 1, d * n - n <= (n + 1) * d)), facts=lambda n, d: [C10.rp2.inst(d - 1, n)])


def point_of_simplex(e):
    return [('u is an (n+1)-tuple of sum n', is_tuple(e['u'], e.f('n'), e.f('n') + 1)), ('at least two variables', e.f('n') >= 1)]


def compute_inclusion(use_only=False):
    U = lambda e: e.old('u')
    k = lambda e: key(e, U(e))
    M = lambda e: sel(mval(e.f(IN)), k(e))
    b = lambda e: e['coordinate_of_monomial']

    def only_here(e):
        q = z3.Const(f'k?{fv("k")}', KEYS)
        m, o = e.f(IN), e.oldf(IN)
        return z3.And(dom(m) == z3.Store(dom(o), k(e), z3.BoolVal(True)), z3.ForAll([q], z3.Implies(q != k(e), sel(mval(m), q) == sel(mval(o), q)), patterns=[sel(mval(m), q)]))

    def inner(e):
        p = vdat(e.pre('w'))
        w = vdat(e['w'])
        n = e.f('n')
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n + 1)), ('length', vlen(e['w']) == n + 1), ('all positive so far', e['boolean']),
                ('one unit less', forall_range(0, e['i'], lambda q: z3.And(w[q] == p[q] - 1, p[q] > 0), pats=lambda q: w[q])), ('the rest', forall_range(e['i'], n + 1, lambda q: w[q] == p[q], pats=lambda q: w[q]))]

    def lowered(e):
        h, g = incl_levels(e)
        m = e.f('n') + 1
        w, p = vdat(e['w']), vdat(e.pre('w'))
        return [Cut('sum before', SUM(p, m) == g + e.f('n')), Cut('a tuple', z3.Implies(e['i'] == m, is_tuple(e['w'], h, m)))]

    def step(e):
        kf, kl, ka, wit = keyax(e)
        h, g = incl_levels(e)
        t = TL(e, g, e.head_val('coordinate_of_monomial'))
        x = KI(e, k(e), t)
        a, q = fv('a'), fv('q')
        kt = kf(TL(e, h, a))
        out = ki_ax(e) + [z3.ForAll([a], same_key(e, kt, x), patterns=[kt]), z3.ForAll([a, q], key_entry(e, TL(e, h, a), q), patterns=[z3.MultiPattern(ka(x, q), kt)]), z3.ForAll([q], key_entry(e, U(e), q), patterns=[ka(x, q)])]
        q2 = fv('q')
        if e.eng.lookups:
            kw = e.eng.lookups[-1]
            out += [same_key(e, kw, x)]
            z = [i for i in [e['i']]]
            # the first entry that cannot be lowered, if any
            i = e['i']
            out += [z3.ForAll([a], z3.And(key_entry(e, TL(e, h, a), i), ka(x, i) == ka(x, i)), patterns=[kt]), Fact(z3.Implies(z3.And(0 <= i, i < vlen(t)), ka(x, i) == sel(vdat(t), i) + ka(k(e), i) - 1), 'definition of key_of_product_without_x0_xn'), key_entry(e, U(e), i)]
        return out
    return Contract('dr/compute_inclusion_matrix_J.cc', 'compute_inclusion_matrix_J', None, lambda e: point_of_simplex(e) + [('not there yet', z3.Not(sel(dom(e.f(IN)), key(e, e['u']))))] + object_J(e) + inv_incl(e),
                    lambda e: inv_incl(e) + [('the entry of u is there', sel(dom(e.f(IN)), k(e))), ('nothing forgotten', C11.other_kept(e, IN))],
                    {0: Loop(lambda e: [('counter', z3.And(0 <= b(e), b(e) <= TLN(e, incl_levels(e)[1]))), ('only the entry of u', only_here(e)), ('size', incl_size(e, M(e))), ('cells', incl_cells(e, M(e), k(e), b(e)))], lambda e: TLN(e, incl_levels(e)[1]) - b(e), hints=step,
                             pre_hints=lambda e: [degree_fits.inst(e.f('n'), e.f('d')), entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])]),
                     1: Loop(inner, lambda e: e.f('n') + 1 - e['i'], post=lambda e: [minus_ones.inst(vdat(e.pre('w')), vdat(e['w']), e.f('n') + 1)] + lowered(e))},
                    modifies=['this.' + IN], fields=FIELDS, flags={'present': ['tuple_dict']}, overflow=True, label='dr/compute_inclusion_matrix_J.cc:compute_inclusion_matrix_J', use_only=use_only)


def get_inclusion(use_only=False):
    def ret(v):
        return Ptr(LV(('this', IN), (('key', key(v, v['u'])),), ty('Mat<ZZ_p>')), None, ty('Mat<ZZ_p>*'))

    def ens(e):
        k = key(e, e.old('u'))
        out = inv_incl(e) + [('the entry of u', sel(dom(e.f(IN)), k)), ('nothing forgotten', C11.other_kept(e, IN))]
        if isinstance(e.result, Ptr) and isinstance(e, Env):
            p = e.result
            out.append(('points at it', z3.And(z3.BoolVal(p.lv.root == ('this', IN) and len(p.lv.path) == 1 and p.lv.path[0][0] == 'key' and p.off is None), p.lv.path[0][1] == k)))
        return out
    return Contract('dr/get_inclusion_matrix_J.cc', 'get_inclusion_matrix_J', None, lambda e: point_of_simplex(e) + object_J(e) + inv_incl(e), ens,
                    {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('partial sum', e['sum'] == SUM(vdat(e['u']), e['i']))], lambda e: e.f('n') + 1 - e['i'], hints=lambda e: [SUM.at_pos(vdat(e['u']), e['i'])], pre_hints=lambda e: [SUM.base(vdat(e['u']))] + C11.running(vdat(e['u']), e.f('n') + 1))},
                    modifies=['this.' + IN], returns=ret, fields=FIELDS, overflow=True, flags={'present': ['tuple_dict']}, label='dr/get_inclusion_matrix_J.cc:get_inclusion_matrix_J', use_only=use_only)


# ---------------------------------------------------------------- final reduction: forms of pole order k -> cohomology basis
FR = 'final_reduction_matrix_J_dict'
FIN = z3.Function('final_reduction', INT, ARR2)        # of pole order k
HV = z3.Function('lower_numerator', INT, INT, ARR)     # coefficients of H, (k-1)! x^b Omega/f^k ~ (k-2)! H Omega/f^(k-1) + basis part
MAXN = 20                                              # (n-1)! is a machine word


def UP(e, s, i):
    """s + e_i"""
    return z3.Function('one_more_at', vsort(e), INT, vsort(e))(s, i)


def up_ax(e):
    s, i, q = z3.Const('up!s', vsort(e)), z3.Int('up!i'), z3.Int('up!q')
    u = UP(e, s, i)
    return [Fact(z3.ForAll([s, i], vlen(u) == vlen(s), patterns=[u]), 'definition of one_more_at'),
            Fact(z3.ForAll([s, i, q], z3.Implies(z3.And(0 <= q, q < vlen(s)), sel(vdat(u), q) == sel(vdat(s), q) + z3.If(q == i, 1, 0)), patterns=[sel(vdat(u), q)]), 'definition of one_more_at')]


_rd = {}


def HS(e):
    """coefficient of s in sum_i d_i F_i, F the b-th column of U: sum over i of (s_i + 1) * (coefficient of s + e_i in F_i)"""
    so = vsort(e)
    if so not in _rd:
        kf = keyax(e)[0]
        up = z3.Function('one_more_at', so, INT, so)
        _rd[so] = RecDef('divergence', [ARR2, INT, so, DICT, INT], INT, lambda U, b, s, D, n: z3.IntVal(0), lambda U, b, s, D, n, i, r: r + hterm(U, b, s, D, n, i, kf, up))
    return _rd[so]


def hterm(U, b, s, D, n, i, kf, up):
    return (sel(vdat(s), i) + 1) * U[C10.COL(i, D[kf(up(s, i))], n)][b]


_rx = {}


def XS(e):
    """contribution of the basis part to coordinate a: sum over the basis monomials with coordinate a"""
    so = vsort(e)
    if so not in _rx:
        kf = keyax(e)[0]
        L = z3.ArraySort(INT, so)
        _rx[so] = RecDef('basis_part', [INT, ARR2, INT, INT, ARR, L, DICT, INT], INT, lambda f, U, b, a, B, L, D, o: z3.IntVal(0), lambda f, U, b, a, B, L, D, o, i, r: r + z3.If(D[kf(L[B[i]])] == a, f * U[o + i][b], 0))
    return _rx[so]


dot_cong = Lemma('inner products of equal vectors', [('r', ARR), ('g', ARR), ('s', ARR), ('h', ARR), ('n', INT)], lambda r, g, s, h, n: z3.Implies(forall_range(0, n, lambda q: z3.And(r[q] == s[q], g[q] == h[q])), DOT(r, g, n) == DOT(s, h, n)), induct=4,
                 facts=lambda r, g, s, h, n: [DOT.base(r, g), DOT.base(s, h), DOT.at_pos(r, g, n), DOT.at_pos(s, h, n)])
pole_fits = Lemma('degrees of the numerators', I('k', 'n', 'd'), lambda k, n, d: z3.Implies(z3.And(1 <= k, k <= n, d > n), z3.And(0 <= k * d - n - 1, k * d - n - 1 <= (n + 1) * d, z3.Implies(k >= 2, k * d - n - 1 - d >= 0))),
                  facts=lambda k, n, d: [C10.rp2.inst(k, d), C10.rp3.inst(k - 1, d), C10.rp3.inst(n - k, d), C10.rp2.inst(k - 1, d)])
sum_one_more = Lemma('sum after adding one unit at i', [('a', ARR), ('b', ARR)] + I('i', 'n'), lambda a, b, i, n: z3.Implies(z3.And(0 <= i, i < n, forall_range(0, n, lambda q: b[q] == a[q] + z3.If(q == i, 1, 0))), SUM(b, n) == SUM(a, n) + 1),
                     facts=lambda a, b, i, n: [C03.sum_one_less.inst(b, a, i, n)])
fact_next = Lemma('the next factorial is a machine word', I('k'), lambda k: z3.Implies(z3.And(0 <= k, k < MAXN - 1), z3.And(1 <= FACT(k), FACT(k) <= 121645100408832000, FACT(k) * (k + 1) <= 121645100408832000)), facts=lambda k: [fact_word.inst(k), fact_word.inst(k + 1), FACT_.at_pos(k + 1)])
fact_word = Lemma('small factorials are machine words', I('k'), lambda k: z3.Implies(z3.And(0 <= k, k < MAXN), z3.And(1 <= FACT(k), FACT(k) <= FACT(19), FACT(19) == 121645100408832000)),
                  facts=lambda k: [FACT_.base()] + [FACT_.at_pos(z3.IntVal(j)) for j in range(1, MAXN)])


# degree of the numerators of pole order k
PD = z3.Function('pole_degree', INT, INT)


def pd_def(e, k):
    return Fact(PD(k) == deg(e, k), 'definition of pole_degree')


def deg(e, k):
    return k * e.f('d') - (e.f('n') + 1)


def FINV(e, k, b, a):
    """cell (a, b) of the final reduction matrix of pole order k"""
    kf = keyax(e)[0]
    l = deg(e, k)
    n, d = e.f('n'), e.f('d')
    lF, lH = l - (d - 1), l - d
    U, B = dat(acc('second', SOLVED(e, l))), vdat(acc('first', SOLVED(e, l)))
    bas = e.f('coKernels_J_basis')
    one = z3.If(kf(TL(e, l, b)) == kf(sel(vdat(bas), a)), z3.IntVal(1), z3.IntVal(0))
    more = DOT(FIN(k - 1)[a], HV(k, b), TLN(e, lH)) + XS(e).fn(FACT(k - 1), U, b, a, B, vdat(TL(e, l)), mval(e.f('coKernels_J_basis_dict')), (n + 1) * TLN(e, lF), vlen(acc('first', SOLVED(e, l))))
    return one, more


def fin_ax(e, k):
    a, b, h = fv('a'), fv('b'), fv('h')
    one, more = FINV(e, k, b, a)
    l = deg(e, k)
    n, d = e.f('n'), e.f('d')
    lF, lH = l - (d - 1), l - d
    U = dat(acc('second', SOLVED(e, l)))
    x = FIN(k)[a][b]
    y = HV(k, b)[h]
    return [Fact(z3.ForAll([a, b], z3.And(z3.Implies(k == 1, x == one), z3.Implies(k >= 2, x == more)), patterns=[x]), 'definition of final_reduction'),
            Fact(z3.ForAll([b, h], y == HS(e).fn(U, b, TL(e, lH, h), mval(TD(e, lF)), TLN(e, lF), n + 1), patterns=[y]), 'definition of lower_numerator')]


def fin_ok(e, k, M, upto=None):
    a, b = fv('a'), fv('b')
    x = sel(sel(dat(M), a), b)
    return z3.And(NR(M) == vlen(e.f('coKernels_J_basis')), NC(M) == TLN(e, deg(e, k)),
                  z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < NR(M), 0 <= b, b < NC(M)), x == FIN(k)[a][b]), patterns=[x]))


def inv_final(e, upto=None):
    """entries below upto are right, later slots were never used"""
    j = fv('j')
    v = e.f(FR)
    x = sel(vdat(v), j)
    up = vlen(v) if upto is None else upto
    return [('at most n final matrices', z3.And(0 <= vlen(v), vlen(v) <= e.f('n'), up <= vlen(v))), ('final matrices are right', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < up), fin_ok(e, j + 1, x)), patterns=[x])),
            ('later slots are unused', z3.ForAll([j], z3.Implies(j >= up, z3.And(NR(x) == 0, NC(x) == 0)), patterns=[x]))]


def solved_shape(e):
    """shape of the solutions (what the solver returns, C09) and the basis read off from them"""
    l, k, i = fv('l'), fv('k'), fv('i')
    n, d = e.f('n'), e.f('d')
    kf = keyax(e)[0]
    bd = e.f('coKernels_J_basis_dict')
    lp = PD(k)
    Bk = acc('first', SOLVED(e, lp))
    x = kf(TL(e, lp, sel(vdat(Bk), i)))
    bas = e.f('coKernels_J_basis')
    y = sel(vdat(bas), i)
    return [('basis size', z3.And(0 <= vlen(bas), vlen(bas) <= LIM * LIM)), ('basis elements are (n+1)-tuples', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < vlen(bas)), vlen(y) == n + 1), patterns=[y])),
            ('solutions: the complement consists of basis elements', z3.ForAll([k, i], z3.Implies(z3.And(1 <= k, k <= n, 0 <= i, i < vlen(Bk)), z3.And(0 <= sel(vdat(Bk), i), sel(vdat(Bk), i) < TLN(e, lp), sel(dom(bd), x), 0 <= sel(mval(bd), x), sel(mval(bd), x) < vlen(e.f('coKernels_J_basis')))), patterns=[sel(vdat(Bk), i)]))]


def compute_final(use_only=False):
    K = lambda e: e.old('k')
    n, d = (lambda e: e.f('n')), (lambda e: e.f('d'))
    l = lambda e: deg(e, K(e))
    lF, lH = (lambda e: l(e) - (d(e) - 1)), (lambda e: l(e) - d(e))
    bas = lambda e: e.f('coKernels_J_basis')
    M = lambda e: sel(vdat(e.f(FR)), K(e) - 1)
    S = lambda e: SOLVED(e, l(e))
    U = lambda e: dat(acc('second', S(e)))
    Mt = lambda e: e['Mtranspose']
    dimF = lambda e: TLN(e, lF(e))
    c = lambda e: e['coordinate_of_monomial']
    mvF = lambda e: mval(TD(e, lF(e)))

    def others(e):
        j = fv('j')
        v, o = e.f(FR), e.oldf(FR)
        return z3.And(vlen(v) == vlen(o), z3.ForAll([j], z3.Implies(j != K(e) - 1, sel(vdat(v), j) == sel(vdat(o), j)), patterns=[sel(vdat(v), j)]))

    def ones(e, done):
        a, b = fv('a'), fv('b')
        x = sel(sel(dat(M(e)), a), b)
        kf = keyax(e)[0]
        return [('others', others(e)), ('size', z3.And(NR(M(e)) == vlen(bas(e)), NC(M(e)) == TLN(e, l(e)))),
                ('cells', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < vlen(bas(e)), 0 <= b, b < TLN(e, l(e))), x == z3.If(z3.And(done(a, b), kf(TL(e, l(e), b)) == kf(sel(vdat(bas(e)), a))), z3.IntVal(1), z3.IntVal(0))), patterns=[x]))]

    def row(e, b, part=None):
        a = fv('a')
        x = sel(sel(dat(Mt(e)), b), a)
        v = FINV(e, K(e), b, a)[1] if part is None else part(a)
        return z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < vlen(bas(e))), x == v), patterns=[x])

    def rows(e, upto):
        a, b = fv('a'), fv('b')
        x = sel(sel(dat(Mt(e)), b), a)
        return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < vlen(bas(e)), 0 <= b, b < upto), x == FINV(e, K(e), b, a)[1]), patterns=[x])
    msize = lambda e: ('size', z3.And(NR(Mt(e)) == TLN(e, l(e)), NC(Mt(e)) == vlen(bas(e))))
    fh = lambda e: [('lengths', z3.And(vlen(e['H']) == TLN(e, lH(e)), vlen(e['F']) == NR(acc('second', S(e)))))]

    def fvals(e, upto=None):
        q = fv('q')
        x = sel(vdat(e['F']), q)
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < (NR(acc('second', S(e))) if upto is None else upto)), x == U(e)[q][c(e)]), patterns=[x])

    def pos(e, h, i):
        return mvF(e)[keyax(e)[0](UP(e, TL(e, lH(e), h), i))]

    def hvals(e, i, cur=None):
        h = fv('h')
        x = sel(vdat(e['H']), h)
        s = TL(e, lH(e), h)
        v = HS(e).fn(U(e), c(e), s, mvF(e), dimF(e), i)
        if cur is not None:
            v = v + z3.If(pos(e, h, i) < cur, hterm(U(e), c(e), s, mvF(e), dimF(e), i, keyax(e)[0], lambda s, i: UP(e, s, i)), 0)
        return z3.ForAll([h], z3.Implies(z3.And(0 <= h, h < TLN(e, lH(e))), x == v), patterns=[x])

    def raised(e):
        """s + e_i is listed for every s of degree lH"""
        h, i = fv('h'), fv('i')
        s = TL(e, lH(e), h)
        u = UP(e, s, i)
        inr = z3.And(0 <= h, h < TLN(e, lH(e)), 0 <= i, i <= n(e))
        return up_ax(e) + [z3.ForAll([h, i], sum_one_more.inst(vdat(s), vdat(u), i, n(e) + 1), patterns=[u]), Cut('raised tuples', z3.ForAll([h, i], z3.Implies(inr, is_tuple(u, lF(e), n(e) + 1)), patterns=[u])),
                           Cut('positions of raised tuples', z3.ForAll([h, i], z3.Implies(inr, z3.And(0 <= pos(e, h, i), pos(e, h, i) < dimF(e))), patterns=[u]))]

    def step(e):
        kf, kl, ka, wit = keyax(e)
        h, q = fv('h'), fv('q')
        i, cur = e['i'], e.head_val('coordinate_of_monomial_of_Fi')
        t = TL(e, lF(e), cur)
        s = TL(e, lH(e), h)
        u = UP(e, s, i)
        ku, ks, kt = kf(u), kf(s), kf(t)
        inr = z3.And(0 <= h, h < TLN(e, lH(e)))
        out = [z3.ForAll([h], same_key(e, ku, kt), patterns=[ku]), z3.ForAll([h, q], z3.And(key_entry(e, u, q), key_entry(e, t, q), key_entry(e, s, q)), patterns=[ka(ku, q), ka(ks, q)]),
               z3.ForAll([h], z3.And(key_entry(e, u, i), key_entry(e, s, i)), patterns=[ku]), key_entry(e, t, i), z3.ForAll([q], key_entry(e, t, q), patterns=[ka(kt, q)]), C10.col_def(i, cur, dimF(e))]
        if e.eng.lookups:
            kw = e.eng.lookups[-1]
            D = TD(e, lH(e))
            out += [z3.ForAll([h], same_key(e, ks, kw), patterns=[ks]), Cut('the row of this monomial', z3.Implies(sel(vdat(t), i) > 0, z3.ForAll([h], z3.Implies(inr, (pos(e, h, i) == cur) == (h == sel(mval(D), kw))), patterns=[u])))]
        out += [Cut('monomials without x_i are not raised ones', z3.ForAll([h], z3.Implies(z3.And(inr, pos(e, h, i) == cur), sel(vdat(s), i) + 1 == sel(vdat(t), i)), patterns=[u])),
                Cut('the entry of the solution', U(e)[C10.COL(i, cur, dimF(e))][c(e)] == sel(vdat(e['F']), i * dimF(e) + cur)),
                Cut('the summand', last=2, f=z3.ForAll([h], z3.Implies(z3.And(inr, pos(e, h, i) == cur), hterm(U(e), c(e), s, mvF(e), dimF(e), i, kf, lambda s, i: UP(e, s, i)) == sel(vdat(t), i) * sel(vdat(e['F']), i * dimF(e) + cur)), patterns=[u]))]
        return out

    def bpart(e, i):
        kf = keyax(e)[0]
        B = vdat(acc('first', S(e)))
        return lambda a: DOT(FIN(K(e) - 1)[a], HV(K(e), c(e)), TLN(e, lH(e))) + XS(e).fn(FACT(K(e) - 1), U(e), c(e), a, B, vdat(TL(e, l(e))), mval(e.f('coKernels_J_basis_dict')), (n(e) + 1) * dimF(e), i)

    def low(e):
        a, h = fv('a'), fv('h')
        Ml = sel(vdat(e.f(FR)), K(e) - 2)
        r = sel(dat(Ml), a)
        return [z3.ForAll([a], dot_cong.inst(r, vdat(e['H']), FIN(K(e) - 1)[a], HV(K(e), c(e)), TLN(e, lH(e))), patterns=[DOT(r, vdat(e['H']), TLN(e, lH(e)))])]
    common = lambda e: [('others', e.f(FR) == e.oldf(FR)), kept_int(e, SJ)] + inv_solve(e)
    top = lambda e: [('the solution is there', z3.And(sel(dom(e.f(SJ)), l(e)), sel(mval(e.f(SJ)), l(e)) == S(e)))]
    start = lambda e: [pd_def(e, K(e)), pole_fits.inst(K(e), n(e), d(e)), pole_fits.inst(K(e) - 1, n(e), d(e)), C10.col_ax(), sizefit.inst(n(e) + 1, dimF(e)), entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])]

    def equal_keys(e, x, y):
        kf, kl, ka, wit = keyax(e)
        q = fv('q')
        return [same_key(e, kf(x), kf(y)), z3.ForAll([q], z3.And(key_entry(e, x, q), key_entry(e, y, q)), patterns=[sel(vdat(x), q)]), key_entry(e, x, wit(kf(x), kf(y))), key_entry(e, y, wit(kf(x), kf(y)))]
    loops = {
        0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(bas(e))))] + ones(e, lambda a, b: a < e['i']), lambda e: vlen(bas(e)) - e['i'], pre_hints=start),
        1: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= TLN(e, l(e))))] + ones(e, lambda a, b: z3.Or(a < e['i'], z3.And(a == e['i'], b < e['j']))), lambda e: TLN(e, l(e)) - e['j'],
                hints=lambda e: equal_keys(e, TL(e, l(e), e.head_val('j')), sel(vdat(bas(e)), e['i']))),
        2: Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= K(e))), ('factorial', e['fact'] == FACT(e['i'] - 1))], lambda e: K(e) - e['i'], pre_hints=lambda e: start(e) + [FACT_.base(), fact_next.forall(pats=lambda k: [FACT(k)])], hints=lambda e: [FACT_.at_pos(e.head_val('i')), fact_word.inst(e.head_val('i')), fact_word.inst(e.head_val('i') - 1)]),
        3: Loop(lambda e: [('counter', z3.And(0 <= c(e), c(e) <= TLN(e, l(e)))), msize(e), ('rows', rows(e, c(e)))] + fh(e) + common(e) + top(e), lambda e: TLN(e, l(e)) - c(e), pre_hints=raised),
        4: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['H'])))] + fh(e) + [('zero so far', forall_range(0, e['i'], lambda q: sel(vdat(e['H']), q) == 0, pats=lambda q: sel(vdat(e['H']), q)))], lambda e: vlen(e['H']) - e['i']),
        5: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['F'])))] + fh(e) + [('copied so far', fvals(e, e['i']))], lambda e: vlen(e['F']) - e['i']),
        6: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1))] + fh(e) + [('partial sums', hvals(e, e['i']))], lambda e: n(e) + 1 - e['i'],
                hints=lambda e: [HS_at(e, e['i'])], pre_hints=lambda e: [HS(e).base_ax()], post=lambda e: fin_ax(e, K(e)) + low(e)),
        7: Loop(lambda e: [('counter', z3.And(0 <= e['coordinate_of_monomial_of_Fi'], e['coordinate_of_monomial_of_Fi'] <= dimF(e)))] + fh(e) + [('partial sums', hvals(e, e['i'], e['coordinate_of_monomial_of_Fi']))], lambda e: dimF(e) - e['coordinate_of_monomial_of_Fi'], hints=step,
                pre_hints=lambda e: [C10.colfit.inst(e['i'], z3.IntVal(0), dimF(e), n(e) + 1), C10.colfit.inst(e['i'], dimF(e) - 1, dimF(e), n(e) + 1)]),
        8: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(acc('first', S(e))))), msize(e), ('earlier rows', rows(e, c(e))), ('this row', row(e, c(e), bpart(e, e['i'])))], lambda e: vlen(acc('first', S(e))) - e['i'],
                pre_hints=lambda e: [XS(e).base_ax(), C10.rp3.inst(n(e) + 1, dimF(e))], hints=lambda e: basis_term(e)),
    }

    def HS_at(e, i):
        h = fv('h')
        s = TL(e, lH(e), h)
        return z3.ForAll([h], HS(e).at_pos(U(e), c(e), s, mvF(e), dimF(e), i), patterns=[HS(e).fn(U(e), c(e), s, mvF(e), dimF(e), i)])

    def basis_term(e):
        i = e.head_val('i')
        o = (n(e) + 1) * dimF(e) + i
        x, y = sel(vdat(e['F']), o), U(e)[o][c(e)]
        return [Cut('the entry of the basis part', x == y), Cut('times the factorial', last=1, f=e['fact'] * x == e['fact'] * y), Cut('the factorial', e['fact'] == FACT(K(e) - 1)), Cut('the term', last=2, f=e['fact'] * x == FACT(K(e) - 1) * y), XS_at(e, e['i'])]

    def XS_at(e, i):
        a = fv('a')
        B = vdat(acc('first', S(e)))
        args = (FACT(K(e) - 1), U(e), c(e), a, B, vdat(TL(e, l(e))), mval(e.f('coKernels_J_basis_dict')), (n(e) + 1) * dimF(e), i)
        return z3.ForAll([a], XS(e).at_pos(*args), patterns=[XS(e).fn(*args)])
    return Contract('dr/compute_final_reduction_matrix_J.cc', 'compute_final_reduction_matrix_J', None,
                    lambda e: [('pole order', z3.And(1 <= K(e), K(e) <= n(e), K(e) <= vlen(e.f(FR)))), ('n', n(e) <= MAXN)] + object_J(e) + inv_solve(e) + inv_final(e, K(e) - 1) + solved_sizes(e) + solved_shape(e),
                    lambda e: inv_solve(e) + [kept_int(e, SJ)] + inv_final(e, K(e)) + [('length', vlen(e.f(FR)) == vlen(e.oldf(FR)))], loops, modifies=['this.' + FR, 'this.' + SJ], fields=FIELDS, flags={'present': ['tuple_dict', 'coKernels_J_basis_dict']}, overflow=True,
                    ret_hint=lambda e: fin_ax(e, K(e)), label='dr/compute_final_reduction_matrix_J.cc:compute_final_reduction_matrix_J', use_only=use_only)


def get_final(use_only=False):
    K = lambda e: e.old('k')

    def ret(v):
        return Ptr(LV(('this', FR), (), ty(FIELDS[FR])), v['k'] - 1, ty('Mat<ZZ_p>*'))

    def ens(e):
        v = e.f(FR)
        j = fv('j')
        o = e.oldf(FR)
        out = inv_solve(e) + [kept_int(e, SJ)] + inv_final(e) + [('the matrix of pole order k', z3.And(vlen(v) >= K(e), fin_ok(e, K(e), sel(vdat(v), K(e) - 1))))]
        if isinstance(e.result, Ptr) and isinstance(e, Env):
            p = e.result
            out.append(('points at it', z3.And(z3.BoolVal(p.lv.root == ('this', FR) and not p.lv.path and p.off is not None), (z3.IntVal(-1) if p.off is None else p.off) == K(e) - 1)))
        return out
    return Contract('dr/get_final_reduction_matrix_J.cc', 'get_final_reduction_matrix_J', None, lambda e: [('pole order', z3.And(1 <= K(e), K(e) <= e.f('n'), e.f('n') <= MAXN))] + object_J(e) + inv_solve(e) + inv_final(e) + solved_sizes(e) + solved_shape(e), ens,
                    {0: Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= K(e) + 1)), ('length', vlen(e.f(FR)) == K(e)), kept_int(e, SJ)] + inv_solve(e) + inv_final(e, e['i'] - 1), lambda e: K(e) + 1 - e['i'])},
                    modifies=['this.' + FR, 'this.' + SJ], returns=ret, fields=FIELDS, overflow=True, label='dr/get_final_reduction_matrix_J.cc:get_final_reduction_matrix_J', use_only=use_only)


def contracts():
    from . import ndcache as N
    return [get_final(), compute_final(), get_inclusion(), compute_inclusion(), get_solve_J(), C10.matrix_J()] + C10.base()[2:] + N.contracts() + [N.solve_padic(), C10.matrix_ND(True)] + C03.contracts()[1:] + [c for c in C02.contracts() if c.label in ('vec_int64.h:operator-', 'vec_int64.h:sub')]


def theorems():
    return ['what solve_system_padic returns has the stated sizes and rows (C09)']


def jonly_lemmas():
    return C10.base_lemmas() + jlemmas() + [degree_fits, dot_cong, pole_fits, sum_one_more, fact_word, fact_next, C11.prefix_range]


def lemmas():
    from . import ndcache as N
    return jonly_lemmas() + N.lemmas() + C02.lemmas() + C03.lemmas()
