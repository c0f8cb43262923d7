"""de_Rham_local::init establishes everything the other members rely on: tables, empty or right caches, the basis and its dictionary."""
from .drlib import *
from . import C01, C02, C04, C10, C11, C14, tablebuild
from .C01 import CHO
from .C14 import FR, IN, PD, pd_def, deg, MAXN
from .jmodel import *
from .tablebuild import top_degree
from ..builtins import POLMUL, COEFFS

BAS, BD = 'coKernels_J_basis', 'coKernels_J_basis_dict'
_bo = {}
BP = z3.Function('place_in_basis', INT, INT, INT)
# (1 + x + ... + x^(d-2))^k
GEO = z3.Function('geometric_polynomial', INT, COEFFS)
HIL_ = RecDef('power_of_geometric', [INT], COEFFS, lambda d: z3.Store(z3.K(INT, z3.IntVal(0)), 0, z3.IntVal(1)), lambda d, k, r: POLMUL(r, GEO(d)))
HIL = HIL_.fn


def geo_def(d):
    i = fv('i')
    x = GEO(d)[i]
    return Fact(z3.ForAll([i], x == z3.If(z3.And(0 <= i, i < d - 1), z3.IntVal(1), z3.IntVal(0)), patterns=[x]), 'definition of geometric_polynomial')


def BK(e, k):
    return acc('first', SOLVED(e, PD(k)))


def BO(e):
    """number of basis elements of pole order at most k"""
    so = vsort(e)
    if so not in _bo:
        s = pairsort(e)
        f = z3.Function('solution_of_level', INT, s)
        _bo[so] = RecDef('basis_offset', [], INT, lambda: z3.IntVal(0), lambda k, r: r + vlen(acc('first', f(PD(k + 1)))))
    return _bo[so]


def bp_def(e):
    k, j = fv('k'), fv('j')
    return Fact(z3.ForAll([k, j], BP(k, j) == BO(e)(k - 1) + j, patterns=[BP(k, j)]), 'definition of place_in_basis')


def bp_name(e, k, j):
    return Fact(BP(k, j) == BO(e)(k - 1) + j, 'definition of place_in_basis')


def shapes_of_solutions(e):
    l, i = fv('l'), fv('i')
    s = SOLVED(e, l)
    B = acc('first', s)
    f = z3.And(*[x for _, x in solved_sizes(e)])
    x = sel(vdat(B), i)
    return [Fact(f, 'theorem: what the solver returns has these sizes (C09)'),
            Fact(z3.ForAll([l, i], z3.Implies(z3.And(0 <= l, l <= (e.f('n') + 1) * e.f('d'), 0 <= i, i < vlen(B)), z3.And(0 <= x, x < TLN(e, l))), patterns=[x]), 'theorem: what the solver returns has these sizes (C09)')]


def basis_upto(e, K, part=None):
    """basis elements of pole order at most K, and of pole order K + 1 up to place part"""
    bas = e.f(BAS)
    k, j, q = fv('k'), fv('j'), fv('q')
    x = sel(vdat(bas), BP(k, j))
    ok = z3.And(1 <= k, k <= K, 0 <= j, j < vlen(BK(e, k)))
    if part is not None:
        ok = z3.Or(ok, z3.And(k == K + 1, 0 <= j, j < part))
    y = sel(vdat(bas), q)
    return [('basis: size', z3.And(vlen(bas) == BO(e)(K) + (0 if part is None else part), 0 <= vlen(bas), vlen(bas) <= (K if part is None else K) * LIM + (0 if part is None else part))),
            ('basis: elements of each pole order', z3.ForAll([k, j], z3.Implies(ok, z3.And(0 <= BP(k, j), BP(k, j) < vlen(bas), x == TL(e, PD(k), sel(vdat(BK(e, k)), j)))), patterns=[BP(k, j)])),
            ('basis: exponent vectors', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < vlen(bas)), vlen(y) == e.f('n') + 1), patterns=[y]))]


def dict_upto(e, hi):
    bas, bd = e.f(BAS), e.f(BD)
    q, k = fv('q'), z3.Const(f'k?{fv("k")}', KEYS)
    kf = keyax(e)[0]
    x = sel(vdat(bas), q)
    v = sel(mval(bd), k)
    return [('basis dictionary: every element', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < hi), sel(dom(bd), kf(x))), patterns=[x])),
            ('basis dictionary: right places', z3.ForAll([k], z3.Implies(sel(dom(bd), k), z3.And(0 <= v, v < hi, kf(sel(vdat(bas), v)) == k)), patterns=[sel(dom(bd), k)]))]


def first_key(e, f):
    return e.eng.key_value(e.st, e.eng.map_key(dom(f), 0), VT)


def empty_caches(e):
    k = z3.Const(f'k?{fv("k")}', KEYS)
    l = fv('l')
    out = [(f'{m} empty', z3.ForAll([k], z3.Not(sel(dom(e.f(m)), k)), patterns=[sel(dom(e.f(m)), k)])) for m in (IN, C11.D, C11.DZ)]
    return out + [(f'{SJ} empty', z3.ForAll([l], z3.Not(sel(dom(e.f(SJ)), l)), patterns=[sel(dom(e.f(SJ)), l)])), ('no final matrices', vlen(e.f(FR)) == 0)]


def unused(e):
    j = fv('j')
    x = sel(vdat(e.f(FR)), j)
    return [('slots of the final matrices never used', z3.ForAll([j], z3.And(NR(x) == 0, NC(x) == 0), patterns=[x]))]


def fresh_object(e):
    k, l = z3.Const(f'k?{fv("k")}', KEYS), fv('l')
    return empty_caches(e) + unused(e) + [('dictionaries never used', z3.ForAll([l], dom(TD(e, l)) == tablebuild.NOKEYS, patterns=[TD(e, l)])), ('no tables yet', z3.And(vlen(e.f('tuple_list')) == 0, vlen(e.f('tuple_dict')) == 0, vlen(e.f(BAS)) == 0)), ('empty basis dictionary', z3.ForAll([k], z3.Not(sel(dom(e.f(BD)), k)), patterns=[sel(dom(e.f(BD)), k)]))]


def h_to_ulong(eng, n, st):
    v = eng.eval(n.inner[1], st)
    st.pc.append(z3.And(0 <= v, v <= LIM))
    return v


def init():
    f = lambda e: e.old('f')
    n0 = lambda e: vlen(first_key(e, f(e))) - 1
    d0 = lambda e: SUM(vdat(first_key(e, f(e))), n0(e) + 1)
    n, d = (lambda e: e.f('n')), (lambda e: e.f('d'))

    def req(e):
        m = f(e)
        k = z3.Const(f'k?{fv("k")}', KEYS)
        v = e.eng.key_value(e.st, k, VT)
        return [('not zero', e.eng.map_size(dom(m)) > 0), ('n and d', z3.And(n0(e) >= 1, n0(e) < LIM, (n0(e) + 1) * d0(e) < LIM)), ('homogeneous', z3.ForAll([k], z3.Implies(sel(dom(m), k), is_tuple(v, d0(e), n0(e) + 1)), patterns=[v])),
                ('the monomials of each degree fit', CHO((n0(e) + 1) * d0(e) + n0(e), n0(e)) <= LIM), ('prime', e['p'] >= 2)] + fresh_object(e)
    nd = lambda e: ('n and d', z3.And(n(e) == n0(e), d(e) == d0(e)))
    args = lambda e: ('settings', z3.And(e.f('p') == e.old('p'), e.f('precision') == e.old('precision'), e.f('verbose') == e.old('verbose'), e.f('save_memory') == e.old('save_memory'), e.f('f') == f(e)))

    def fbar(e, upto=None):
        k = z3.Const(f'k?{fv("k")}', KEYS)
        a, m = e.f('fbar'), f(e)
        there = sel(dom(m), k) if upto is None else z3.And(sel(dom(m), k), e.eng.map_pos(dom(m), k) < upto)
        return [('f modulo p', z3.ForAll([k], z3.Implies(there, z3.And(sel(dom(a), k), sel(mval(a), k) == sel(mval(m), k) % e.old('p'))), patterns=[sel(mval(a), k)]))]

    def after_assert(e):
        return []
    top = lambda e: top_level(e)

    def hilbert(e, hi):
        H = e.f('Hilbert_J')
        return ('Hilbert series', z3.And(vlen(H) == top(e), forall_range(0, hi, lambda i: sel(vdat(H), i) == HIL(d(e), n(e) + 1)[i], pats=lambda i: sel(vdat(H), i))))

    def ens(e):
        return [nd(e), args(e)] + fbar(e) + object_J(e) + inv_J(e) + inv_solve(e) + C14.inv_incl(e) + C14.inv_final(e) + [('Hilbert series of the Jacobian ring', hilbert(e, top(e))[1])] + basis_upto(e, n(e)) + dict_upto(e, vlen(e.f(BAS)))
    base = lambda e: [nd(e), args(e)]
    caches = lambda e: inv_solve(e)
    build = tablebuild.loops(2)
    for k in build:
        build[k].inv = (lambda g: (lambda e: base(e) + g(e)))(build[k].inv)
    L = lambda e: deg(e, e['i'] + 1)

    def after_solve(e):
        try:
            i = e['i']
        except Unsupported:
            return []
        return shapes_of_solutions(e)
    running = lambda a, m: C11.running(a, m)

    def enter_basis(e):
        k = fv('k')
        return [BO(e).base(), bp_def(e)]

    def level_hint(e):
        """entering the loop over the complement of this degree"""
        i = e['i']
        return [C14.pole_fits.inst(i + 1, n(e), d(e)), pd_def(e, i + 1), BO(e).unfold(i), bp_def(e)]
    loops = {0: Loop(lambda e: [args(e)] + fbar(e, e['it'].pos), lambda e: e.eng.map_size(dom(f(e))) - e['it'].pos),
             1: Loop(lambda e: [args(e), ('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('n', n(e) == n0(e)), ('partial sum', d(e) == SUM(vdat(first_key(e, f(e))), e['i']))], lambda e: n(e) + 1 - e['i'], hints=lambda e: [SUM.at_pos(vdat(first_key(e, f(e))), e['i'])],
                     pre_hints=lambda e: [SUM.base(vdat(first_key(e, f(e))))] + running(vdat(first_key(e, f(e))), n0(e) + 1)),
             **build,
             4: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= d(e) - 1)), ('geometric', ZX(e, lambda q: z3.If(z3.And(0 <= q, q < e['i']), z3.IntVal(1), z3.IntVal(0))))], lambda e: d(e) - 1 - e['i'],
                     post=lambda e: [geo_def(d(e)), Cut('the geometric polynomial', e['pol'] == GEO(d(e)))]),
             5: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('power', e['H'] == HIL(d(e), e['i']))], lambda e: n(e) + 1 - e['i'], hints=lambda e: [HIL_.at_pos(d(e), e['i'])], pre_hints=lambda e: [HIL_.base(d(e))]),
             6: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= top(e))), hilbert(e, e['i'])], lambda e: top(e) - e['i']),
             7: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e)))] + caches(e) + basis_upto(e, e['i']), lambda e: n(e) - e['i'], pre_hints=enter_basis),
             8: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= vlen(BK(e, e['i'] + 1))))] + basis_upto(e, e['i'], e['j']), lambda e: vlen(BK(e, e['i'] + 1)) - e['j'], pre_hints=level_hint),
             9: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e.f(BAS))))] + dict_upto(e, e['i']), lambda e: vlen(e.f(BAS)) - e['i'])}
    mods = ['p', 'precision', 'verbose', 'save_memory', 'f', 'fbar', 'n', 'd', 'tuple_list', 'tuple_dict', 'Hilbert_J', BAS, BD, SJ]
    H = dict(QUIET)
    H['to_ulong'] = h_to_ulong
    return Contract('dr/init.cc', 'init', ['i64', 'i64', 'map<vec<i64>,ZZ_p>', 'bool', 'bool'], req, ens, loops, modifies=['this.' + x for x in mods], fields=FIELDS, handlers=H, flags={'map_sizes': True, 'asserts': 'assume', 'present': [], 'after': {'get_solve_J': after_solve}}, overflow=True, label='dr/init.cc:init', timeout=20)


def ZX(e, val):
    q = fv('q')
    x = z3.Select(e['pol'], q)
    return z3.ForAll([q], x == val(q), patterns=[x])


def contracts():
    return [init()] + [c for c in C01.contracts() if c.name == 'tuple_list_generator'] + [c for c in C04.contracts() if c.name == 'binomial'] + [c for c in C02.contracts() if c.label == 'vec_int64.h:conv from array']


def lemmas():
    return C01.lemmas()


def theorems():
    return ['what solve_system_padic returns has the stated sizes (C09)', 'the Hilbert function of the Jacobian ring counts monomials, at most as many as the degree has']
