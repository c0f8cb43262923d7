"""de_Rham_non_degenerate_local::init_ND establishes everything the toric members rely on: what init establishes, empty toric
caches, the toric basis and its dictionary."""
from .drlib import *
from . import C01, C02, C04, C10, C11, C14, tablebuild, jinit, ndcache, ndmodel
from .C14 import FR, IN
from .jinit import BAS, BD, HIL, HIL_, GEO, geo_def, ZX
from .jmodel import *
from .math import cancel, choose_fact, fact_pos, FACT_, FACT, POW, POW_
from .ndcache import SN, IND, CB, NBAS, LG, BN, OFFN, PN, SOLVED_ND, lev_ax, lev_def, pn_ax

NBD = 'coKernels_ND_basis_dict'
DICTS = (IND, CB, ndmodel.DN, ndmodel.DNZ, ndmodel.DNP, ndmodel.DNPZ)


def shapes_nd(e):
    return [Fact(z3.And(*[f for _, f in ndcache.solved_sizes_nd(e)]), 'theorem: what the solver returns has these sizes and rows (C09)')]


def basis_upto(e, K, part=None):
    """basis elements of the pieces below K, and of piece K up to place part"""
    bas = e.f(NBAS)
    l, j = fv('l'), fv('j')
    x = sel(vdat(bas), PN(l, j))
    ok = z3.And(0 <= l, l < K, 0 <= j, j < vlen(BN(e, LG(l))))
    m = fv('l')
    off = OFFN(e)(m)
    if part is not None:
        ok = z3.Or(ok, z3.And(l == K, 0 <= j, j < part))
    return [('toric basis: size', z3.And(vlen(bas) == OFFN(e)(K) + (0 if part is None else part), 0 <= OFFN(e)(K), OFFN(e)(K) <= K * LIM)),
            ('toric basis: places', z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < K), z3.And(0 <= off, off + vlen(BN(e, LG(m))) <= OFFN(e)(K))), patterns=[off])),
            ('toric basis: elements of each piece', z3.ForAll([l, j], z3.Implies(ok, z3.And(0 <= PN(l, j), PN(l, j) < vlen(bas), x == TL(e, LG(l), BN(e, LG(l), j)))), patterns=[PN(l, j)]))]


def dict_upto(e, hi):
    bas, bd = e.f(NBAS), e.f(NBD)
    q, k = fv('q'), z3.Const(f'k?{fv("k")}', KEYS)
    kf = keyax(e)[0]
    x = sel(vdat(bas), q)
    v = sel(mval(bd), k)
    return [('toric basis dictionary: every element', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < hi), sel(dom(bd), kf(x))), patterns=[x])),
            ('toric basis dictionary: right places', z3.ForAll([k], z3.Implies(sel(dom(bd), k), z3.And(0 <= v, v < hi, kf(sel(vdat(bas), v)) == k)), patterns=[sel(dom(bd), k)]))]


def fresh_nd(e):
    k, l = z3.Const(f'k?{fv("k")}', KEYS), fv('l')
    return [(f'{m} empty', z3.ForAll([k], z3.Not(sel(dom(e.f(m)), k)), patterns=[sel(dom(e.f(m)), k)])) for m in DICTS + (NBD,)] + [
        (f'{SN} empty', z3.ForAll([l], z3.Not(sel(dom(e.f(SN)), l)), patterns=[sel(dom(e.f(SN)), l)])), ('no toric basis yet', vlen(e.f(NBAS)) == 0)]


def caches(e):
    """what the toric members keep (ndcache, C12)"""
    return ndcache.inv_solve_nd(e) + ndcache.inv_incl_nd(e) + ndcache.inv_to_basis(e) + [x for f, zz in ((ndmodel.DN, False), (ndmodel.DNZ, True)) for x in ndmodel.cacheND(e, f, zz)]


def init_nd(J):
    """J: the contract of init"""
    n, d = (lambda e: e.f('n')), (lambda e: e.f('d'))
    H = lambda e: e.f('Hilbert_ND')
    top = lambda e: (d(e) - 1) * (n(e) + 1)

    def hilbert(e, hi):
        return ('Hilbert series', z3.And(vlen(H(e)) == top(e) + 1, forall_range(0, hi, lambda i: sel(vdat(H(e)), i) == HIL(d(e) + 1, n(e) + 1)[i], pats=lambda i: sel(vdat(H(e)), i))))
    hil = lambda e: ('Hilbert series of the toric ring', hilbert(e, top(e) + 1)[1])
    jac = lambda e: [c for c in J.ensures(e)]
    kept = lambda e: ndcache.inv_solve_nd(e)

    def level_hint(e):
        i = e['i']
        return [lev_def(e, i), OFFN(e).unfold(i), pn_ax(e), C10.rp3.inst(i, d(e)), C10.rp3.inst(n(e) - i, d(e)), Cut('a degree of the tables', z3.And(0 <= i * d(e), i * d(e) <= (n(e) + 1) * d(e)))]
    loops = {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= d(e))), ('geometric', ZX(e, lambda q: z3.If(z3.And(0 <= q, q < e['i']), z3.IntVal(1), z3.IntVal(0))))], lambda e: d(e) - e['i'], post=lambda e: [geo_def(d(e) + 1), Cut('the geometric polynomial', e['pol'] == GEO(d(e) + 1))]),
             1: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1)), ('power', e['H'] == HIL(d(e) + 1, e['i']))], lambda e: n(e) + 1 - e['i'], hints=lambda e: [HIL_.at_pos(d(e) + 1, e['i'])], pre_hints=lambda e: [HIL_.base(d(e) + 1)]),
             2: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= top(e) + 1)), hilbert(e, e['i'])], lambda e: top(e) + 1 - e['i']),
             3: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e) + 1))] + kept(e) + basis_upto(e, e['i']), lambda e: n(e) + 1 - e['i'], pre_hints=lambda e: [OFFN(e).base(), pn_ax(e)], post=lambda e: [pow_cho.inst(d(e), (n(e) + 1) * d(e), n(e))]),
             4: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= vlen(BN(e, LG(e['i'])))))] + basis_upto(e, e['i'], e['j']), lambda e: vlen(BN(e, LG(e['i']))) - e['j'], pre_hints=level_hint, post=level_hint),
             5: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e.f(NBAS))))] + dict_upto(e, e['i']), lambda e: vlen(e.f(NBAS)) - e['i'])}
    Hd = dict(QUIET)
    Hd['to_ulong'] = jinit.h_to_ulong

    def after(e):
        return shapes_nd(e) + [lev_ax(e)]

    def ens(e):
        return jac(e) + caches(e) + [hil(e)] + ndcache.basis_nd(e) + basis_upto(e, n(e) + 1) + dict_upto(e, vlen(e.f(NBAS)))
    mods = list(J.modifies) + ['this.' + x for x in ('Hilbert_ND', NBAS, NBD, SN)]
    return Contract(ndcache.SRC, 'init_ND', None, lambda e: J.requires(e) + fresh_nd(e), ens, loops, modifies=mods, fields=FIELDS_ND, handlers=Hd,
                    flags={'map_sizes': True, 'asserts': 'assume', 'present': [], 'after': {'get_solve_ND': after}}, overflow=True, label=f'{ndcache.SRC}:init_ND', timeout=20)


def contracts():
    J = jinit.init()
    J.use_only = True
    return [init_nd(J), J]


# ---- d^n is at most the number of monomials of degree (n + 1) d
alg_absorb = Lemma('absorption, algebra', I('C', 'c', 'f', 'g', 'N', 'k'), lambda C, c, f, g, N, k: z3.Implies(z3.And(f >= 1, g >= 1, C * (k * f) * g == N * (c * f * g)), C * k == N * c), facts=lambda C, c, f, g, N, k: [prodpos.inst(f, g), cancel.inst(C * k, N * c, f * g), reshape.inst(C, k, f, g), reshape2.inst(N, c, f, g)])
prodpos = Lemma('positive product', I('f', 'g'), lambda f, g: z3.Implies(z3.And(f >= 1, g >= 1), f * g >= 1))
reshape = Lemma('four factors', I('C', 'k', 'f', 'g'), lambda C, k, f, g: C * (k * f) * g == (C * k) * (f * g))
reshape2 = Lemma('four factors, other way', I('N', 'c', 'f', 'g'), lambda N, c, f, g: N * (c * f * g) == (N * c) * (f * g))
absorb = Lemma('k C(N,k) = N C(N-1,k-1)', I('N', 'k'), lambda N, k: z3.Implies(z3.And(1 <= k, k <= N), C01.CHO(N, k) * k == N * C01.CHO(N - 1, k - 1)),
               facts=lambda N, k: [choose_fact.inst(N, k), choose_fact.inst(N - 1, k - 1), fact_pos.inst(k - 1), fact_pos.inst(N - k), FACT_.at_pos(k), FACT_.at_pos(N), alg_absorb.inst(C01.CHO(N, k), C01.CHO(N - 1, k - 1), FACT(k - 1), FACT(N - k), N, k), alg_fac.inst(C01.CHO(N, k), C01.CHO(N - 1, k - 1), FACT(k - 1), FACT(N - k), N, k, FACT(N - 1), FACT(k), FACT(N))])
alg_fac = Lemma('absorption, substitution', I('C', 'c', 'f', 'g', 'N', 'k', 'M', 'fk', 'fN'), lambda C, c, f, g, N, k, M, fk, fN: z3.Implies(z3.And(fk == k * f, fN == N * M, C * fk * g == fN, c * f * g == M), C * (k * f) * g == N * (c * f * g)))
grow_alg = Lemma('growth, algebra', I('C', 'c', 'p', 'd', 'k', 'N'), lambda C, c, p, d, k, N: z3.Implies(z3.And(k >= 1, d >= 1, N >= d * k, p >= 1, c >= p, C * k == N * c), C >= d * p),
                 facts=lambda C, c, p, d, k, N: [C10.rp3.inst(N - d * k, c), C10.rp3.inst(d * k, c - p), le_cancel.inst(C, d * p, k), reshape3.inst(d, k, c, p), reshape4.inst(N, d, k, c)])
reshape3 = Lemma('difference of triple products', I('d', 'k', 'c', 'p'), lambda d, k, c, p: (d * k) * (c - p) == (d * k) * c - (d * p) * k)
reshape4 = Lemma('difference times c', I('N', 'd', 'k', 'c'), lambda N, d, k, c: (N - d * k) * c == N * c - (d * k) * c)
le_cancel = Lemma('cancel a positive factor', I('x', 'y', 'k'), lambda x, y, k: z3.Implies(z3.And(k >= 1, x * k >= y * k), x >= y), facts=lambda x, y, k: [C10.rp3.inst(y - x - 1, k), reshape5.inst(x, y, k)])
reshape5 = Lemma('difference times k', I('x', 'y', 'k'), lambda x, y, k: (y - x - 1) * k == y * k - x * k - k)
pow_cho = Lemma('d^k <= C(m + k, k) for m >= d k', I('d', 'm', 'k'), lambda d, m, k: z3.Implies(z3.And(d >= 1, m >= d * k), z3.And(1 <= POW(d, k), POW(d, k) <= C01.CHO(m + k, k))), induct=2,
                facts=lambda d, m, k: [POW_.base(d), POW_.at_pos(d, k), C01.cho_def(m, 0), absorb.inst(m + k, k), grow_alg.inst(C01.CHO(m + k, k), C01.CHO(m + k - 1, k - 1), POW(d, k - 1), d, k, m + k), prodpos.inst(d, POW(d, k - 1)), times_pred.inst(d, k)])
times_pred = Lemma('one multiple less', I('d', 'k'), lambda d, k: d * k == d * (k - 1) + d)


def lemmas():
    return [alg_absorb, prodpos, reshape, reshape2, absorb, alg_fac, grow_alg, reshape3, reshape4, le_cancel, reshape5, pow_cho, times_pred, C10.rp3, cancel, choose_fact, fact_pos]
