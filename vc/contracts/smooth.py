"""isSmooth and isND: full rank of the relation matrix in the first degree with empty cokernel."""
from .drlib import *
from . import C01, C02, C03, C04, C06, C10, C11, tablebuild
from .C10 import COL, entry, colfit, col_ax
from .jmodel import sizefit
from .tablebuild import top_degree
RANKP = z3.Function('rank_over_field', INT, ARR2, INT, INT, INT)
PMZ, PMW = z3.Int('modulus_of_ZZ_p'), z3.Int('modulus_of_zz_p')
MATP = z3.Const('matrix_handed_to_the_elimination', ARR2)
MF = 'map<Vec<int64_t>, zz_p>'
modtower = Lemma('reducing twice', I('x', 'P', 'p', 's'), lambda x, P, p, s: z3.Implies(z3.And(p > 0, s > 0, P == p * s), (x % P) % p == x % p), facts=lambda x, P, p, s: [C06.modshift.inst(x % P, s * (x / P), p), tower2.inst(p, s, x / P)])
tower2 = Lemma('reassociation of three factors', I('p', 's', 'q'), lambda p, s, q: z3.And((s * q) * p == (p * s) * q, z3.Implies(z3.And(p > 0, s > 0), p * s > 0)))


level_J = Lemma('degrees of the first empty level', I('n', 'd'), lambda n, d: z3.Implies(z3.And(n >= 1, d > n), z3.And((d - 2) * (n + 1) + 1 >= d - 1, (d - 2) * (n + 1) + 1 <= (n + 1) * d)), facts=lambda n, d: [C10.rp3.inst(d - 2, n)])
level_T = Lemma('degrees of the first empty toric level', I('n', 'd'), lambda n, d: z3.Implies(z3.And(n >= 1, d > n), z3.And((d - 1) * (n + 1) + 1 >= d, (d - 1) * (n + 1) + 1 <= (n + 1) * d)), facts=lambda n, d: [C10.rp3.inst(d - 1, n)])


def h_rep(eng, n, st):
    a = n.inner[1]
    v = eng.eval(a, st)
    v = eng.read(st, v) if isinstance(v, LV) else v
    return v % PMZ if ty(a.type).k == 'ZZ_p' else v


def h_modulus(eng, n, st):
    return PMW


def h_init(eng, n, st):
    args = n.inner[1:]
    lv = eng.eval(args[0], st)
    r, c, m = (eng.eval(x, st) for x in args[1:4])
    eng.oblige(st, 'safety', 'sizes and modulus of a matrix', z3.And(r >= 0, c >= 0, m > 0), n.line)
    s = eng.sorts.sort(ty('nmod_mat_t'))
    old = eng.read(st, lv.lv if isinstance(lv, Ptr) else lv)
    eng.write(st, lv.lv if isinstance(lv, Ptr) else lv, mk(s, *[r, c, z3.K(INT, z3.K(INT, z3.IntVal(0))), m]))


def h_lu(eng, n, st):
    args = n.inner[1:]
    p, m = eng.eval(args[0], st), eng.eval(args[1], st)
    lv = m.lv if isinstance(m, Ptr) else m
    v = eng.read(st, lv)
    eng.oblige(st, 'safety', 'room for the permutation', vlen(eng.read(st, p.lv)) >= NR(v), n.line)
    st.pc.append(MATP == dat(v))
    r = RANKP(acc('mod', v), dat(v), NR(v), NC(v))
    st.pc.append(z3.And(0 <= r, r <= NR(v)))
    eng.write(st, lv, mk(v.sort(), NR(v), NC(v), eng.fresh('lu.dat', ARR2), acc('mod', v)))
    return r


def h_malloc(eng, n, st):
    b = eng.eval(n.inner[1], st)
    t = ty('Vec<int64_t>')
    eng.nmalloc = getattr(eng, 'nmalloc', 0) + 1
    r = f'malloc{eng.nmalloc}'
    st.store[r] = mk(eng.sorts.sort(t), b / 8, eng.fresh('malloc.dat', ARR))
    st.names[r] = (r, t)
    return Ptr(LV(r, (), t), z3.IntVal(0), ty('int64_t *'))


def first_key(e, f):
    return e.eng.key_value(e.st, e.eng.map_key(dom(f), 0), VT)


def smooth(src, name, toric, cls, fields):
    f = lambda e: e.old('f')
    n0 = lambda e: vlen(first_key(e, f(e))) - 1
    d0 = lambda e: SUM(vdat(first_key(e, f(e))), n0(e) + 1)
    top = lambda e: (e.f('d') - (1 if toric else 2)) * (e.f('n') + 1) + 1
    D = lambda e: dom(e.f('f'))

    def req(e):
        m = f(e)
        k = z3.Const(f'k?{fv("k")}', KEYS)
        v = e.eng.key_value(e.st, k, VT)
        x = sel(mval(m), k)
        return [('not zero', e.eng.map_size(dom(m)) > 0), ('n and d', z3.And(n0(e) >= 1, d0(e) > n0(e), (n0(e) + 1) * d0(e) < LIM)), ('homogeneous', z3.ForAll([k], z3.Implies(sel(dom(m), k), is_tuple(v, d0(e), n0(e) + 1)), patterns=[v])),
                ('coefficients are residues', z3.ForAll([k], z3.Implies(sel(dom(m), k), z3.And(0 <= x, x < PMW)), patterns=[x])),
                ('the monomials of each degree fit', CHO((n0(e) + 1) * d0(e) + n0(e), n0(e)) <= LIM), ('moduli', z3.And(PMW >= 2, PMZ == PMW * z3.Int('cofactor'), z3.Int('cofactor') > 0, PMW < 1 << 62))]

    def copied(e, upto=None):
        k = z3.Const(f'k?{fv("k")}', KEYS)
        a, m = e.f('f'), f(e)
        there = sel(dom(m), k) if upto is None else z3.And(sel(dom(m), k), e.eng.map_pos(dom(m), k) < upto)
        return [('terms copied', z3.ForAll([k], sel(dom(a), k) == there, patterns=[sel(dom(a), k)])), ('coefficients copied', z3.ForAll([k], z3.Implies(there, sel(mval(a), k) == sel(mval(m), k)), patterns=[sel(mval(a), k)]))]
    nd = lambda e: ('n and d', z3.And(e.f('n') == n0(e), e.f('d') == d0(e)))
    ls = lambda e: top(e) - (e.f('d') if toric else e.f('d') - 1)

    def rank_matrix(e):
        """MATP: the relation matrix of the first degree with empty cokernel, reduced modulo p"""
        a, i, j = fv('a'), fv('i'), fv('j')
        x = sel(sel(MATP, a), COL(i, j, TLN(e, ls(e))))
        return z3.ForAll([a, i, j], z3.Implies(z3.And(0 <= a, a < TLN(e, top(e)), 0 <= i, i <= e.f('n'), 0 <= j, j < TLN(e, ls(e))), x == entry(e, TL(e, top(e), a), TL(e, ls(e), j), i, None, toric) % PMW), patterns=[x])

    def ens(e):
        R = TLN(e, top(e))
        return [nd(e)] + tables(e) + copied(e) + [('the matrix is the relation matrix modulo p', rank_matrix(e)), ('full rank', e.result == (R == RANKP(PMW, MATP, R, (e.f('n') + 1) * TLN(e, ls(e)))))]
    def mats(e, ii, jj):
        i, j = fv('i'), fv('j')
        x = mat_at(e['M_zz_p'], i, j)
        return [('size', z3.And(NR(e['M_zz_p']) == NR(e['M']), NC(e['M_zz_p']) == NC(e['M']))), ('cells', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < NR(e['M']), 0 <= j, j < NC(e['M']), z3.Or(i < ii, z3.And(i == ii, j < jj))), x == mat_at(e['M'], i, j) % PMZ), patterns=[x]))]
    build = tablebuild.loops(2)
    frame = lambda e: [nd(e)] + copied(e)
    for k in build:
        build[k].inv = (lambda g: (lambda e: g(e) + [nd(e)] + copied(e)))(build[k].inv)
    loops = {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e.f('n') + 1)), ('n', e.f('n') == n0(e)), ('partial sum', e.f('d') == SUM(vdat(first_key(e, f(e))), e['i']))], lambda e: e.f('n') + 1 - e['i'], hints=lambda e: [SUM.at_pos(vdat(first_key(e, f(e))), e['i'])],
                     pre_hints=lambda e: [SUM.base(vdat(first_key(e, f(e))))] + C11.running(vdat(first_key(e, f(e))), n0(e) + 1)),
             1: Loop(lambda e: [nd(e)] + copied(e, e['it'].pos), lambda e: e.eng.map_size(dom(f(e))) - e['it'].pos),
             **build,
             4: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e['M'])))] + mats(e, e['i'], 0), lambda e: NR(e['M']) - e['i']),
             5: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= NC(e['M'])))] + mats(e, e['i'], e['j']), lambda e: NC(e['M']) - e['j'])}
    def after_matrix(e):
        return [sizefit.inst(e.f('n') + 1, TLN(e, ls(e))), level_J.inst(e.f('n'), e.f('d')) if not toric else level_T.inst(e.f('n'), e.f('d')), Cut('the degree of the rows', z3.And(0 <= ls(e), ls(e) < top_degree(e))), Cut('size of the matrix', z3.And(0 <= NR(e['M']), NR(e['M']) <= LIM, 0 <= NC(e['M']), NC(e['M']) <= LIM * LIM))]
    def after_conv(e):
        try:
            e['M_flint']
        except Unsupported:
            return []
        a, i, j = fv('a'), fv('i'), fv('j')
        n2 = TLN(e, ls(e))
        c = COL(i, j, n2)
        x, y = mat_at(e['M_flint'], i, j), mat_at(e['M'], i, j)
        z = mat_at(e['M_flint'], a, c)
        en = entry(e, TL(e, top(e), a), TL(e, ls(e), j), i, None, toric)
        return [z3.ForAll([i, j], modtower.inst(y, PMZ, PMW, z3.Int('cofactor')), patterns=[x]), forall_facts([i, j], colfit.inst(i, j, n2, e.f('n') + 1), [c]), col_ax(),
                Cut('cells of the matrix', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < NR(e['M']), 0 <= j, j < NC(e['M'])), x == y % PMW), patterns=[x])),
                Cut('columns fit', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= e.f('n'), 0 <= j, j < n2), z3.And(0 <= c, c < NC(e['M']))), patterns=[c])),
                Cut('entries', z3.ForAll([a, i, j], z3.Implies(z3.And(0 <= a, a < TLN(e, top(e)), 0 <= i, i <= e.f('n'), 0 <= j, j < n2), z == en % PMW), patterns=[z]))]
    H = {'rep': h_rep, 'modulus': h_modulus, 'nmod_mat_init': h_init, 'nmod_mat_lu': h_lu, 'nmod_mat_clear': lambda *a: None, 'flint_free': lambda *a: None, 'flint_malloc': h_malloc}
    return Contract(src, name, None, req, ens, loops, modifies=[], fields=fields, handlers=H, flags={'object': cls, 'map_sizes': True, 'after': {'matrix_ND' if toric else 'matrix_J': after_matrix, 'conv': after_conv}}, overflow=True, label=f'{src}:{name}', timeout=20)


def contracts():
    out = [smooth('dr/isSmooth.cc', 'isSmooth', False, 'de_Rham_local', FIELDS), smooth('dr_nd/dr_nd.cc', 'isND', True, 'de_Rham_non_degenerate_local', FIELDS_ND)]
    out += [c for c in C01.contracts() if c.name == 'tuple_list_generator'] + [c for c in C04.contracts() if c.name == 'binomial'] + [c for c in C02.contracts() if c.label == 'vec_int64.h:conv from array']
    return out + [c for c in C06.contracts() if c.label == 'conv.h:conv(nmod_mat, Mat<zz_p>)']


def lemmas():
    return C01.lemmas() + [sizefit, level_J, level_T, tower2, modtower, C11.prefix_range] + C06.lemmas()
