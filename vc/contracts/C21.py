"""Random model changes have determinant one; the search for a model returns zero or a model that is non-degenerate."""
from ..engine import *
from ..spec import *
from .math import *
from ..builtins import PMOD
from . import poly, expand

MP = 'map<Vec<int64_t>, zz_p>'
DET = z3.Function('determinant', ARR2, INT, INT)
RANK = z3.Function('rank_of_matrix', ARR2, INT, INT)
INV = z3.Function('inverse_mod', INT, INT, INT)


def dat(m):
    return acc('dat', m)


def det_range(M, n, p):
    return Fact(z3.And(0 <= DET(M, n), DET(M, n) < p), 'determinant modulo p')


def det_scale(M, N, i, c, n, p):
    """scaling row i by c scales the determinant"""
    q, j = fv('q'), fv('j')
    same = forall_range(0, n, lambda q: z3.Implies(q != i, forall_range(0, n, lambda j: N[q][j] == M[q][j])))
    return Fact(z3.Implies(z3.And(0 <= i, i < n, same, forall_range(0, n, lambda j: N[i][j] == (c * M[i][j]) % p, pats=lambda j: N[i][j])), DET(N, n) == (c * DET(M, n)) % p), 'theorem: the determinant is linear in each row')


def rank_det(M, C, n):
    """a square matrix of full rank has a non-zero determinant"""
    return Fact(z3.Implies(z3.And(forall_range(0, n, lambda q: forall_range(0, n, lambda j: C[q][j] == M[q][j])), RANK(C, n) == n), DET(M, n) != 0), 'theorem: full rank iff the determinant is a unit')


def inv_fact(x, p):
    return Fact(z3.Implies(z3.And(0 < x, x < p), (INV(x, p) * x) % p == 1), 'theorem: non-zero residues modulo a prime are units')


def theorems():
    return ['the determinant is linear in each row', 'a square matrix over a field has full rank if and only if its determinant is not zero', 'non-zero residues modulo a prime are units (p prime)']


def h_random(eng, n, st):
    args = n.inner[1:]
    r = eng.fresh('random', INT)
    st.pc.append(z3.And(0 <= r, r < PMOD(st)))
    return r


def h_bnd(eng, n, st):
    args = n.inner[1:]
    b = eng.eval(args[0], st)
    r = eng.fresh('random', INT)
    eng.oblige(st, 'safety', 'random range not empty', b > 0, n.line)
    st.pc.append(z3.And(0 <= r, r < b))
    return r


def h_gauss(eng, n, st):
    args = n.inner[1:]
    lv = eng.lval(args[0], st)
    m = eng.read(st, lv)
    d = eng.fresh('gauss.dat', dat(m).sort())
    r = RANK(dat(m), acc('nr', m))
    st.pc.append(z3.And(0 <= r, r <= acc('nr', m)))
    M = z3.Const('ga!M', ARR2)
    st.pc.append(z3.ForAll([M], rank_det(M, dat(m), acc('nr', m)), patterns=[DET(M, acc('nr', m))]))
    eng.write(st, lv, mk(m.sort(), acc('nr', m), acc('nc', m), d))
    return r


def h_det(eng, n, st):
    args = n.inner[1:]
    lv = eng.lval(args[0], st)
    m = eng.eval(args[1], st)
    m = eng.read(st, m) if isinstance(m, LV) else m
    eng.oblige(st, 'safety', 'determinant of a square matrix', acc('nr', m) == acc('nc', m), n.line)
    nr, p = acc('nr', m), PMOD(st)
    d = DET(dat(m), nr)
    st.pc.append(det_range(dat(m), nr, p))
    if hasattr(eng, 'first_det'):
        st.pc += [det_scale(eng.first_det, dat(m), Env(eng, st, None)['randomRow'], INV(DET(eng.first_det, nr), p), nr, p)]
    else:
        eng.first_det = dat(m)
        st.pc.append(inv_fact(d, p))
    eng.write(st, lv, d)
    return None


def h_inv(eng, n, st):
    args = n.inner[1:]
    v = eng.eval(args[0], st)
    v = eng.read(st, v) if isinstance(v, LV) else v
    eng.oblige(st, 'safety', 'inverse of a unit', v != 0, n.line)
    r = INV(v, PMOD(st))
    st.pc.append(z3.And(0 <= r, r < PMOD(st)))
    return r


def random_SL():
    n = lambda e: e['n']
    size = lambda e, x: z3.And(acc('nr', e[x]) == n(e), acc('nc', e[x]) == n(e))
    p = lambda e: PMOD(e.st)

    def eq(e, rows, upto_j=None):
        R, C = dat(e['result']), dat(e['copy_result'])
        q, j = fv('q'), fv('j')
        x = R[q][j]
        c = z3.And(0 <= q, q < rows, 0 <= j, j < n(e))
        if upto_j is not None:
            c = z3.Or(c, z3.And(q == rows, 0 <= j, j < upto_j))
        return z3.ForAll([q, j], z3.Implies(c, C[q][j] == x), patterns=[x, C[q][j]])
    return Contract('matrix/random_SL_matric.cc', 'random_SL_matrix', ['i64'], lambda e: [('size', z3.And(n(e) >= 1, n(e) <= (1 << 31))), ('prime', p(e) > 1)],
                    lambda e: [('square', z3.And(acc('nr', e.result) == n(e), acc('nc', e.result) == n(e))), ('determinant one', DET(dat(e.result), n(e)) == 1)],
                    {0: Loop(lambda e: [('size', size(e, 'copy_result')), ('size once drawn', z3.Implies(e['invertible'], size(e, 'result'))), ('kept matrix is invertible', z3.Implies(e['invertible'], DET(dat(e['result']), n(e)) != 0))]),
                     1: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= n(e))), ('sizes', z3.And(size(e, 'result'), size(e, 'copy_result'))), ('copied', eq(e, e['i']))], lambda e: n(e) - e['i']),
                     2: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= n(e))), ('sizes', z3.And(size(e, 'result'), size(e, 'copy_result'))), ('copied', eq(e, e['i'], e['j']))], lambda e: n(e) - e['j'])},
                    handlers={'random_zz_p': h_random, 'RandomBnd': h_bnd, 'gauss': h_gauss, 'determinant': h_det, 'inv': h_inv}, label='matrix/random_SL_matric.cc:random_SL_matrix', overflow=True, flags={'residue': True}, termination=False)


def mapsort(e):
    return e.eng.sorts.sort(ty(MP))


def ND(e, f):
    return z3.Function('non_degenerate', f.sort(), BOOL)(f)


def is_ND():
    return Contract('dr_nd/dr_nd.cc', 'isND', None, lambda e: [], lambda e: [('decides', e.result == ND(e, e['f']))], label='dr_nd/dr_nd.cc:isND', use_only=True)


def search():
    one = lambda e, M: DET(dat(M), acc('nr', M)) == 1
    f = lambda e: e.old('f')

    def ident(e, M):
        i, j = fv('i'), fv('j')
        x = dat(M)[i][j]
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < acc('nr', M), 0 <= j, j < acc('nr', M)), x == z3.If(i == j, z3.IntVal(1), z3.IntVal(0))), patterns=[x])

    def zero(e, M):
        return forall_range(0, acc('nr', M), lambda i: forall_range(0, acc('nc', M), lambda j: dat(M)[i][j] == 0, pats=lambda j: dat(M)[i][j]))
    square = lambda e, M: z3.And(acc('nr', M) == NVARS(e), acc('nc', M) == NVARS(e))
    KZ = poly.kind('zz_p')

    def substituted(e, g, M):
        """g is f with the linear forms of M put in"""
        U = poly.anyU()
        x = KZ.value(g, U, NVARS(e))
        p = PMOD(e.st)
        return z3.And(poly.monomials(g, NVARS(e))[1], z3.ForAll([U], x % p == KZ.value(f(e), poly.LINE(dat(M), U, NVARS(e)), NVARS(e)) % p, patterns=[x]))

    def found(e, M):
        g = z3.Const('fd!g', f(e).sort())
        return z3.And(one(e, M), z3.Exists([g], z3.And(ND(e, g), substituted(e, g, M))))
    return Contract('dr_nd/dr_nd.cc', 'find_change_of_variables', None, lambda e: [('prime', PMOD(e.st) > 1), ('a polynomial in n variables', nonempty(e)), poly.monomials(e['f'], NVARS(e))],
                    lambda e: [('square', square(e, e.result)), ('a non-degenerate polynomial keeps its model', z3.Implies(ND(e, f(e)), ident(e, e.result))),
                               ('zero or a good model', z3.Implies(z3.Not(ND(e, f(e))), z3.Or(zero(e, e.result), found(e, e.result))))],
                    {0: Loop(lambda e: [('counter', 0 <= e['i']), ('square', square(e, e['M'])), ('variables', e['n'] == NVARS(e)), ('polynomial', e['f'] == f(e)),
                                        ('untouched', z3.Implies(ND(e, f(e)), z3.And(z3.Not(e['not_nd']), ident(e, e['M'])))),
                                        ('found', z3.Implies(z3.And(z3.Not(ND(e, f(e))), z3.Not(e['not_nd'])), z3.And(one(e, e['M']), ND(e, e['new_f']), substituted(e, e['new_f'], e['M']))))], lambda e: z3.If(e['N'] > e['i'], e['N'] - e['i'], 0))},
                    label='dr_nd/dr_nd.cc:find_change_of_variables', flags={'residue': True}, overflow=True)


def NVARS(e):
    eng, m = e.eng, e.old('f')
    return vlen(eng.key_value(e.st, eng.map_key(acc('dom', m), z3.IntVal(0)), ty('Vec<int64_t>')))


def nonempty(e):
    m = e['f']
    eng = e.eng
    eng.enumerate_map(e.st, acc('dom', m))
    return z3.And(eng.map_size(acc('dom', m)) > 0, NVARS(e) >= 1, NVARS(e) <= (1 << 24))


def contracts():
    return [random_SL(), is_ND(), poly.substitution('zz_p', 'dr_nd/dr_nd.cc'), search()] + expand.base()


def lemmas():
    from . import C05
    return C05.lemmas()
