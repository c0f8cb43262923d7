from ..engine import *
from ..spec import *
from .math import *
from ..builtins import MODULUS

A_ = ('A', ARR)
B_ = ('B', ARR)
# sum_{k<n} A[oa+k] * B[ob + k*sb]
GDOT_ = RecDef('strided_dot', [ARR, ARR, INT, INT, INT], INT, lambda a, b, oa, ob, sb: z3.IntVal(0), lambda a, b, oa, ob, sb, k, p: p + a[oa + k] * b[ob + k * sb])
GDOT = GDOT_.fn

rowfit = Lemma('a row lies inside the array', I('i', 'r', 'c'), lambda i, r, c: z3.Implies(z3.And(0 <= i, i < r, c >= 0), z3.And(i * c >= 0, i * c + c <= r * c, i * c <= r * c)))
posmul = Lemma('sizes are non-negative', I('r', 'c'), lambda r, c: z3.Implies(z3.And(r >= 0, c >= 0), r * c >= 0))
divuniq = Lemma('uniqueness of quotient and remainder', I('i', 'c', 'j'), lambda i, c, j: z3.Implies(z3.And(0 <= j, j < c), z3.And((i * c + j) / c == i, (i * c + j) % c == j)), timeout=30)


def D(v):
    return vdat(v)


def flat(R, n, val):
    """entries 0..n-1 of the array R are val(q)"""
    return forall_range(0, n, lambda q: sel(D(R), q) == val(q), pats=lambda q: [sel(D(R), q)])


def rest(R, R0, n):
    """entries from n on are unchanged, and the array keeps its length"""
    q = fv('q')
    return z3.And(vlen(R) == vlen(R0), z3.ForAll([q], z3.Implies(z3.Or(q < 0, q >= n), sel(D(R), q) == sel(D(R0), q)), patterns=[sel(D(R), q)]))


def same(e, *names):
    return [(f'{n} untouched', e.obj(n) == e.oldobj(n)) for n in names]


def matmul(src, name, transposed):
    ia = lambda e: e['i'] * e['colsA']
    ob = (lambda e, q: (q % e['colsB']) * e['rowsB']) if transposed else (lambda e, q: q % e['colsB'])
    ob1 = (lambda e: e['j'] * e['rowsB']) if transposed else (lambda e: e['j'])
    sb = (lambda e: z3.IntVal(1)) if transposed else (lambda e: e['colsB'])
    val = lambda e: (lambda q: GDOT(D(e.obj('A')), D(e.obj('B')), (q / e['colsB']) * e['colsA'], ob(e, q), sb(e), e['rowsB']))
    n = lambda e: e['rowsA'] * e['colsB']
    req = lambda e: [('shapes', z3.And(e['rowsA'] >= 0, e['colsA'] >= 0, e['rowsB'] >= 0, e['colsB'] >= 0, e['colsA'] == e['rowsB'])),
                     ('operands in memory', z3.And(vlen(e.obj('A')) >= e['rowsA'] * e['colsA'], vlen(e.obj('B')) >= e['rowsB'] * e['colsB'], vlen(e.obj('result')) >= n(e)))]
    ens = lambda e: [('entry (q div colsB, q mod colsB) of the product', flat(e.obj('result'), n(e), val(e))), ('nothing written outside the result', rest(e.obj('result'), e.oldobj('result'), n(e)))] + same(e, 'A', 'B')
    lp0 = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['rowsA'])), ('rows done', flat(e.obj('result'), e['i'] * e['colsB'], val(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), n(e)))],
               lambda e: e['rowsA'] - e['i'])
    lp1 = Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= e['colsB'])), ('row of the result inside', z3.And(ia(e) >= 0, ia(e) + e['colsA'] <= e['rowsA'] * e['colsA'], e['i'] * e['colsB'] >= 0, e['i'] * e['colsB'] + e['colsB'] <= n(e))),
                          ('entries done', flat(e.obj('result'), e['i'] * e['colsB'] + e['j'], val(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), n(e)))],
               lambda e: e['colsB'] - e['j'], pre_hints=lambda e: [rowfit.inst(e['i'], e['rowsA'], e['colsA']), rowfit.inst(e['i'], e['rowsA'], e['colsB'])],
               hints=lambda e: [divuniq.inst(e['i'], e['colsB'], e.head_val('j'))])
    if transposed:
        fit = lambda e: z3.And(e['j'] * e['rowsB'] >= 0, e['j'] * e['rowsB'] + e['rowsB'] <= e['rowsB'] * e['colsB'])
        ph = lambda e: [rowfit.inst(e['j'], e['colsB'], e['rowsB'])]
    else:
        fit = lambda e: z3.And(e['k'] * e['colsB'] >= 0, z3.Implies(e['k'] < e['rowsB'], e['k'] * e['colsB'] + e['colsB'] <= e['rowsB'] * e['colsB']))
        ph = lambda e: [rowfit.inst(e['k'], e['rowsB'], e['colsB']), GDOT_.base_ax()]
    lp2 = Loop(lambda e: [('counter', z3.And(0 <= e['k'], e['k'] <= e['rowsB'])), ('operand inside', fit(e)), ('partial sum', e['acc'] == GDOT(D(e.obj('A')), D(e.obj('B')), ia(e), ob1(e), sb(e), e['k']))],
               lambda e: e['rowsB'] - e['k'], pre_hints=ph, hints=lambda e: ph(e) + [GDOT_.at_pos(D(e.obj('A')), D(e.obj('B')), ia(e), ob1(e), sb(e), e['k'])])
    return Contract(src, name, ['=mpz_t *', '=mpz_t *', 'i64', 'i64', '=mpz_t *', 'i64', 'i64'], req, ens, {0: lp0, 1: lp1, 2: lp2}, modifies=['result'], overflow=True,
                    label=f'{src}:{name}(mpz matrices)', axioms=lambda g: [GDOT_.base_ax(), posmul.forall(pats=lambda r, c: [r * c])], timeout=20)


def contracts():
    out = [matmul('matrix/mul.cc', 'mul', False), matmul('matrix/mul_tranpose.cc', 'mul_transpose', True)]
    M = 'matrix/mul.cc'
    # result = a * A
    n = lambda e: e['rowsA'] * e['colsA']
    val = lambda e: (lambda q: sel(D(e.obj('a')), 0) * sel(D(e.obj('A')), q))
    out.append(Contract(M, 'mul', ['=mpz_t *', '=__mpz_struct *', '=mpz_t *', 'i64', 'i64'],
                        lambda e: [('shapes', z3.And(e['rowsA'] >= 0, e['colsA'] >= 0)), ('operands in memory', z3.And(vlen(e.obj('a')) >= 1, vlen(e.obj('A')) >= n(e), vlen(e.obj('result')) >= n(e)))],
                        lambda e: [('every entry multiplied', flat(e.obj('result'), n(e), val(e))), ('nothing written outside', rest(e.obj('result'), e.oldobj('result'), n(e)))] + same(e, 'a', 'A'),
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['rowsA'])), ('rows done', flat(e.obj('result'), e['i'] * e['colsA'], val(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), n(e)))], lambda e: e['rowsA'] - e['i']),
                         1: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= e['colsA'])), ('row inside', z3.And(e['i'] * e['colsA'] >= 0, e['i'] * e['colsA'] + e['colsA'] <= n(e))),
                                            ('entries done', flat(e.obj('result'), e['i'] * e['colsA'] + e['j'], val(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), n(e)))],
                                 lambda e: e['colsA'] - e['j'], pre_hints=lambda e: [rowfit.inst(e['i'], e['rowsA'], e['colsA'])])},
                        modifies=['result'], overflow=True, label=M + ':mul(scalar, mpz matrix)', axioms=lambda g: [posmul.forall(pats=lambda r, c: [r * c])], timeout=20))
    # result = A * v
    val2 = lambda e: (lambda q: GDOT(D(e.obj('A')), D(e.obj('v')), q * e['colsA'], z3.IntVal(0), z3.IntVal(1), e['colsA']))
    out.append(Contract(M, 'mul', ['=mpz_t *', '=mpz_t *', 'i64', 'i64', '=mpz_t *', 'i64'],
                        lambda e: [('shapes', z3.And(e['rowsA'] >= 0, e['colsA'] >= 0, e['v_size'] == e['colsA'])),
                                   ('operands in memory', z3.And(vlen(e.obj('v')) >= e['v_size'], vlen(e.obj('A')) >= n(e), vlen(e.obj('result')) >= e['rowsA']))],
                        lambda e: [('entry q is <row q, v>', flat(e.obj('result'), e['rowsA'], val2(e))), ('nothing written outside', rest(e.obj('result'), e.oldobj('result'), e['rowsA']))] + same(e, 'v', 'A'),
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['rowsA'])), ('rows done', flat(e.obj('result'), e['i'], val2(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), e['rowsA']))], lambda e: e['rowsA'] - e['i']),
                         1: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= e['colsA'])), ('row inside', z3.And(e['i'] * e['colsA'] >= 0, e['i'] * e['colsA'] + e['colsA'] <= n(e))),
                                            ('partial sum', e['acc'] == GDOT(D(e.obj('A')), D(e.obj('v')), e['i'] * e['colsA'], z3.IntVal(0), z3.IntVal(1), e['j']))],
                                 lambda e: e['colsA'] - e['j'], pre_hints=lambda e: [rowfit.inst(e['i'], e['rowsA'], e['colsA'])],
                                 hints=lambda e: [GDOT_.at_pos(D(e.obj('A')), D(e.obj('v')), e['i'] * e['colsA'], z3.IntVal(0), z3.IntVal(1), e['j'])])},
                        modifies=['result'], overflow=True, label=M + ':mul(mpz matrix, vector)', axioms=lambda g: [GDOT_.base_ax(), posmul.forall(pats=lambda r, c: [r * c])], timeout=20))
    # result = a * v, result = a + b
    for nm, ps, arr, ln, f, lab in (('mul', ['=mpz_t *', '=__mpz_struct *', '=mpz_t *', 'i64'], ['a', 'v'], 'v_length', lambda e, q: sel(D(e.oldobj('a')), 0) * sel(D(e.oldobj('v')), q), 'mul(scalar, mpz vector)'),
                                    ('mul', ['=mpz_t *', '=mpz_t *', 'i64', '=mpz_t *', 'i64'], ['a', 'b'], 'a_length', lambda e, q: sel(D(e.oldobj('a')), q) + sel(D(e.oldobj('b')), q), 'mul(sum of mpz vectors)')):
        for al in ([None] if ps[1] != '=mpz_t *' else [None, 'a']):
            def mk_(arr=arr, ln=ln, f=f, lab=lab, al=al):
                sz = lambda e: [vlen(e.obj(x)) >= (e[ln] if x != 'a' or ln != 'v_length' else 1) for x in arr + ['result']]
                extra = lambda e: [e['b_length'] == e['a_length']] if ln == 'a_length' else []
                inv = lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e[ln])), ('entries done', flat(e.obj('result'), e['i'], lambda q: f(e, q))), ('rest', rest(e.obj('result'), e.oldobj('result'), e['i']))]
                return Contract(M, nm, ps, lambda e: [('shapes', z3.And(e[ln] >= 0, *extra(e))), ('operands in memory', z3.And(*sz(e)))],
                                lambda e: [('entrywise', flat(e.obj('result'), e[ln], lambda q: f(e, q))), ('nothing written outside', rest(e.obj('result'), e.oldobj('result'), e[ln]))] + ([] if al else same(e, *arr)),
                                {0: Loop(inv, lambda e: e[ln] - e['i'])}, modifies=['result'] + ([al] if al else []), overflow=True, label=f'{M}:{lab}' + (f' with result = {al}' if al else ''), alias={al: 'result'} if al else {})
            out.append(mk_())
    # <u, v>
    out.append(Contract(M, 'mul', ['=mpz_t &', '=mpz_t *', 'i64', '=mpz_t *', 'i64'],
                        lambda e: [('shapes', z3.And(e['u_length'] >= 0, e['u_length'] == e['v_length'])), ('operands in memory', z3.And(vlen(e.obj('u')) >= e['u_length'], vlen(e.obj('v')) >= e['u_length']))],
                        lambda e: [('inner product', e['result'] == DOT(D(e.obj('u')), D(e.obj('v')), e['u_length']))] + same(e, 'u', 'v'),
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['u_length'])), ('partial sum', e['result'] == DOT(D(e.obj('u')), D(e.obj('v')), e['i']))], lambda e: e['u_length'] - e['i'],
                                 hints=lambda e: [DOT.at_pos(D(e.obj('u')), D(e.obj('v')), e['i'])])},
                        modifies=['result'], overflow=True, label=M + ':mul(inner product of mpz vectors)', axioms=lambda g: [DOT.base_ax()]))
    return out + matrices() + nmods() + convs()


def cells(R, cond, val):
    i, j = fv('i'), fv('j')
    x = mat_at(R, i, j)
    return z3.ForAll([i, j], z3.Implies(cond(i, j), x == val(i, j)), patterns=[x])


def row(M, i):
    return sel(acc('dat', M), i)


NR, NC = (lambda m: acc('nr', m)), (lambda m: acc('nc', m))
MT = '#include "matrix.h"\n#include <NTL/mat_ZZ.h>\n#include <NTL/ZZ.h>\ntemplate void mul_transpose<NTL::ZZ>(NTL::Mat<NTL::ZZ>&, const NTL::Mat<NTL::ZZ>&, const NTL::Mat<NTL::ZZ>&);\ntemplate void transpose_mul_transpose<NTL::ZZ>(NTL::Mat<NTL::ZZ>&, const NTL::Mat<NTL::ZZ>&, const NTL::Mat<NTL::ZZ>&);\n'


def from_(v, q):
    return v


def mulT(src, name, el, text=None):
    flip = name.startswith('transpose_')
    modp = (lambda x: x % MODULUS) if el == 'ZZ_p' else (lambda x: x)
    val = lambda e: (lambda i, j: modp(DOT(row(e['A'], j if flip else i), row(e['B'], i if flip else j), NC(e['A']))))
    full = lambda e, i, j: z3.And(0 <= i, i < (NR(e['B']) if flip else NR(e['A'])), 0 <= j, j < (NR(e['A']) if flip else NR(e['B'])))
    shape = lambda e: z3.And(NR(e['result']) == (NR(e['B']) if flip else NR(e['A'])), NC(e['result']) == (NR(e['A']) if flip else NR(e['B'])))
    o, n, no, nn = ('j', 'i', (lambda e: NR(e['B'])), (lambda e: NR(e['A']))) if flip else ('i', 'j', (lambda e: NR(e['A'])), (lambda e: NR(e['B'])))
    part = lambda e: modp(e['acc']) if False else e['acc']
    lp0 = Loop(lambda e: [('counter', z3.And(1 <= e[o], e[o] <= no(e) + 1)), ('shape', shape(e)), ('rows done', cells(e['result'], lambda i, j: z3.And(full(e, i, j), i < e[o] - 1), val(e)))], lambda e: no(e) + 1 - e[o])
    lp1 = Loop(lambda e: [('counter', z3.And(1 <= e[n], e[n] <= nn(e) + 1)), ('shape', shape(e)), ('entries done', cells(e['result'], lambda i, j: z3.And(full(e, i, j), z3.Or(i < e[o] - 1, z3.And(i == e[o] - 1, j < e[n] - 1))), val(e)))], lambda e: nn(e) + 1 - e[n])
    lp2 = Loop(lambda e: [('counter', z3.And(1 <= e['k'], e['k'] <= NC(e['B']) + 1)), ('partial sum', e['acc'] == DOT(row(e['A'], e['i'] - 1), row(e['B'], e['j'] - 1), e['k'] - 1))], lambda e: NC(e['B']) + 1 - e['k'],
               hints=lambda e: [DOT.at_pos(row(e['A'], e['i'] - 1), row(e['B'], e['j'] - 1), e['k'] - 1)])
    return Contract(src, name, [f'mat<{el}>'] * 3, lambda e: [('compatible shapes', NC(e['A']) == NC(e['B']))] + ([('modulus', MODULUS >= 2)] if el == 'ZZ_p' else []),
                    lambda e: [('shape of the result', shape(e)), ('every entry is the inner product of the rows', cells(e['result'], lambda i, j: full(e, i, j), val(e)))],
                    {0: lp0, 1: lp1, 2: lp2}, modifies=['result'], overflow=True, text=text, label=f'{src or "matrix.h"}:{name}<{el}>', axioms=lambda g: [DOT.base_ax()], timeout=20, flags={'residue': True})


def matrices():
    out = [mulT('matrix/mul_tranpose.cc', 'mul_transpose', 'ZZ_p'), mulT('matrix/transpose_mul_tranpose.cc', 'transpose_mul_transpose', 'ZZ_p'),
           mulT(None, 'mul_transpose', 'ZZ', MT), mulT(None, 'transpose_mul_transpose', 'ZZ', MT)]
    out.append(Contract('matrix/trace.cc', 'trace', ['mat<ZZ>'], lambda e: [('square', NR(e['M']) == NC(e['M']))],
                        lambda e: [('sum of the diagonal', e.result == TRACE(acc('dat', e['M']), NR(e['M'])))],
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e['M']))), ('partial sum', e['result'] == TRACE(acc('dat', e['M']), e['i']))], lambda e: NR(e['M']) - e['i'],
                                 hints=lambda e: [TRACE_.at_pos(acc('dat', e['M']), e['i'])])}, overflow=True, label='matrix/trace.cc:trace', axioms=lambda g: [TRACE_.base_ax()]))
    # FLINT
    M = 'matrix/mul.cc'
    val = lambda e: (lambda q: DOT(row(e.obj('A'), q), D(e.obj('v')), NC(e.obj('A'))))
    out.append(Contract(M, 'mul', ['=fmpz *', '=const fmpz_mat_struct *', '=const fmpz *'],
                        lambda e: [('operands in memory', z3.And(vlen(e.obj('result')) >= NR(e.obj('A')), vlen(e.obj('v')) >= NC(e.obj('A'))))],
                        lambda e: [('entry q is <row q, v>', flat(e.obj('result'), NR(e.obj('A')), val(e))), ('nothing written outside', rest(e.obj('result'), e.oldobj('result'), NR(e.obj('A'))))] + same(e, 'A', 'v'),
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e.obj('A')))), ('rows done', flat(e.obj('result'), e['i'], val(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), e['i']))], lambda e: NR(e.obj('A')) - e['i'],
                                 hints=lambda e: [DOT.unfold(row(e.obj('A'), e.head_val('i')), D(e.obj('v')), z3.IntVal(0))]),
                         1: Loop(lambda e: [('counter', z3.And(1 <= e['j'], e['j'] <= NC(e.obj('A')))), ('partial sum', sel(D(e.obj('result')), e['i']) == DOT(row(e.obj('A'), e['i']), D(e.obj('v')), e['j'])),
                                            ('others kept', z3.And(vlen(e.obj('result')) == vlen(e.preobj('result')), forall_other(e.obj('result'), e.preobj('result'), e['i'])))], lambda e: NC(e.obj('A')) - e['j'],
                                 pre_hints=lambda e: [DOT.at_pos(row(e.obj('A'), e['i']), D(e.obj('v')), z3.IntVal(1))],
                                 hints=lambda e: [DOT.at_pos(row(e.obj('A'), e['i']), D(e.obj('v')), e['j'])])},
                        modifies=['result'], overflow=True, label=M + ':mul(fmpz matrix, vector)', axioms=lambda g: [DOT.base_ax()], timeout=20))
    out.append(Contract(M, 'mul', ['=fmpz *', '=const fmpz *', '=const fmpz *', 'i64'],
                        lambda e: [('operands in memory', z3.And(e['len'] >= 0, vlen(e.obj('result')) >= 1, vlen(e.obj('v')) >= e['len'], vlen(e.obj('w')) >= e['len']))],
                        lambda e: [('inner product', sel(D(e.obj('result')), 0) == DOT(D(e.obj('v')), D(e.obj('w')), e['len'])), ('nothing written outside', rest(e.obj('result'), e.oldobj('result'), 1))] + same(e, 'v', 'w'),
                        {0: Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= e['len'])), ('partial sum', sel(D(e.obj('result')), 0) == DOT(D(e.obj('v')), D(e.obj('w')), e['i'])),
                                            ('others kept', rest(e.obj('result'), e.oldobj('result'), 1))], lambda e: e['len'] - e['i'],
                                 pre_hints=lambda e: [DOT.at_pos(D(e.obj('v')), D(e.obj('w')), z3.IntVal(1))],
                                 hints=lambda e: [DOT.at_pos(D(e.obj('v')), D(e.obj('w')), e['i'])])},
                        modifies=['result'], overflow=True, label=M + ':mul(inner product of fmpz vectors)', axioms=lambda g: [DOT.base_ax()], timeout=20))
    return out


TV = '#include "matrix.h"\n#include "conv.h"\n#include <NTL/lzz_p.h>\n#include <NTL/mat_lzz_p.h>\n' + ''.join(
    f'template void conv(fmpz_mat_t, const NTL::Mat<{t}>&);\ntemplate void conv(fmpz*, const NTL::Vec<{t}>&);\ntemplate void conv(NTL::Mat<{t}>&, const fmpz_mat_t);\ntemplate void conv(NTL::Vec<{t}>&, const fmpz*, int64_t);\n' for t in ('NTL::ZZ', 'NTL::ZZ_p')) + ''.join(
    f'template void conv(nmod_mat_t, const NTL::Mat<{t}>&);\ntemplate void conv(NTL::Mat<{t}>&, const nmod_mat_t);\n' for t in ('NTL::ZZ_p', 'NTL::zz_p'))


def red(M, m):
    i, j = fv('i'), fv('j')
    x = mat_at(M, i, j)
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < NR(M), 0 <= j, j < NC(M)), z3.And(0 <= x, x < m)), patterns=[x])


def redv(v, n, m):
    return forall_range(0, n, lambda i: z3.And(0 <= sel(D(v), i), sel(D(v), i) < m), pats=lambda i: [sel(D(v), i)])


modshift = Lemma('multiples of the modulus do not matter', I('r', 'q', 'm'), lambda r, q, m: z3.Implies(m > 0, (r + q * m) % m == r % m),
                 facts=lambda r, q, m: [divuniq.inst(q + r / m, m, r % m), distr.inst(q, r / m, m)])
distr = Lemma('distributivity', I('a', 'b', 'c'), lambda a, b, c: (a + b) * c == a * c + b * c)
modadd = Lemma('sums of residues', I('x', 'y', 'm'), lambda x, y, m: z3.Implies(m > 0, (x % m + y % m) % m == (x + y) % m),
               facts=lambda x, y, m: [modshift.inst(x % m + y % m, x / m + y / m, m), distr.inst(x / m, y / m, m)])


def nmods():
    out = []
    mod = lambda e: e['mod']
    out.append(Contract(None, 'nmod_vec_dot_compat', ['ptr<u64>', 'ptr<u64>', 'i64', 'nmod_t', 'i32'],
                        lambda e: [('modulus', z3.And(mod(e) >= 1, mod(e) < (1 << 64))), ('operands in memory', z3.And(e['len'] >= 0, vlen(e.obj('v1')) >= e['len'], vlen(e.obj('v2')) >= e['len'])),
                                   ('reduced', z3.And(redv(e.obj('v1'), e['len'], mod(e)), redv(e.obj('v2'), e['len'], mod(e))))],
                        lambda e: [('inner product modulo n', e.result == DOT(D(e.obj('v1')), D(e.obj('v2')), e['len']) % mod(e))],
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['len'])), ('partial sum', e['acc'] == DOT(D(e.obj('v1')), D(e.obj('v2')), e['i']) % mod(e))], lambda e: e['len'] - e['i'],
                                 hints=lambda e: [DOT.at_pos(D(e.obj('v1')), D(e.obj('v2')), e['i']), modadd.inst(DOT(D(e.obj('v1')), D(e.obj('v2')), e.head_val('i')), sel(D(e.obj('v1')), e.head_val('i')) * sel(D(e.obj('v2')), e.head_val('i')), mod(e))])},
                        overflow=True, text=TV, label='matrix.h:nmod_vec_dot_compat', axioms=lambda g: [DOT.base_ax()], timeout=20))
    nm = lambda e, x: acc('mod', e.obj(x))
    val = lambda e: (lambda q: DOT(row(e.obj('A'), q), D(e.obj('v')), NC(e.obj('A'))) % nm(e, 'A'))
    out.append(Contract(None, 'mul', ['ptr<u64>', 'ptr<nmod_mat>', 'ptr<u64>', 'i32'],
                        lambda e: [('operands in memory', z3.And(vlen(e.obj('result')) >= NR(e.obj('A')), vlen(e.obj('v')) >= NC(e.obj('A')))), ('reduced', z3.And(red(e.obj('A'), nm(e, 'A')), redv(e.obj('v'), NC(e.obj('A')), nm(e, 'A'))))],
                        lambda e: [('entry q is <row q, v> modulo n', flat(e.obj('result'), NR(e.obj('A')), val(e))), ('nothing written outside', rest(e.obj('result'), e.oldobj('result'), NR(e.obj('A'))))] + same(e, 'A', 'v'),
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e.obj('A')))), ('rows done', flat(e.obj('result'), e['i'], val(e))), ('rest', rest(e.obj('result'), e.oldobj('result'), e['i']))], lambda e: NR(e.obj('A')) - e['i'])},
                        modifies=['result'], overflow=True, text=TV, label='matrix.h:mul(nmod matrix, vector)', timeout=20))
    sub = lambda e: (lambda i, j: (mat_at(e.oldobj('A'), i, j) - mat_at(e.oldobj('B'), i, j)) % nm(e, 'C'))
    inn = lambda e, i, j: z3.And(0 <= i, i < NR(e.obj('C')), 0 <= j, j < NC(e.obj('C')))
    for al in (None, 'A'):
        shp = lambda e: z3.And(*[f(e.obj('C')) == f(e.oldobj('C')) for f in (NR, NC, lambda m: acc('mod', m))])
        out.append(Contract(None, 'nmod_mat_sub', ['ptr<nmod_mat>'] * 3,
                            lambda e: [('same shapes', z3.And(*[f(e.obj(x)) == f(e.obj('C')) for x in 'AB' for f in (NR, NC)])), ('same modulus', z3.And(nm(e, 'A') == nm(e, 'C'), nm(e, 'B') == nm(e, 'C')))],
                            lambda e: [('entrywise difference modulo n', cells(e.obj('C'), lambda i, j: inn(e, i, j), sub(e))), ('shape kept', shp(e))] + same(e, *(['B'] if al else ['A', 'B'])),
                            {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e.obj('C')))), ('shape', shp(e)), ('rows done', cells(e.obj('C'), lambda i, j: z3.And(inn(e, i, j), i < e['i']), sub(e))),
                                                ('rows to do', cells(e.obj('C'), lambda i, j: i >= e['i'], lambda i, j: mat_at(e.oldobj('C'), i, j)))],
                                     lambda e: NR(e.obj('C')) - e['i'])},
                            modifies=['C'] + ([al] if al else []), alias={al: 'C'} if al else {}, overflow=True, text=TV, label='matrix.h:nmod_mat_sub' + (' in place' if al else ''), timeout=20))
    return out


def inM(M, i, j):
    return z3.And(0 <= i, i < NR(M), 0 <= j, j < NC(M))


def mk_conv(key, other, f, req, label, to):
    """element by element conversion between Mat<key> and a FLINT matrix"""
    d, s = ((lambda e: e.obj('A')), (lambda e: e['B'])) if to else ((lambda e: e['A']), (lambda e: e.obj('B')))
    if to:
        shp = lambda e: ('shape kept', z3.And(NR(d(e)) == NR(e.oldobj('A')), NC(d(e)) == NC(e.oldobj('A')), *([acc('mod', d(e)) == acc('mod', e.oldobj('A'))] if other == 'nmod_mat' else [])))
        pre = lambda e: req + [('same shape', z3.And(NR(d(e)) == NR(s(e)), NC(d(e)) == NC(s(e))))]
        ps = [f'ptr<{other}>', f'mat<{key}>']
    else:
        shp = lambda e: ('shape', z3.And(NR(d(e)) == NR(s(e)), NC(d(e)) == NC(s(e))))
        pre = lambda e: req
        ps = [f'mat<{key}>', f'ptr<{other}>']
    body = lambda e, ii, jj: cells(d(e), lambda i, j: z3.And(inM(s(e), i, j), z3.Or(i < ii, z3.And(i == ii, j < jj))), lambda i, j: f(e, mat_at(s(e), i, j)))
    return Contract(None, 'conv', ps, pre, lambda e: [shp(e), ('every entry', body(e, NR(s(e)), z3.IntVal(0)))] + ([] if to else same(e, 'B')),
                    {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(s(e)))), shp(e), ('rows done', body(e, e['i'], z3.IntVal(0)))], lambda e: NR(s(e)) - e['i']),
                     1: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= NC(s(e)))), shp(e), ('entries done', body(e, e['i'], e['j']))], lambda e: NC(s(e)) - e['j'])},
                    modifies=['A'], overflow=True, text=TV, label=label, flags={'residue': True}, timeout=20)


def convs():
    S = 'conv/conv.cc'
    out = []
    one = lambda e, x: ('cell in memory', vlen(e.obj(x)) >= 1)
    tail1 = lambda e, x: ('nothing else written', rest(e.obj(x), e.oldobj(x), 1))
    for ptr, nm in (('__mpz_struct', 'mpz'), ('fmpz', 'fmpz')):
        out.append(Contract(S, 'conv', [f'={ptr} *', 'ZZ'], lambda e: [one(e, 'a')], lambda e: [('the same integer', sel(D(e.obj('a')), 0) == e['b']), tail1(e, 'a')], modifies=['a'], overflow=True, label=f'{S}:conv({nm}, ZZ)'))
        out.append(Contract(S, 'conv', ['ZZ', f'={ptr} *'], lambda e: [one(e, 'b')], lambda e: [('the same integer', e['a'] == sel(D(e.obj('b')), 0))] + same(e, 'b'), modifies=['a'], overflow=True, label=f'{S}:conv(ZZ, {nm})'))
    n = lambda e: NR(e['B']) * NC(e['B'])
    val = lambda e: (lambda q: mat_at(e['B'], q / NC(e['B']), q % NC(e['B'])))
    out.append(Contract(S, 'conv', ['=mpz_t *', 'mat<ZZ>'], lambda e: [('array large enough', vlen(e.obj('A')) >= n(e))],
                        lambda e: [('row-major copy', flat(e.obj('A'), n(e), val(e))), ('nothing written outside', rest(e.obj('A'), e.oldobj('A'), n(e)))],
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= NR(e['B']))), ('rows done', flat(e.obj('A'), e['i'] * NC(e['B']), val(e))), ('rest', rest(e.obj('A'), e.oldobj('A'), n(e)))], lambda e: NR(e['B']) - e['i']),
                         1: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= NC(e['B']))), ('row inside', z3.And(e['i'] * NC(e['B']) >= 0, e['i'] * NC(e['B']) + NC(e['B']) <= n(e))),
                                            ('entries done', flat(e.obj('A'), e['i'] * NC(e['B']) + e['j'], val(e))), ('rest', rest(e.obj('A'), e.oldobj('A'), n(e)))], lambda e: NC(e['B']) - e['j'],
                                 pre_hints=lambda e: [rowfit.inst(e['i'], NR(e['B']), NC(e['B']))], hints=lambda e: [divuniq.inst(e['i'], NC(e['B']), e.head_val('j'))])},
                        modifies=['A'], overflow=True, label=S + ':conv(mpz array, matrix)', axioms=lambda g: [posmul.forall(pats=lambda r, c: [r * c])], timeout=20))
    cp = lambda e: (lambda i, j: sel(D(e.obj('B')), i * e['colsB'] + j))
    shp = lambda e: ('shape', z3.And(NR(e['A']) == e['rowsB'], NC(e['A']) == e['colsB']))
    out.append(Contract(S, 'conv', ['mat<ZZ>', '=mpz_t *', 'i64', 'i64'], lambda e: [('array large enough', z3.And(e['rowsB'] >= 0, e['colsB'] >= 0, vlen(e.obj('B')) >= e['rowsB'] * e['colsB']))],
                        lambda e: [shp(e), ('row-major copy', cells(e['A'], lambda i, j: z3.And(0 <= i, i < e['rowsB'], 0 <= j, j < e['colsB']), cp(e)))] + same(e, 'B'),
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['rowsB'])), shp(e), ('rows done', cells(e['A'], lambda i, j: z3.And(0 <= i, i < e['i'], 0 <= j, j < e['colsB']), cp(e)))], lambda e: e['rowsB'] - e['i']),
                         1: Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= e['colsB'])), shp(e), ('row inside', z3.And(e['i'] * e['colsB'] >= 0, e['i'] * e['colsB'] + e['colsB'] <= e['rowsB'] * e['colsB'])),
                                            ('entries done', cells(e['A'], lambda i, j: z3.And(0 <= i, 0 <= j, j < e['colsB'], z3.Or(i < e['i'], z3.And(i == e['i'], j < e['j']))), cp(e)))], lambda e: e['colsB'] - e['j'],
                                 pre_hints=lambda e: [rowfit.inst(e['i'], e['rowsB'], e['colsB'])])},
                        modifies=['A'], overflow=True, label=S + ':conv(matrix, mpz array)', axioms=lambda g: [posmul.forall(pats=lambda r, c: [r * c])], timeout=20))
    fl = {'residue': True}
    for t in ('ZZ', 'ZZ_p'):
        m = (lambda x: x % MODULUS) if t == 'ZZ_p' else (lambda x: x)
        req = [('modulus', MODULUS >= 2)] if t == 'ZZ_p' else []
        out.append(mk_conv(t, 'fmpz_mat', lambda e, x: x, [], f'conv.h:conv(fmpz_mat, Mat<{t}>)', True))
        out.append(mk_conv(t, 'fmpz_mat', lambda e, x, m=m: m(x), req, f'conv.h:conv(Mat<{t}>, fmpz_mat)', False))
        k = t if t == 'ZZ_p' else 'zz_p'
        out.append(mk_conv(k, 'nmod_mat', lambda e, x: x % acc('mod', e.obj('A')), [], f'conv.h:conv(nmod_mat, Mat<{k}>)', True))
        out.append(mk_conv(k, 'nmod_mat', lambda e, x: x % MODULUS, [('modulus', MODULUS >= 2)], f'conv.h:conv(Mat<{k}>, nmod_mat)', False))
        out.append(Contract(None, 'conv', ['=fmpz *', f'vec<{t}>'], lambda e: [('array large enough', vlen(e.obj('a')) >= vlen(e['b']))],
                            lambda e: [('every entry', flat(e.obj('a'), vlen(e['b']), lambda q: at(e['b'], q))), ('nothing written outside', rest(e.obj('a'), e.oldobj('a'), vlen(e['b'])))],
                            {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['b']))), ('entries done', flat(e.obj('a'), e['i'], lambda q: at(e['b'], q))), ('rest', rest(e.obj('a'), e.oldobj('a'), e['i']))], lambda e: vlen(e['b']) - e['i'])},
                            modifies=['a'], overflow=True, text=TV, label=f'conv.h:conv(fmpz array, Vec<{t}>)', flags=fl))
        out.append(Contract(None, 'conv', [f'vec<{t}>', '=fmpz *', 'i64'], lambda e, req=req: req + [('array large enough', z3.And(e['len'] >= 0, vlen(e.obj('b')) >= e['len']))],
                            lambda e, m=m: [('length', vlen(e['a']) == e['len']), ('every entry', flat(e['a'], e['len'], lambda q: m(sel(D(e.obj('b')), q))))] + same(e, 'b'),
                            {0: Loop(lambda e, m=m: [('counter', z3.And(0 <= e['i'], e['i'] <= e['len'])), ('length', vlen(e['a']) == e['len']), ('entries done', flat(e['a'], e['i'], lambda q: m(sel(D(e.obj('b')), q))))], lambda e: e['len'] - e['i'])},
                            modifies=['a'], overflow=True, text=TV, label=f'conv.h:conv(Vec<{t}>, fmpz array)', flags=fl))
    return out


def forall_other(R, R0, i):
    q = fv('q')
    return z3.ForAll([q], z3.Implies(q != i, sel(D(R), q) == sel(D(R0), q)), patterns=[sel(D(R), q)])


TRACE_ = RecDef('trace_sum', [ARR2], INT, lambda m: z3.IntVal(0), lambda m, k, p: p + z3.Select(z3.Select(m, k), k))
TRACE = TRACE_.fn


def lemmas():
    return [rowfit, posmul, divuniq, distr, modshift, modadd]
