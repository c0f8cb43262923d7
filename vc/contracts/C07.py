"""charpoly: Newton's identities over the integers."""
from ..engine import *
from ..spec import *
from .math import *
from ..builtins import MM
from . import C06
from .C06 import TRACE, NR, NC, D

# powers of a square matrix of size n: MPOW(M, n, k) = M^(k+1)
MPOW_ = RecDef('matrix_power', [ARR2, INT], ARR2, lambda m, n: m, lambda m, n, k, p: MM(p, m, n))
MPOW = MPOW_.fn
# coefficient of the characteristic polynomial: det(T - M) = sum_k (-1)^k E(M, n, k) T^(n-k)
ECH = z3.Function('charpoly_elementary', ARR2, INT, INT, INT)


def PS(m, n, i):
    """trace of the i-th power, i >= 1"""
    return TRACE(MPOW(m, n, i - 1), n)


SODD_ = RecDef('newton_odd', [ARR2, INT, INT], INT, lambda m, n, k: z3.IntVal(0), lambda m, n, k, t, s: s + ECH(m, n, k - 1 - 2 * t) * PS(m, n, 1 + 2 * t))
SEVEN_ = RecDef('newton_even', [ARR2, INT, INT], INT, lambda m, n, k: z3.IntVal(0), lambda m, n, k, t, s: s + ECH(m, n, k - 2 - 2 * t) * PS(m, n, 2 + 2 * t))


def newton(m, n, k):
    """Newton's identity for the k-th coefficient (a theorem of linear algebra, checked in Lean: lean/Newton.lean)"""
    return z3.Implies(z3.And(1 <= k, k <= n), k * ECH(m, n, k) == SODD_.fn(m, n, k, (k + 1) / 2) - SEVEN_.fn(m, n, k, k / 2))


def theorems():
    return ["Newton's identities: k e_k = sum_{i=1..k} (-1)^(i-1) e_{k-i} tr(M^i) for the integer coefficients e_k of the characteristic polynomial of M", 'matrix multiplication is associative (M * M^k = M^k * M)']


def contracts():
    M = lambda e: acc('dat', e['M'])
    n = lambda e: NR(e['M'])
    sgn = lambda k, x: z3.If(k % 2 == 0, x, -x)
    e0 = lambda e: ECH(M(e), n(e), 0) == 1
    ps = lambda e, hi: forall_range(1, hi, lambda i: sel(D(e['p']), i) == PS(M(e), n(e), i), pats=lambda i: sel(D(e['p']), i))
    es = lambda e, hi: forall_range(0, hi, lambda i: sel(D(e['e']), i) == ECH(M(e), n(e), i), pats=lambda i: sel(D(e['e']), i))
    rs = lambda e, hi, r=None: forall_range(n(e) + 1 - hi, n(e) + 1, lambda i: sel(D(r if r is not None else e['result']), i) == sgn(n(e) - i, ECH(M(e), n(e), n(e) - i)), pats=lambda i: sel(D(r if r is not None else e['result']), i))
    lens = lambda e: z3.And(*[vlen(e[x]) == n(e) + 1 for x in ('e', 'p', 'result')])
    powers = Loop(lambda e: [('counter', z3.And(2 <= e['i'], z3.Or(e['i'] <= n(e) + 1, n(e) == 1))), ('lengths', lens(e)), ('power', z3.And(acc('dat', e['powerM']) == MPOW(M(e), n(e), e['i'] - 2), NR(e['powerM']) == n(e), NC(e['powerM']) == n(e))),
                             ('power sums', ps(e, e['i']))],
                  lambda e: n(e) + 1 - e['i'], hints=lambda e: [MPOW_.at_pos(M(e), n(e), z3.simplify(e.head_val('i') - 1))], pre_hints=lambda e: [MPOW_.base(M(e), n(e))])
    outer = Loop(lambda e: [('counter', z3.And(1 <= e['k'], e['k'] <= n(e) + 1)), ('lengths', lens(e)), ('coefficients so far', es(e, e['k'])), ('result so far', rs(e, e['k']))],
                 lambda e: n(e) + 1 - e['k'],
                 pre_hints=lambda e: [exact_div.inst(ECH(M(e), n(e), e['k']), e['k'])], hints=lambda e: [exact_div.inst(ECH(M(e), n(e), e.head_val('k')), e.head_val('k'))])

    def inner(start, name, sd):
        t = lambda e: (e['i'] - start) / 2
        return Loop(lambda e: [('counter', z3.And(start <= e['i'], e['i'] <= e['k'] + 2, (e['i'] - start) % 2 == 0)), ('partial sum', e[name] == sd.fn(M(e), n(e), e['k'], t(e)))], lambda e: e['k'] + 2 - e['i'],
                    hints=lambda e: [sd.at_pos(M(e), n(e), e['k'], (e.head_val('i') - start) / 2 + 1)],
                    post=lambda e: [exact_div.inst(ECH(M(e), n(e), e['k']), e['k']), Cut('number of terms', e['i'] == start + 2 * ((e['k'] + 2 - start) / 2))])
    main = Contract('matrix/charpoly.cc', 'charpoly', ['mat<ZZ>'], lambda e: [('square, at least 1 x 1', z3.And(NR(e['M']) == NC(e['M']), n(e) >= 1, n(e) < (1 << 31)))],
                    lambda e: [('length', vlen(e.result) == n(e) + 1), ('coefficients, constant term first', rs(e, n(e) + 1, e.result))],
                    {0: powers, 1: outer, 2: inner(1, 'sump', SODD_), 3: inner(2, 'sumn', SEVEN_)}, overflow=True, label='matrix/charpoly.cc:charpoly',
                    axioms=lambda g: [SODD_.base_ax(), SEVEN_.base_ax(), MPOW_.base_ax(), newton_ax(g)], timeout=20)
    return [main] + [c for c in C06.contracts() if c.name == 'trace']


def newton_ax(g):
    m, n, k = fv('m', ARR2), fv('n'), fv('k')
    return Fact(z3.And(z3.ForAll([m, n], ECH(m, n, 0) == 1, patterns=[ECH(m, n, 0)]), z3.ForAll([m, n, k], newton(m, n, k), patterns=[SODD_.fn(m, n, k, (k + 1) / 2)]),
                       z3.ForAll([m, n, k], z3.Implies(k >= 0, MM(m, MPOW(m, n, k), n) == MPOW(m, n, k + 1)), patterns=[MM(m, MPOW(m, n, k), n)])), "Newton's identities")


def lemmas():
    return [exact_div]
