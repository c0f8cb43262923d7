"""charpoly_frob: the integer polynomial with the given residues, functional equation and root bound."""
from ..engine import *
from ..spec import *
from .math import *
from .math import I
from . import C06, C07
from .C06 import NR, NC, D
from .C07 import ECH
from .expand import pow_add

# the polynomial to be recovered: coefficient of T^j, degree N, weight W, prime PR, sign SG; power sums of its roots;
# precision of its coefficients as supplied and after the functional equation
P = z3.Const('weil_coefficients', ARR)
S = z3.Function('power_sum_of_roots', INT, INT)
N, W, PR, SG, J0 = z3.Ints('weil_degree weil_weight weil_prime weil_sign telling_index')
PREC = z3.Const('supplied_precision', ARR)
PRF = z3.Function('completed_precision', INT, INT)
CG = z3.Function('congruent', INT, INT, INT, BOOL)      # CG(m, a, b): m divides a - b
DVD = z3.Function('divides', INT, INT, BOOL)

sgn = lambda k, x: z3.If(k % 2 == 0, x, -x)
E = lambda j: ((N - 2 * j) * W) / 2
PP = lambda j: PREC[N - j] + E(j)
MINP = lambda j: z3.If(PREC[j] <= PP(j), PREC[j], PP(j))
EL = lambda k: sgn(k, P[N - k])                         # elementary symmetric function of the roots
NS_ = RecDef('newton_partial', [INT], INT, lambda k: z3.IntVal(0), lambda k, t, r: r + z3.If((t + 1) % 2 == 1, EL(k - 1 - t) * S(t + 1), -(EL(k - 1 - t) * S(t + 1))))
NS = NS_.fn


def cg_def(m, a, b):
    return Fact(CG(m, a, b) == ((a - b) % m == 0), 'definition of congruence')


def dvd_def(m, a):
    return Fact(DVD(m, a) == (a % m == 0), 'definition of divisibility')


quot = Lemma('quotient and remainder', I('a', 'm', 'q', 'r'), lambda a, m, q, r: z3.Implies(z3.And(m > 0, a == m * q + r, 0 <= r, r < m), z3.And(a % m == r, a / m == q)))
multiple = Lemma('multiples', I('a', 'm', 'q'), lambda a, m, q: z3.Implies(z3.And(m > 0, a == m * q), z3.And(a % m == 0, a / m == q)), facts=lambda a, m, q: [quot.inst(a, m, q, z3.IntVal(0))])
ring = Lemma('products with a common factor', I('a', 'b', 'm', 'q', 't'), lambda a, b, m, q, t: z3.And(m * (q * t) == (m * q) * t, (m * t) * q == (m * q) * t, m * (t * q) == (m * q) * t, (a - b) * t == a * t - b * t, t * (a - b) == a * t - b * t, m * (-q) == -(m * q), m * (a - b) == m * a - m * b, m * (a + b) == m * a + m * b))
cg_red = Lemma('reduction keeps the class', I('m', 'a', 'b'), lambda m, a, b: z3.Implies(z3.And(m > 0, CG(m, a, b)), z3.And(CG(m, a % m, b), a % m >= 0, a % m < m)),
               facts=lambda m, a, b: [cg_def(m, a, b), cg_def(m, a % m, b), ring.inst((a - b) / m, a / m, m, z3.IntVal(0), z3.IntVal(1)), multiple.inst(a % m - b, m, (a - b) / m - a / m)])
cg_scale = Lemma('congruence times an integer', I('m', 'a', 'b', 't'), lambda m, a, b, t: z3.Implies(z3.And(m > 0, t > 0, CG(m, a, b)), z3.And(CG(m * t, a * t, b * t), CG(m * t, t * a, t * b))),
                 facts=lambda m, a, b, t: [cg_def(m, a, b), cg_def(m * t, a * t, b * t), cg_def(m * t, t * a, t * b), ring.inst(a, b, m, (a - b) / m, t), multiple.inst(a * t - b * t, m * t, (a - b) / m), multiple.inst(t * a - t * b, m * t, (a - b) / m), posprod.inst(m, t)])
posprod = Lemma('product of positives', I('a', 'b'), lambda a, b: z3.Implies(z3.And(a > 0, b > 0), a * b > 0))
cg_weaken = Lemma('congruence modulo a divisor', I('m', 'a', 'b', 't'), lambda m, a, b, t: z3.Implies(z3.And(m > 0, t > 0, CG(m * t, a, b)), CG(m, a, b)),
                  facts=lambda m, a, b, t: [cg_def(m, a, b), cg_def(m * t, a, b), posprod.inst(m, t), ring.inst(a, b, m, (a - b) / (m * t), t), multiple.inst(a - b, m, t * ((a - b) / (m * t)))])
cg_combine = Lemma('combinations of congruent integers', I('m', 'a', 'b', 'c', 'd', 'v', 'w'), lambda m, a, b, c, d, v, w: z3.Implies(z3.And(m > 0, CG(m, a, b), CG(m, c, d), z3.Or(v - w == (a - b) + (c - d), v - w == (a - b) - (c - d), v - w == -(a - b), v - w == a - b)), CG(m, v, w)),
                   facts=lambda m, a, b, c, d, v, w: [cg_def(m, a, b), cg_def(m, c, d), cg_def(m, v, w), ring.inst((a - b) / m, (c - d) / m, m, (a - b) / m, z3.IntVal(1))] + [multiple.inst(v - w, m, q) for q in ((a - b) / m + (c - d) / m, (a - b) / m - (c - d) / m, -((a - b) / m), (a - b) / m)])
cg_cancel = Lemma('cancellation of a factor', I('m', 'a', 'b', 't'), lambda m, a, b, t: z3.Implies(z3.And(m > 0, t > 0, CG(m * t, a, b * t)), z3.And(a % t == 0, CG(m, a / t, b))),
                  facts=lambda m, a, b, t: [cg_def(m * t, a, b * t), cg_def(m, a / t, b), posprod.inst(m, t), ring.inst(b, -((a - b * t) / (m * t)) * m, m, (a - b * t) / (m * t), t), multiple.inst(a, t, b + m * ((a - b * t) / (m * t))), ring.inst(b, z3.IntVal(0), t, m * ((a - b * t) / (m * t)), z3.IntVal(1)), commute.inst(m * ((a - b * t) / (m * t)), t), commute.inst(b, t), multiple.inst(a / t - b, m, (a - b * t) / (m * t)),
                                             ring.inst(b, m * ((a - b * t) / (m * t)), t, z3.IntVal(0), z3.IntVal(1))])
commute = Lemma('commutativity', I('a', 'b'), lambda a, b: a * b == b * a)
square = Lemma('squares', I('x', 'y'), lambda x, y: z3.And((x + y) * (x + y) <= 2 * (x * x) + 2 * (y * y), (x - y) * (x - y) <= 2 * (x * x) + 2 * (y * y), (x - y) * (x - y) == (y - x) * (y - x), (-x) * (-x) == x * x))
below = Lemma('smaller squares', I('x', 'm', 'Q'), lambda x, m, Q: z3.Implies(z3.And(m > 0, x * x <= Q, m * m > 4 * Q), z3.And(-m < x, x < m)))
rounding = Lemma('the small representative', I('M', 'v', 's', 'Q'), lambda M, v, s, Q: z3.Implies(z3.And(M > 0, CG(M, v, s), s * s <= Q, M * M > 4 * Q), z3.If((v % M) * (v % M) > Q, -((-(v % M)) % M) == s, v % M == s)),
                 facts=lambda M, v, s, Q: [cg_def(M, v, s), below.inst(s, M, Q), ring.inst((v - s) / M, z3.IntVal(1), M, (v - s) / M, z3.IntVal(1)), quot.inst(v, M, (v - s) / M, s), quot.inst(v, M, (v - s) / M - 1, s + M), quot.inst(-(s + M), M, z3.IntVal(-1), -s), square.inst(s + M, s), square.inst(s, M)])
pow_pos = Lemma('powers of a positive base are positive', I('b', 'k'), lambda b, k: z3.Implies(b >= 1, POW(b, k) >= 1), induct=1, facts=lambda b, k: [POW_.base(b), POW_.at_pos(b, k)])


Z0 = z3.IntVal(0)
pm = lambda sg: z3.Or(sg == 1, sg == -1)
pair_tells = Lemma('a telling pair', I('m', 'a', 'b', 'A', 'B', 'sg'), lambda m, a, b, A, B, sg: z3.Implies(z3.And(m > 0, pm(sg), CG(m, a, A), CG(m, b, B), A == sg * B, (2 * a) % m != 0), z3.And(((a + b) % m == 0) == (sg == -1), ((a - b) % m == 0) == (sg == 1))),
                   facts=lambda m, a, b, A, B, sg: [cg_combine.inst(m, a, A, b, B, a + b, Z0), cg_def(m, a + b, Z0), cg_combine.inst(m, a, A, b, B, a - b, Z0), cg_def(m, a - b, Z0), cg_combine.inst(m, a + b, Z0, a - b, Z0, 2 * a, Z0), cg_def(m, 2 * a, Z0)])
pair_silent = Lemma('a pair that does not tell', I('m', 'a', 'A', 'c', 't', 'B', 'sg'), lambda m, a, A, c, t, B, sg: z3.Implies(z3.And(m > 0, t > 0, pm(sg), CG(m, a, A), CG(m, c * t, B), A == sg * B, z3.Or((2 * a) % m == 0, c % m == 0)), DVD(m, 2 * A)),
                    facts=lambda m, a, A, c, t, B, sg: [cg_def(m, 2 * a, Z0), cg_combine.inst(m, a, A, a, A, 2 * a, 2 * A), cg_combine.inst(m, 2 * a, Z0, 2 * a, 2 * A, 2 * A, Z0), cg_def(m, 2 * A, Z0), dvd_def(m, 2 * A),
                                                        cg_def(m, c, Z0), cg_scale.inst(m, c, Z0, t), cg_weaken.inst(m, c * t, Z0, t), cg_combine.inst(m, c * t, Z0, c * t, B, B, Z0), cg_combine.inst(m, B, Z0, B, Z0, 2 * B, Z0), cg_combine.inst(m, 2 * B, Z0, B, Z0, 2 * A, Z0)])
constant_tells = Lemma('the constant coefficient tells', I('m', 'a', 'c', 'sg'), lambda m, a, c, sg: z3.Implies(z3.And(m > 0, CG(m, a, sg * c)), z3.And(z3.Implies(sg == 1, (a - c) % m == 0), z3.Implies(sg == -1, z3.And((a + c) % m == 0, z3.Implies((a - c) % m == 0, DVD(m, 2 * c)))))),
                       facts=lambda m, a, c, sg: [cg_combine.inst(m, a, sg * c, a, sg * c, a - c, Z0), cg_combine.inst(m, a, sg * c, a, sg * c, a + c, Z0), cg_def(m, a - c, Z0), cg_def(m, a + c, Z0), cg_combine.inst(m, a + c, Z0, a - c, Z0, 2 * c, Z0), cg_def(m, 2 * c, Z0), dvd_def(m, 2 * c)])
mirror = Lemma('the mirrored coefficient', I('m', 't', 'a', 'A', 'C', 'sg'), lambda m, t, a, A, C, sg: z3.Implies(z3.And(m > 0, t > 0, pm(sg), CG(m * t, a, A), A == sg * (C * t)), z3.And((sg * a) % t == 0, CG(m, ((sg * a) / t) % m, C))),
               facts=lambda m, t, a, A, C, sg: [posprod.inst(m, t), cg_combine.inst(m * t, a, A, a, A, sg * a, C * t), cg_cancel.inst(m, sg * a, C, t), cg_red.inst(m, (sg * a) / t, C)])
lifted = Lemma('the lifted coefficient', I('m', 't', 'M', 'c', 'C', 'A', 'sg'), lambda m, t, M, c, C, A, sg: z3.Implies(z3.And(m > 0, t > 0, M == m * t, pm(sg), CG(m, c, C), A == sg * (C * t)), CG(M, (sg * c * t) % M, A)),
               facts=lambda m, t, M, c, C, A, sg: [posprod.inst(m, t), cg_scale.inst(m, c, C, t), cg_combine.inst(m * t, c * t, C * t, c * t, C * t, sg * c * t, A), cg_red.inst(m * t, sg * c * t, A)])
small = lambda M, v, Q: z3.If((v % M) * (v % M) > Q, -((-(v % M)) % M), v % M)
newton_step = Lemma("the exact power sum", I('k', 'm', 'x', 'y', 'sm', 'v', 's', 'Q'), lambda k, m, x, y, sm, v, s, Q: z3.Implies(z3.And(k >= 1, m > 0, CG(m, x, y), k * y == sm + z3.If(k % 2 == 0, -s, s), v == sgn(k, sm - k * x), s * s <= Q, (k * m) * (k * m) > 4 * Q), z3.And(small(k * m, v, Q) == s, k * m > 0)),
                    facts=lambda k, m, x, y, sm, v, s, Q: [posprod.inst(k, m), cg_scale.inst(m, x, y, k), cg_combine.inst(m * k, k * x, k * y, k * x, k * y, v, s), rounding.inst(k * m, v, s, Q)])
same3 = Lemma('equal factors', I('a', 'b', 'c', 'd', 'f', 'g'), lambda a, b, c, d, f, g: z3.Implies(z3.And(a == d, b == f, c == g), a * b * c == d * f * g))


def pows(x, y):
    """p^(x+y) = p^x p^y, positive"""
    return [pow_add.inst(PR, x, y), pow_pos.inst(PR, x), pow_pos.inst(PR, y), pow_pos.inst(PR, z3.simplify(x + y))]


def request(e):
    n = NR(e['M'])
    k, j = fv('k'), fv('j')
    up = PREC[J0]
    return [('square, of the degree of P', z3.And(NR(e['M']) == NC(e['M']), n == N, N >= 1, N < (1 << 31))),
            ('prime and weight', z3.And(e['p'] == PR, PR >= 2, e['dimension'] == W, W >= 0, W < (1 << 28))),
            ('one precision per coefficient', z3.And(vlen(e['prec']) == N + 1, D(e['prec']) == PREC, forall_range(0, N + 1, lambda i: z3.And(PREC[i] >= 0, PREC[i] < (1 << 60)), pats=lambda i: PREC[i]), PREC[N] >= 1)),
            ('P is monic and satisfies the functional equation', z3.And(P[N] == 1, z3.Or(SG == 1, z3.And(SG == -1, W % 2 == 0)), z3.Or(N % 2 == 0, W % 2 == 0), forall_range(0, N / 2 + 1, lambda i: P[i] == SG * P[N - i] * POW(PR, E(i)), pats=lambda i: P[i]))),
            ('the characteristic polynomial has the residues of P', forall_range(0, N + 1, lambda i: CG(POW(PR, PREC[i]), sgn(N - i, ECH(acc('dat', e['M']), N, N - i)), P[i]), pats=lambda i: PREC[i])),
            ('the residues tell the sign', z3.Or(W % 2 == 1, z3.Not(DVD(POW(PR, PREC[0]), 2 * POW(PR, (N * W) / 2))), z3.And(1 <= J0, J0 <= N / 2, z3.Not(DVD(POW(PR, MINP(J0)), 2 * P[J0]))))),
            ('the completed precisions', z3.ForAll([j], z3.And(z3.Implies(z3.And(0 <= j, 2 * j <= N), PRF(j) == z3.If(PREC[j] >= PP(j), PREC[j], PP(j))), z3.Implies(z3.And(j <= N, 2 * j > N), PRF(j) == z3.If(PREC[N - j] >= PREC[j] + E(N - j), PREC[N - j] - E(N - j), PREC[j]))), patterns=[PRF(j)])),
            ('they meet the root bound', z3.ForAll([k], z3.Implies(z3.And(1 <= k, k <= N), (k * POW(PR, PRF(N - k))) * (k * POW(PR, PRF(N - k))) > 4 * (N * N * POW(PR, W * k))), patterns=[PRF(N - k)])),
            ('power sums of roots of absolute value p^(w/2)', z3.ForAll([k], z3.Implies(z3.And(1 <= k, k <= N), z3.And(S(k) * S(k) <= N * N * POW(PR, W * k), k * EL(k) == NS(k, k - 1) + z3.If(k % 2 == 0, -S(k), S(k)))), patterns=[S(k)]))]


def frob():
    cp, mod, prec = (lambda e: D(e['cp'])), (lambda e: D(e['mod'])), (lambda e: D(e['prec']))
    lens = lambda e: ('lengths', z3.And(vlen(e['cp']) == N + 1, vlen(e['mod']) == N + 1, vlen(e['prec']) == N + 1, e['degree'] == N))
    known = lambda e, lo, hi: forall_range(lo, hi, lambda i: z3.And(mod(e)[i] == POW(PR, prec(e)[i]), CG(POW(PR, prec(e)[i]), cp(e)[i], P[i])), pats=lambda i: [cp(e)[i], mod(e)[i]])
    char = lambda e, i: sgn(N - i, ECH(acc('dat', e['M']), N, N - i))
    pe = lambda k: POW(PR, k)
    Z = z3.IntVal(0)

    reduce_ = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N + 1)), lens(e), ('reduced so far', known(e, 0, e['i'])),
                              ('the others as computed', forall_range(e['i'], N + 1, lambda i: cp(e)[i] == char(e, i), pats=lambda i: cp(e)[i]))], lambda e: N + 1 - e['i'],
                   head=lambda e: [pow_pos.inst(PR, PREC[e['i']])],
                   hints=lambda e: [cg_red.inst(pe(PREC[e.head_val('i')]), char(e, e.head_val('i')), P[e.head_val('i')])], post=lambda e: [pow_pos.inst(PR, PREC[N]), cg_def(pe(PREC[N]), z3.IntVal(1), z3.IntVal(1)), Cut('leading coefficient', CG(pe(PREC[N]), z3.IntVal(1), P[N]))])

    exponent = lambda e: Cut('exponent as computed', e.eng.tdiv((e['degree'] - 2 * e['i']) * e['dimension'], z3.IntVal(2)) == E(e['i']))

    def telling(e):
        i = e['i']
        m, t, a, c, A, C = pe(MINP(i)), pe(E(i)), cp(e)[i], cp(e)[e['degree'] - i], P[i], P[N - i]
        b, B = c * t, C * t
        test = (2 * a) % m != 0
        return pows(MINP(i), PREC[i] - MINP(i)) + pows(MINP(i), PP(i) - MINP(i)) + pows(PREC[N - i], E(i)) + [
            nonneg.inst(N - 2 * i, W), exponent(e), Cut('exponents', z3.And(MINP(i) >= 0, PREC[i] >= MINP(i), PP(i) >= MINP(i), E(i) >= 0)),
            cg_weaken.inst(m, a, A, pe(PREC[i] - MINP(i))), cg_scale.inst(pe(PREC[N - i]), c, C, t), cg_weaken.inst(m, b, B, pe(PP(i) - MINP(i))),
            Cut('residues of the pair', z3.And(CG(m, a, A), CG(m, b, B), m >= 1, t >= 1)), Cut('functional equation', z3.And(A == SG * B, pm(SG))),
            pair_tells.inst(m, a, b, A, B, SG), pair_silent.inst(m, a, A, c, t, B, SG), Cut('told', z3.Implies(test, z3.And(((a + b) % m == 0) == (SG == -1), ((a - b) % m == 0) == (SG == 1))), last=4), Cut('not told', z3.Implies(z3.Or((2 * a) % m == 0, c % m == 0), DVD(m, 2 * A)), last=5)]

    def constant(e):
        m, c0, a = pe(PREC[0]), pe((N * W) / 2), cp(e)[0]
        return [pow_pos.inst(PR, PREC[0]), Cut('constant coefficient', z3.And(CG(m, a, P[0]), P[0] == SG * c0, pm(SG), m > 0)), constant_tells.inst(m, a, c0, SG)]
    sign = Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= N / 2 + 1)), ('no sign yet', z3.And(z3.Not(e['found']), e['signal'] == 1)), ('no pair so far tells it', forall_range(1, e['i'], lambda j: DVD(pe(MINP(j)), 2 * P[j]), pats=lambda j: P[j]))],
                lambda e: N / 2 + 1 - e['i'], head=telling, post=constant)

    def pairing(e):
        i = e['i']
        t, a, c, A, C = pe(E(i)), cp(e)[i], cp(e)[e['degree'] - i], P[i], P[N - i]
        m1, m2 = pe(PREC[i] - E(i)), pe(PREC[N - i])
        tE = e.eng.tdiv((e['degree'] - 2 * i) * e['dimension'], z3.IntVal(2))
        sg, T, M = e['signal'], POW(e['p'], tE), POW(e['p'], prec(e)[e['degree'] - i] + tE)
        return pows(PREC[i] - E(i), E(i)) + pows(PREC[N - i], E(i)) + [
            nonneg.inst(N - 2 * i, W), Cut('exponent of the symmetry', E(i) >= 0), exponent(e),  Cut('the supplied precisions', z3.And(prec(e)[i] == PREC[i], prec(e)[N - i] == PREC[N - i])), Cut('its residue', CG(pe(PREC[i]), a, A)), Cut('residue of the mirror', CG(m2, c, C)), Cut('functional equation', A == SG * C * t), Cut('functional equation again', A == SG * (C * t), last=1),
            Cut('positive', z3.And(pm(SG), t >= 1, z3.Implies(PREC[i] >= PP(i), z3.And(m1 >= 1, pe(PREC[i]) == m1 * t)), m2 >= 1, pe(PP(i)) == m2 * t)), mirror.inst(m1, t, a, A, C, SG), Cut('as computed', z3.And(sg == SG, T == t, M == pe(PP(i)), M == m2 * T, T >= 1, A == sg * (C * T))), lifted.inst(m2, T, M, c, C, A, sg),
            Cut('the quotient', z3.Implies(PREC[i] >= PP(i), z3.And((SG * a) % t == 0, CG(m1, ((SG * a) / t) % m1, C)))), Cut('the product', CG(M, (sg * c * T) % M, A)),
            exact_div.inst(z3.IntVal(1), t), pow_two.inst(PR, PREC[i] - E(i)), Cut('monic', z3.Implies(z3.And(i == 0, PREC[i] >= PP(i)), z3.And((SG * a) / t == 1, ((SG * a) / t) % m1 == 1)))]
    pair = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= N / 2 + 1)), lens(e), ('residues', known(e, 0, N + 1)), ('monic', z3.And(cp(e)[N] == 1, z3.Implies(e['i'] == 0, cp(e)[0] == P[0]))),
                           ('precisions', forall_range(0, N + 1, lambda j: prec(e)[j] == z3.If(z3.And(e['i'] <= j, j <= N - e['i']), PREC[j], PRF(j)), pats=lambda j: [prec(e)[j], cp(e)[j], mod(e)[j]]))],
                lambda e: N / 2 + 1 - e['i'], pre_hints=lambda e: [nonneg.inst(N, W), Cut('exponent as computed', e.eng.tdiv(e['degree'] * e['dimension'], z3.IntVal(2)) == (N * W) / 2), Cut('sign', e['signal'] == SG), Cut('residues so far', z3.And(prec(e) == PREC, forall_range(1, N + 1, lambda i: z3.And(mod(e)[i] == pe(PREC[i]), CG(pe(PREC[i]), cp(e)[i], P[i])), pats=lambda i: [cp(e)[i], mod(e)[i]]), cp(e)[N] == 1, mod(e)[0] == pe(PREC[0]))), pow_pos.inst(PR, PREC[0]), cg_def(pe(PREC[0]), P[0], P[0]), Cut('constant coefficient', z3.And(cp(e)[0] == P[0], CG(pe(PREC[0]), cp(e)[0], P[0])))], head=pairing)
    def paired(e):
        i = e.head_val('i')
        now = lambda j: z3.And(mod(e)[j] == pe(prec(e)[j]), CG(pe(prec(e)[j]), cp(e)[j], P[j]))
        return [Cut('its precision', prec(e)[i] == PRF(i)), Cut('precision of the mirror', prec(e)[N - i] == PRF(N - i)), Cut('the modulus', mod(e)[i] == pe(prec(e)[i])), Cut('the coefficient', z3.Implies(z3.And(2 * i != N, PREC[i] >= PP(i)), CG(pe(prec(e)[i]), cp(e)[i], P[i]))), Cut('the coefficient from its mirror', z3.Implies(z3.And(2 * i != N, PREC[i] < PP(i)), CG(pe(prec(e)[i]), cp(e)[i], P[i]))), Cut('the middle coefficient', z3.Implies(2 * i == N, now(i))), Cut('its mirror', now(N - i)), Cut('the others', forall_range(0, N + 1, lambda j: z3.Implies(z3.And(j != i, j != N - i), z3.And(mod(e)[j] == D(e.head_val('mod'))[j], cp(e)[j] == D(e.head_val('cp'))[j], prec(e)[j] == D(e.head_val('prec'))[j])), pats=lambda j: [mod(e)[j], cp(e)[j], prec(e)[j]]))]
    pair.hints = paired
    el = Loop(lambda e: [('counter', z3.And(0 <= e['k'], e['k'] <= N + 1)), ('length', vlen(e['e']) == N + 1), ('symmetric functions', forall_range(0, e['k'], lambda j: D(e['e'])[j] == sgn(j, cp(e)[N - j]), pats=lambda j: D(e['e'])[j]))], lambda e: N + 1 - e['k'])

    def rounded(e):
        k, sm, m, x, y = e['k'], e['sum'], mod(e)[e['degree'] - e['k']], D(e['e'])[e['k']], EL(e['k'])
        v, Q = signed(e), bound(e)
        return [pow_pos.inst(PR, PRF(N - k)), Cut('class', z3.And(m == pe(PRF(N - k)), CG(m, cp(e)[N - k], P[N - k]), x == sgn(k, cp(e)[N - k]), k >= 1, m > 0)), cg_combine.inst(m, cp(e)[N - k], P[N - k], cp(e)[N - k], P[N - k], x, y), Cut('class of the symmetric function', CG(m, x, y)),
                Cut('Newton', k * EL(k) == sm + z3.If(k % 2 == 0, -S(k), S(k))), same3.inst(e['degree'], e['degree'], POW(e['p'], e['dimension'] * k), N, N, POW(PR, W * k)), Cut('Weil', S(k) * S(k) <= Q), same3.inst(k * m, k * m, z3.IntVal(1), k * pe(PRF(N - k)), k * pe(PRF(N - k)), z3.IntVal(1)), same3.inst(k, m, z3.IntVal(1), k, pe(PRF(N - k)), z3.IntVal(1)), Cut('precision', (k * m) * (k * m) > 4 * Q),
                Cut('alternating', v == sgn(k, sm - k * x)), newton_step.inst(k, m, x, y, sm, v, S(k), Q), Cut('power sum', z3.And(small(k * m, v, Q) == S(k), k * m > 0)), exact_div.inst(EL(k), k)]
    newton = Loop(lambda e: [('counter', z3.And(1 <= e['k'], e['k'] <= N + 1)), ('lengths', z3.And(lens(e)[1], vlen(e['e']) == N + 1, vlen(e['s']) == N + 1)),
                             ('exact so far', forall_range(0, e['k'], lambda j: z3.And(cp(e)[N - j] == P[N - j], D(e['e'])[j] == EL(j)), pats=lambda j: D(e['e'])[j])), ('coefficients so far', forall_range(N + 1 - e['k'], N + 1, lambda j: cp(e)[j] == P[j], pats=lambda j: cp(e)[j])),
                             ('residues of the others', forall_range(e['k'], N + 1, lambda j: z3.And(D(e['e'])[j] == sgn(j, cp(e)[N - j]), CG(pe(PRF(N - j)), cp(e)[N - j], P[N - j])), pats=lambda j: D(e['e'])[j])),
                             ('moduli', forall_range(0, N + 1, lambda j: mod(e)[j] == pe(PRF(j)), pats=lambda j: mod(e)[j])), ('power sums', forall_range(1, e['k'], lambda j: D(e['s'])[j] == S(j), pats=lambda j: D(e['s'])[j]))],
                  lambda e: N + 1 - e['k'], hints=lambda e: [Cut('this power sum', D(e['s'])[e.head_val('k')] == S(e.head_val('k'))), multiple.inst(e['sum'] + z3.If(e.eng.tmod(e.head_val('k'), z3.IntVal(2)) == 0, -D(e['s'])[e.head_val('k')], D(e['s'])[e.head_val('k')]), e.head_val('k'), EL(e.head_val('k'))), Cut('coefficient', z3.And(D(e['e'])[e.head_val('k')] == EL(e.head_val('k')), cp(e)[N - e.head_val('k')] == P[N - e.head_val('k')]))])
    inner = Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= e['k'])), ('partial sum', e['sum'] == NS(e['k'], e['i'] - 1))], lambda e: e['k'] - e['i'], pre_hints=lambda e: [NS_.base(e['k'])], hints=lambda e: [NS_.at_pos(e['k'], e['i'] - 1), Cut('symmetric function', z3.And(D(e['e'])[e['k'] - e.head_val('i')] == EL(e['k'] - e.head_val('i')), D(e['s'])[e.head_val('i')] == S(e.head_val('i'))))], post=rounded)
    return {0: reduce_, 1: sign, 2: pair, 3: el, 4: newton, 5: inner}


pow_two = Lemma('positive powers of p are at least two', I('b', 'k'), lambda b, k: z3.Implies(z3.And(b >= 2, k >= 1), POW(b, k) >= 2), facts=lambda b, k: [POW_.at_pos(b, k), pow_pos.inst(b, k - 1), twice.inst(b, POW(b, k - 1))])
nonneg = Lemma('product of non-negatives', I('a', 'b'), lambda a, b: z3.Implies(z3.And(a >= 0, b >= 0), a * b >= 0))
twice = Lemma('products of factors at least 2 and 1', I('a', 'b'), lambda a, b: z3.Implies(z3.And(a >= 2, b >= 1), a * b >= 2))


def signed(e):
    k = e['k']
    return z3.If(e.eng.tmod(k, z3.IntVal(2)) == 0, z3.IntVal(1), z3.IntVal(-1)) * (e['sum'] - k * D(e['e'])[k])


bound = lambda e: e['degree'] * e['degree'] * POW(e['p'], e['dimension'] * e['k'])


def reduced(e):
    return [Cut('reduced power sum', D(e['s'])[e['k']] == signed(e) % (e['k'] * D(e['mod'])[e['degree'] - e['k']]))]


def contracts():
    return [Contract('matrix/charpoly_frob.cc', 'charpoly_frob', ['mat<ZZ>', 'vec<i64>', 'i64', 'i64'], request, lambda e: [('exactly P', z3.And(vlen(e.result) == N + 1, forall_range(0, N + 1, lambda i: D(e.result)[i] == P[i], pats=lambda i: D(e.result)[i])))],
                     frob(), overflow=True, label='matrix/charpoly_frob.cc:charpoly_frob', timeout=20, flags={'after': {'sqr': reduced}})] + C07.contracts()


def theorems():
    return C07.theorems() + ['power sums of the N roots of P: related to the coefficients by Newton\'s identities, and of absolute value at most N p^(wk/2)', 'the precision check in floating point (assert with log) passes or ends the program']


def lemmas():
    return [pow_add, quot, multiple, ring, posprod, commute, cg_red, cg_scale, cg_weaken, cg_combine, cg_cancel, square, below, rounding, pair_tells, pair_silent, constant_tells, mirror, lifted, newton_step, same3, pow_pos, twice, pow_two, nonneg] + [l for l in C07.lemmas()]
