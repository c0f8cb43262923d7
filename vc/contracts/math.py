"""Shared mathematics: definitions (conservative recursive definitions) and lemmas (each proved on every run of the
property that lists it)."""
from ..engine import *
from ..spec import *

# n!
FACT_ = RecDef('factorial', [], INT, lambda: z3.IntVal(1), lambda k, r: (k + 1) * r)
FACT = FACT_.fn
# product of s, s+1, ..., s+k-1
RPROD_ = RecDef('range_product', [INT], INT, lambda s: z3.IntVal(1), lambda s, k, r: r * (s + k))
RPROD = RPROD_.fn
# binomial coefficients by Pascal's rule
CHO = z3.Function('choose', INT, INT, INT)


def I(*names):
    return [(n, INT) for n in names]


def cho_def(n, k):
    """Pascal's rule at (n+1, k+1) and the borders"""
    return Fact(z3.And(CHO(n, 0) == 1, z3.Implies(z3.And(n >= 0, k >= 0), CHO(n + 1, k + 1) == CHO(n, k) + CHO(n, k + 1)), z3.Implies(k >= 1, CHO(0, k) == 0)), 'definition of choose')


cancel = Lemma('cancellation', I('a', 'b', 'c'), lambda a, b, c: z3.Implies(z3.And(c != 0, a * c == b * c), a == b))
exact_div = Lemma('exact quotient', I('q', 'd'), lambda q, d: z3.Implies(d > 0, z3.And((q * d) / d == q, (q * d) % d == 0)))
fact_pos = Lemma('factorials are positive', I('n'), lambda n: FACT(n) >= 1, induct=0, facts=lambda n: [FACT_.base(), FACT_.at_pos(n)])
choose_step = Lemma('algebra of the binomial step', I('A', 'B', 'f', 'g', 'k', 'm', 'N'),
                    lambda A, B, f, g, k, m, N: z3.Implies(z3.And(A * f * (m * g) == N, B * (k * f) * g == N), (A + B) * (k * f) * (m * g) == (k + m) * N))


def _cstmt(n, k):
    return z3.And(z3.Implies(z3.And(0 <= k, k <= n), CHO(n, k) * FACT(k) * FACT(n - k) == FACT(n)), z3.Implies(k > n, CHO(n, k) == 0))


def _cfacts(n, k):
    # n is the upper index n'+1 in the step, 0 in the base
    m = z3.simplify(n - 1)
    A, B = CHO(m, k - 1), CHO(m, k)
    return [FACT_.base(), FACT_.at_pos(n), FACT_.at_pos(k), FACT_.at_pos(n - k), cho_def(m, k - 1), cho_def(n, k), cho_def(m, k),
            choose_step.inst(A, B, FACT(k - 1), FACT(m - k), k, n - k, FACT(m))]


class ChooseLemma(Lemma):
    def obligations(s):
        out = []
        n, k = z3.Ints('n k')
        kk = z3.Int('k!ih')
        out.append(Obligation('lemma ' + s.name, 'lemma', 'induction base', [FACT_.base(), cho_def(z3.IntVal(0), k)], _cstmt(z3.IntVal(0), k), None))
        ih = [_cstmt(n, k), _cstmt(n, k - 1)]      # the hypothesis holds for every k; two instances are used
        out.append(Obligation('lemma ' + s.name, 'lemma', 'induction step: interior', [n >= 0, 1 <= k, k <= n] + ih + _cfacts(n + 1, k), _cstmt(n + 1, k), None))
        out.append(Obligation('lemma ' + s.name, 'lemma', 'induction step: borders', [n >= 0, z3.Or(k <= 0, k > n)] + ih + [FACT_.base(), cho_def(n, k - 1), cho_def(n + 1, k), FACT_.at_pos(n + 1), FACT_.at_pos(k)], _cstmt(n + 1, k), None))
        return out


choose_fact = ChooseLemma('C(n,k) k! (n-k)! = n!', I('n', 'k'), _cstmt, induct=0)

# ---------------------------------------------------------------- p-adic valuations
VAL = z3.Function('padic_valuation', INT, INT, INT)     # of m >= 1
UNIT = z3.Function('padic_unit', INT, INT, INT)
DS = z3.Function('digit_sum', INT, INT, INT)
VFACT_ = RecDef('valuation_of_factorial', [INT], INT, lambda p: z3.IntVal(0), lambda p, k, r: r + VAL(p, k + 1))
VFACT = VFACT_.fn
RVAL_ = RecDef('range_valuation', [INT, INT], INT, lambda p, s: z3.IntVal(0), lambda p, s, k, r: r + VAL(p, s + k))
RVAL = RVAL_.fn
RUNIT_ = RecDef('range_unit', [INT, INT], INT, lambda p, s: z3.IntVal(1), lambda p, s, k, r: r * UNIT(p, s + k))
RUNIT = RUNIT_.fn


def val_def(p, m):
    """well-founded recursion m -> m/p for p >= 2, m >= 1"""
    return Fact(z3.Implies(z3.And(p >= 2, m >= 1), z3.And(VAL(p, m) == z3.If(m % p == 0, 1 + VAL(p, m / p), 0), UNIT(p, m) == z3.If(m % p == 0, UNIT(p, m / p), m))), 'definition of valuation and unit part')


def ds_def(p, t):
    return Fact(z3.Implies(p >= 2, z3.And(DS(p, 0) == 0, z3.Implies(t >= 1, DS(p, t) == t % p + DS(p, t / p)))), 'definition of digit sum')


# facts about division by a variable p
divshrink = Lemma('division shrinks', I('p', 'a'), lambda p, a: z3.Implies(z3.And(p >= 2, a >= 1), z3.And(a / p >= 0, a / p < a, a % p >= 0, a % p + a / p <= a, a == p * (a / p) + a % p, z3.Implies(a % p == 0, a / p >= 1))))
divnext = Lemma('quotients of neighbours', I('p', 'n'), lambda p, n: z3.Implies(z3.And(p >= 2, n >= 0), z3.And(
    z3.Implies((n + 1) % p != 0, z3.And((n + 1) / p == n / p, (n + 1) % p == n % p + 1)),
    z3.Implies((n + 1) % p == 0, z3.And((n + 1) / p == n / p + 1, n % p == p - 1)))))


def _ds(p, n):
    return DS(p, n + 1) == DS(p, n) + 1 - (p - 1) * VAL(p, n + 1)


class StrongDS(Lemma):
    """strong induction on n"""

    def obligations(s):
        p, n = z3.Ints('p n')
        m = (n + 1) / p      # the hypothesis is used at m - 1 < n
        alg = Fact(z3.BoolVal(True), 'x')
        return [Obligation('lemma ' + s.name, 'lemma', 'strong induction step',
                           [p >= 2, n >= 0, z3.Implies(z3.And(m - 1 >= 0, m - 1 < n), _ds(p, m - 1)), ds_def(p, n + 1), ds_def(p, n), val_def(p, n + 1), divnext.inst(p, n), divshrink.inst(p, n + 1), divshrink.inst(p, n),
                            z3.Implies(VAL(p, n + 1) == 1 + VAL(p, m), (p - 1) * VAL(p, n + 1) == (p - 1) + (p - 1) * VAL(p, m))], _ds(p, n), None)]


ds_step = StrongDS('digit sum of the successor', I('p', 'n'), lambda p, n: z3.Implies(z3.And(p >= 2, n >= 0), _ds(p, n)))
legendre = Lemma("Legendre's formula", I('p', 'n'), lambda p, n: z3.Implies(p >= 2, n - DS(p, n) == VFACT(p, n) * (p - 1)), induct=1,
                 facts=lambda p, n: [VFACT_.base(p), VFACT_.at_pos(p, n), ds_def(p, n), ds_step.inst(p, z3.simplify(n - 1))])


class StrongUnit(Lemma):
    def obligations(s):
        p, m, v, u = z3.Ints('p m v u')
        q = m / p
        return [Obligation('lemma ' + s.name, 'lemma', 'strong induction step',
                           [p >= 2, m >= 1, z3.Implies(z3.And(q >= 1, q < m), _un(p, q)), val_def(p, m), divshrink.inst(p, m), POW_.unfold(p, VAL(p, q)), POW_.base(p),
                            Fact(z3.BoolVal(True), 'x'), mulassoc.inst(UNIT(p, q), p, POW(p, VAL(p, q)))], _un(p, m), None)]


POW_ = RecDef('power', [INT], INT, lambda b: z3.IntVal(1), lambda b, k, r: b * r)
POW = POW_.fn
mulassoc = Lemma('reassociation', I('a', 'b', 'c'), lambda a, b, c: a * (b * c) == b * (a * c))


def _un(p, m):
    return z3.And(VAL(p, m) >= 0, UNIT(p, m) >= 1, UNIT(p, m) % p != 0, UNIT(p, m) * POW(p, VAL(p, m)) == m)


unit_part = StrongUnit('m = unit(m) * p^val(m), the unit part prime to p', I('p', 'm'), lambda p, m: z3.Implies(z3.And(p >= 2, m >= 1), _un(p, m)))
rval_fact = Lemma('valuation of 1*...*n', I('p', 'n'), lambda p, n: RVAL(p, 1, n) == VFACT(p, n), induct=1, facts=lambda p, n: [RVAL_.base(p, z3.IntVal(1)), VFACT_.base(p), RVAL_.at_pos(p, z3.IntVal(1), n), VFACT_.at_pos(p, n)])
