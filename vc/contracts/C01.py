"""tuple_list_generator: position k of the list holds the tuple with k predecessors in lexicographic order."""
from ..engine import *
from ..spec import *
from .math import *
from . import C02, C04

# number of tuples of n non-negative integers with sum d that come after t, from the prefix sums of t:
# sum over k < i of binomial(rem_{k+1} + (n-1-k) - 1, n-1-k), rem_k = d - (t_0 + ... + t_{k-1})
COR_ = RecDef('corank', [ARR, INT, INT], INT, lambda t, d, n: z3.IntVal(0), lambda t, d, n, k, r: r + CHO(d - SUM(t, k + 1) + n - 2 - k, n - 1 - k))
COR = COR_.fn
A = ('a', ARR)
B = ('b', ARR)


def zero_on(a, i, j):
    return forall_range(i, j, lambda k: a[k] == 0)


def nonneg(a, n):
    return forall_range(0, n, lambda k: a[k] >= 0, pats=lambda k: a[k])


def agree(a, b, n):
    return forall_range(0, n, lambda k: a[k] == b[k])


sum_zero = Lemma('sum over a zero range', [A] + I('i', 'k'), lambda a, i, k: z3.Implies(z3.And(i >= 0, zero_on(a, i, i + k)), SUM(a, i + k) == SUM(a, i)), induct=2,
                 facts=lambda a, i, k: [SUM.at_pos(a, z3.simplify(i + k))])
sum_agree = Lemma('sums of equal prefixes', [A, B] + I('k'), lambda a, b, k: z3.Implies(agree(a, b, k), SUM(a, k) == SUM(b, k)), induct=2,
                  facts=lambda a, b, k: [SUM.base(a), SUM.base(b), SUM.at_pos(a, k), SUM.at_pos(b, k)])
sum_mono = Lemma('prefix sums of non-negative entries grow', [A] + I('i', 'k'), lambda a, i, k: z3.Implies(z3.And(i >= 0, nonneg(a, i + k)), SUM(a, i + k) >= SUM(a, i)), induct=2,
                 facts=lambda a, i, k: [SUM.at_pos(a, z3.simplify(i + k))])
entry_le = Lemma('an entry is at most the sum', [A] + I('n', 'k'), lambda a, n, k: z3.Implies(z3.And(nonneg(a, n), 0 <= k, k < n), a[k] <= SUM(a, n)),
                 facts=lambda a, n, k: [sum_mono.inst(a, 0, k), SUM.base(a), SUM.at_pos(a, k + 1), sum_mono.inst(a, k + 1, n - k - 1)])
cor_agree = Lemma('coranks of equal prefixes', [A, B] + I('d', 'n', 'k'), lambda a, b, d, n, k: z3.Implies(agree(a, b, k), COR(a, d, n, k) == COR(b, d, n, k)), induct=4,
                  facts=lambda a, b, d, n, k: [COR_.base(a, d, n), COR_.base(b, d, n), COR_.at_pos(a, d, n, k), COR_.at_pos(b, d, n, k), sum_agree.inst(a, b, k)])
# remaining degree constantly c from i on
cor_tail = Lemma('constant remaining degree (hockey stick)', [A] + I('d', 'n', 'c', 'i', 'k'),
                 lambda a, d, n, c, i, k: z3.Implies(z3.And(i >= 0, c >= 0, i + k <= n - 1, d - SUM(a, i) == c, zero_on(a, i, i + k)),
                                                     COR(a, d, n, i + k) + CHO(c + n - 1 - i - k, n - 1 - i - k) == COR(a, d, n, i) + CHO(c + n - 1 - i, n - 1 - i)), induct=5,
                 facts=lambda a, d, n, c, i, k: [COR_.at_pos(a, d, n, z3.simplify(i + k)), sum_zero.inst(a, i, k), cho_def(z3.simplify(c + n - 1 - i - k), z3.simplify(n - 1 - i - k))])
cho_diag = Lemma('C(m,m) = 1', I('m'), lambda m: z3.And(CHO(m, m) == 1, CHO(m, m + 1) == 0), induct=0, facts=lambda m: [cho_def(z3.simplify(m - 1), z3.simplify(m - 1)), cho_def(z3.simplify(m - 1), m), cho_def(m, m), choose_fact.inst(z3.simplify(m - 1), z3.simplify(m + 1)), choose_fact.inst(m, m + 1)])
cho_nonneg = Lemma('binomials are non-negative', I('n', 'k'), lambda n, k: z3.Implies(z3.And(n >= 0, k >= 0), CHO(n, k) >= 0), facts=lambda n, k: [choose_fact.inst(n, k), fact_pos.inst(n), fact_pos.inst(k), fact_pos.inst(n - k), posfac.inst(CHO(n, k), FACT(k), FACT(n - k))])
posfac = Lemma('sign of a factor', I('a', 'b', 'c'), lambda a, b, c: z3.Implies(z3.And(a * b * c > 0, b > 0, c > 0), a > 0))
cho_pos = Lemma('C(n,k) >= 1 for k <= n', I('n', 'k'), lambda n, k: z3.Implies(z3.And(0 <= k, k <= n), CHO(n, k) >= 1), facts=lambda n, k: [choose_fact.inst(n, k), fact_pos.inst(n), fact_pos.inst(k), fact_pos.inst(n - k), posfac.inst(CHO(n, k), FACT(k), FACT(n - k))])
cho_mono = Lemma('binomials grow in the upper index', I('r', 'm', 'k'), lambda r, m, k: z3.Implies(z3.And(r >= 0, m >= 0), CHO(r + k, m) >= CHO(r, m)), induct=2,
                 facts=lambda r, m, k: [cho_def(z3.simplify(r + k - 1), m - 1), cho_def(z3.simplify(r + k), m), cho_def(r, m), cho_nonneg.inst(z3.simplify(r + k - 1), m - 1), cho_def(z3.simplify(r + k - 1), m)])
cor_upper = Lemma('at most C(rem+M, M) - 1 successors', [A] + I('d', 'n', 'i', 'k'),
                  lambda a, d, n, i, k: z3.Implies(z3.And(i >= 0, i + k <= n - 1, nonneg(a, i + k), SUM(a, i + k) <= d),
                                                   COR(a, d, n, i + k) + CHO(d - SUM(a, i + k) + n - 1 - i - k, n - 1 - i - k) <= COR(a, d, n, i) + CHO(d - SUM(a, i) + n - 1 - i, n - 1 - i)), induct=4,
                  facts=lambda a, d, n, i, k: (lambda j, m: [COR_.at_pos(a, d, n, j), SUM.at_pos(a, j), cho_def(z3.simplify(d - SUM(a, j) + m), m), cho_mono.inst(z3.simplify(d - SUM(a, j) + m + 1), m + 1, a[z3.simplify(j - 1)])])(z3.simplify(i + k), z3.simplify(n - 1 - i - k)))
cor_lower = Lemma('coranks grow along the tuple', [A] + I('d', 'n', 'i', 'k'),
                  lambda a, d, n, i, k: z3.Implies(z3.And(i >= 0, i + k <= n - 1, nonneg(a, n), SUM(a, n) == d), COR(a, d, n, i + k) >= COR(a, d, n, i)), induct=4,
                  facts=lambda a, d, n, i, k: [COR_.at_pos(a, d, n, z3.simplify(i + k)), sum_mono.inst(a, z3.simplify(i + k), n - z3.simplify(i + k)), cho_nonneg.inst(z3.simplify(d - SUM(a, i + k) + n - 1 - i - k), z3.simplify(n - i - k))])


def valid(a, d, n):
    return z3.And(nonneg(a, n), SUM(a, n) == d)


cor_range = Lemma('0 <= corank < C(d+n-1, n-1)', [A] + I('d', 'n'), lambda a, d, n: z3.Implies(z3.And(n >= 1, valid(a, d, n)), z3.And(0 <= COR(a, d, n, n - 1), COR(a, d, n, n - 1) <= CHO(d + n - 1, n - 1) - 1)),
                  facts=lambda a, d, n: [cor_lower.inst(a, d, n, 0, n - 1), cor_upper.inst(a, d, n, 0, n - 1), COR_.base(a, d, n), SUM.base(a), SUM.at_pos(a, n), cho_def(d - SUM(a, n - 1), z3.IntVal(0))])
cor_strict = Lemma('lexicographically smaller tuples have larger corank', [A, B] + I('d', 'n', 'i'),
                   lambda a, b, d, n, i: z3.Implies(z3.And(0 <= i, i < n - 1, valid(a, d, n), valid(b, d, n), agree(a, b, i), a[i] < b[i]), COR(a, d, n, n - 1) > COR(b, d, n, n - 1)),
                   facts=lambda a, b, d, n, i: [cor_agree.inst(a, b, d, n, i), sum_agree.inst(a, b, i), COR_.at_pos(a, d, n, i + 1), COR_.at_pos(b, d, n, i + 1), SUM.at_pos(a, i + 1), SUM.at_pos(b, i + 1),
                                                cor_lower.inst(a, d, n, i + 1, n - 2 - i), cor_upper.inst(b, d, n, i + 1, n - 2 - i),
                                                sum_mono.inst(b, i + 1, n - 1 - i), sum_mono.inst(b, n - 1, 1), SUM.at_pos(b, n),
                                                cho_def(d - SUM(b, i + 1) + n - 2 - i, n - 2 - i), cho_def(d - SUM(b, n - 1), z3.IntVal(0)),
                                                cho_mono.inst(d - SUM(b, i + 1) + n - 1 - i, n - 1 - i, SUM(b, i + 1) - SUM(a, i + 1) - 1)])
last_equal = Lemma('tuples of equal sum that agree before the last entry are equal', [A, B] + I('d', 'n'), lambda a, b, d, n: z3.Implies(z3.And(n >= 1, SUM(a, n) == d, SUM(b, n) == d, agree(a, b, n - 1)), agree(a, b, n)),
                   facts=lambda a, b, d, n: [sum_agree.inst(a, b, n - 1), SUM.at_pos(a, n), SUM.at_pos(b, n)])
first_diff = Lemma('tuples are equal or differ first somewhere', [A, B] + I('k'), lambda a, b, k: z3.Or(agree(a, b, k), lexdiff(a, b, k)), induct=2)
cor_inj = Lemma('tuples of equal corank are equal', [A, B] + I('d', 'n'), lambda a, b, d, n: z3.Implies(z3.And(n >= 1, valid(a, d, n), valid(b, d, n), COR(a, d, n, n - 1) == COR(b, d, n, n - 1)), agree(a, b, n)),
                facts=lambda a, b, d, n: [first_diff.inst(a, b, n - 1), last_equal.inst(a, b, d, n), cor_strict.forall(), ])


def lexdiff(a, b, k):
    i, q = z3.Int('ld'), z3.Int('lq')
    return z3.Exists([i], z3.And(0 <= i, i < k, a[i] != b[i], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i), a[q] == b[q]))))


def entry_ok(v, d, n, L, k):
    x = at(v, k)
    return z3.And(vlen(x) == n, SUM(vdat(x), n) == d, COR(vdat(x), d, n, n - 1) == L - 1 - k)


def filled(v, d, n, L, hi):
    return [('entries up to j are tuples of sum d in their place', forall_range(0, hi, lambda k: entry_ok(v, d, n, L, k), pats=lambda k: at(v, k))),
            ('entries up to j are non-negative', forall_range(0, hi, lambda k: forall_range(0, n, lambda i: at(at(v, k), i) >= 0)))]


def contracts():
    L = lambda e: CHO(e['d'] + e['n'] - 1, e['n'] - 1)
    T = lambda e: vdat(e.obj('tuple'))
    H = lambda e: vdat(e.eng.read(e.head, e.head_val('tuple').lv))

    def inv_tuple(e):
        t, n, d = T(e), e['n'], e['d']
        return [('tuple has n entries', vlen(e.obj('tuple')) == n), ('tuple non-negative', nonneg(t, n)), ('tuple sums to d', SUM(t, n) == d), ('entries at most d', forall_range(0, n, lambda k: t[k] <= d, pats=lambda k: t[k]))]

    def winv(e):
        t, n, d = T(e), e['n'], e['d']
        return inv_tuple(e) + [('position', z3.And(0 <= e['j'], e['j'] < L(e), e['j'] + COR(t, d, n, n - 1) == L(e) - 1)), ('length of the list', vlen(e['result']) == L(e))] + filled(e['result'], d, n, L(e), e['j'] + 1)

    def whints(e):
        t, h, n, d = T(e), H(e), e['n'], e['d']
        r = vdat(at(e['result'], e['j']))
        return [sum_agree.inst(t, r, n), cor_agree.inst(t, r, d, n, n - 1), entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])]), cor_range.inst(t, d, n)]

    def last_pos(e):
        """what holds when the search for the last positive entry ends: with a break (tuple changed) or without"""
        n, d = e['n'], e['d']
        t = T(e)
        p = vdat(e.preobj('tuple'))
        out = [cho_diag.inst(n), SUM.base(p), SUM.base(t)]
        # no positive entry after the first one: the sum is the first entry
        out += [sum_zero.inst(p, 1, n - 1), SUM.at_pos(p, z3.IntVal(1))]
        return out

    def inner_post(e):
        """after the tail was moved to the last place; i0 = position found, a = its value, in terms of the loop-1 head tuple"""
        n, d = e['n'], e['d']
        i0 = e.pre('i')
        p2 = vdat(e.preobj('tuple'))      # after the two single steps
        t = T(e)
        a = p2[i0] + 1
        m = n - i0
        o = z3.Store(z3.Store(p2, i0, a), i0 - 1, p2[i0 - 1] - 1)      # the tuple before (equal to it on [0, n))
        return [
            ]

    def brk(e):
        n, d = e['n'], e['d']
        p = vdat(e.preobj('tuple'))
        t = T(e)
        i0 = e.head_val('i') if hasattr(e, 'head') else None
        return last_pos(e)

    fill = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['n'] - 1)), ('zeros', zero_on(T(e), 0, e['i'])), ('room', vlen(e.obj('tuple')) == e['n'])], lambda e: e['n'] - 1 - e['i'])

    def enter_while(e):
        t, n, d = T(e), e['n'], e['d']
        r = vdat(at(e['result'], 0))
        return [sum_zero.inst(t, 0, n - 1), SUM.base(t), SUM.at_pos(t, n), cor_tail.inst(t, d, n, d, 0, n - 1), COR_.base(t, d, n), cho_def(d, z3.IntVal(0)), sum_agree.inst(t, r, n), cor_agree.inst(t, r, d, n, n - 1), cho_pos.inst(d + n - 1, n - 1), entry_le.forall(pats=lambda a, n, k: [z3.MultiPattern(SUM(a, n), a[k])])]

    def search_inv(e):
        n = e['n']
        t, p = T(e), vdat(e.preobj('tuple'))
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n - 1)), ('unchanged', t == p), ('zeros after i', zero_on(t, e['i'] + 1, n)), ('room', vlen(e.obj('tuple')) == n)]

    def search_post(e):
        n, d = e['n'], e['d']
        t, p = T(e), vdat(e.preobj('tuple'))
        out = [SUM.base(p), sum_zero.inst(p, 1, n - 1), SUM.at_pos(p, z3.IntVal(1))]
        if hasattr(e, 'head'):
            i = e.eng.lookup(e.head, 'i')
            a = p[i]
            m = n - i
            out += [sum_agree.inst(p, t, i - 1), cor_agree.inst(p, t, d, n, i - 1), SUM.at_pos(p, i), SUM.at_pos(t, i), SUM.at_pos(p, i + 1), SUM.at_pos(t, i + 1),
                    COR_.at_pos(p, d, n, i), COR_.at_pos(t, d, n, i), sum_zero.inst(p, i + 1, n - 1 - i), sum_zero.inst(t, i, n - 1 - i), SUM.at_pos(t, n), SUM.at_pos(p, n),
                    sum_mono.inst(p, i - 1, 1), sum_mono.inst(p, 0, i - 1),
                    # before: from i+1 on nothing remains; at i the entry itself remains
                    cor_tail.inst(p, d, n, 0, i + 1, n - 2 - i), COR_.at_pos(p, d, n, i + 1), cho_diag.inst(n - 2 - i), cho_diag.inst(n - 1 - i), choose_fact.inst(n - 2 - i, n - 1 - i), cho_diag.inst(z3.IntVal(0)),
                    # after: a - 1 remains from i on
                    cor_tail.inst(t, d, n, a - 1, i, n - 1 - i), cho_def(a - 1, z3.IntVal(0)),
                    cho_def(a + m - 2, m - 1), cor_range.inst(t, d, n)]
        return out

    def move_inv(e):
        n = e['n']
        t, p = T(e), vdat(e.preobj('tuple'))
        i, i0 = e['i'], e.pre('i')
        return [('counter', z3.And(i0 <= i, i <= n - 1)), ('zeroed', zero_on(t, i0, i)), ('others unchanged', z3.And(forall_range(0, i0, lambda k: t[k] == p[k]), forall_range(i, n, lambda k: t[k] == p[k]))),
                ('collected', e['sum'] == z3.If(i > i0, p[i0], 0)), ('room', vlen(e.obj('tuple')) == n)]
    out = [Contract('tools/tuple_list_generator.cc', 'tuple_list_generator', ['vec<vec<i64>>', 'i64', 'i64'],
                    lambda e: [('n >= 1, d >= 0', z3.And(e['n'] >= 1, e['d'] >= 0)), ('d + n representable', e['d'] + e['n'] < I64MAX)],
                    lambda e: [('length of the list', vlen(e['result']) == L(e))] + filled(e['result'], e['d'], e['n'], L(e), L(e)),
                    {0: fill, 1: Loop(winv, lambda e: L(e) - e['j'], hints=whints, pre_hints=enter_while, post=lambda e: end_facts(e, T(e))),
                     2: Loop(search_inv, lambda e: e['i'], post=search_post), 3: Loop(move_inv, lambda e: e['n'] - e['i'])},
                    modifies=['result'], overflow=True, label='tools/tuple_list_generator.cc:tuple_list_generator', timeout=30, axioms=lambda g: [cho_pos.forall(pats=lambda n, k: [CHO(n, k)])])]

    def end_facts(e, t):
        n, d = e['n'], e['d']
        # the first entry is d: nothing remains after it
        return [SUM.base(t), SUM.at_pos(t, z3.IntVal(1)), all_zero.inst(t, n - 1, d), cor_tail.inst(t, d, n, 0, 1, n - 2), COR_.base(t, d, n), COR_.at_pos(t, d, n, z3.IntVal(1)), cho_diag.inst(n - 2), cho_diag.inst(n - 1), cho_diag.inst(z3.IntVal(0)), sum_mono.inst(t, 1, n - 1)]
    out += [c for c in C02.contracts() if c.label == 'vec_int64.h:conv from array'] + [c for c in C04.contracts() if c.name == 'binomial']
    return out


all_zero = Lemma('non-negative entries after the first that add up to nothing', [A] + I('k', 'd'), lambda a, k, d: z3.Implies(z3.And(forall_range(1, k + 1, lambda i: a[i] >= 0), SUM(a, k + 1) <= a[0]), zero_on(a, 1, k + 1)), induct=1,
                 facts=lambda a, k, d: [SUM.at_pos(a, z3.simplify(k + 1)), SUM.at_pos(a, z3.IntVal(1)), SUM.base(a), sum_from1.inst(a, z3.simplify(k - 1)), sum_from1.inst(a, k)])
sum_from1 = Lemma('prefix sums are at least the first entry', [A] + I('k'), lambda a, k: z3.Implies(forall_range(1, k + 1, lambda i: a[i] >= 0), SUM(a, k + 1) >= a[0]), induct=1,
                  facts=lambda a, k: [SUM.at_pos(a, z3.simplify(k + 1)), SUM.at_pos(a, z3.IntVal(1)), SUM.base(a)])


def lemmas():
    return [sum_zero, sum_agree, sum_mono, entry_le, cor_agree, cho_diag, posfac, cho_nonneg, cho_pos, cho_mono, cor_tail, cor_upper, cor_lower, cor_range, cor_strict, last_equal, first_diff, cor_inj, sum_from1, all_zero, fact_pos, choose_step, choose_fact, cancel, exact_div, C04.regroup]
