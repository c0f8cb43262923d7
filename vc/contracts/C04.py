from ..engine import *
from ..spec import *
from .math import *

TPL = '#include "tools.h"\n#include <NTL/ZZ_p.h>\ntemplate NTL::ZZ factorial<NTL::ZZ>(int64_t, int64_t);\n'


def binom(src, nm, ret):
    def ens(e):
        n, k, r = e['n'], e['k'], e.result
        out = [('the mathematical coefficient', r == CHO(n, k)), ('r * k! * (n-k)! == n!', r * FACT(k) * FACT(n - k) == FACT(n))]
        if ret == 'i64':
            out.append(('never wrapped', in64(CHO(n, k))))
        return out

    def final(e):
        n, k = e['n'], e['k']
        return [choose_fact.inst(n, k), fact_pos.inst(k), fact_pos.inst(n - k), cancel.inst(e['num'], CHO(n, k) * FACT(n - k), FACT(k)), regroup.inst(CHO(n, k), FACT(k), FACT(n - k)),
                exact_div.inst(CHO(n, k), FACT(n - k))]
    return Contract(src, nm, ['i64', 'i64'],
                    lambda e: [('0 <= k <= n', z3.And(0 <= e['k'], e['k'] <= e['n'])), ('n below the largest word', e['n'] < I64MAX)],
                    ens,
                    {0: Loop(lambda e: [('counter', z3.And(e['k'] + 1 <= e['i'], e['i'] <= e['n'] + 1)), ('num * k! == (i-1)!', e['num'] * FACT(e['k']) == FACT(e['i'] - 1))],
                             lambda e: e['n'] + 1 - e['i'], hints=lambda e: [FACT_.at_pos(e['i'] - 1), regroup.inst(e.head_val('num'), e['i'] - 1, FACT(e['k']))]),
                     1: Loop(lambda e: [('counter', z3.And(1 <= e['i'], e['i'] <= e['n'] - e['k'] + 1)), ('den == (i-1)!', e['den'] == FACT(e['i'] - 1))],
                             lambda e: e['n'] - e['k'] + 1 - e['i'], hints=lambda e: [FACT_.at_pos(e['i'] - 1)],
                             post=final)},
                    overflow=True, flags={'asserts': 'assume'} if ret == 'i64' else {}, label=f'{src}:{nm}', timeout=20,
                    axioms=lambda g: [FACT_.base()])


regroup = Lemma('regrouping', I('a', 'b', 'c'), lambda a, b, c: z3.And((a * b) * c == (a * c) * b, (a * b) * c == b * (a * c)))


def contracts():
    out = [binom('tools/binomial.cc', 'binomial', 'i64'), binom('tools/binomial_ZZ.cc', 'binomial_ZZ', 'ZZ')]
    rng = lambda e: z3.If(e['n'] >= e['start'], e['n'] - e['start'] + 1, 0)
    cnt = lambda e: z3.And(e['i'] >= e['start'], z3.Or(e['i'] == e['start'], e['i'] <= e['n'] + 1))
    out.append(Contract(None, 'factorial', ['i64', 'i64'], lambda e: [('n below the largest word', e['n'] < I64MAX)],
                        lambda e: [('product of the range', e.result == RPROD(e['start'], rng(e)))],
                        {0: Loop(lambda e: [('counter', cnt(e)), ('prefix product', e['result'] == RPROD(e['start'], e['i'] - e['start']))],
                                 lambda e: e['n'] + 1 - e['i'], hints=lambda e: [RPROD_.at_pos(e['start'], e['i'] - e['start'])])},
                        overflow=True, text=TPL, label='tools.h:factorial<ZZ>', axioms=lambda g: [RPROD_.base_ax()]))
    P = lambda e: ('p >= 2', e['p'] >= 2)
    out.append(Contract('tools/valuation_of_factorial.cc', 'valuation_of_factorial', ['i64', 'i64'],
                        lambda e: [P(e), ('n >= 0', e['n'] >= 0)],
                        lambda e: [('valuation of n!', e.result == VFACT(e['p'], e['n']))],
                        {0: Loop(lambda e: [('range', z3.And(0 <= e['tmp'], 0 <= e['sum'], e['sum'] + e['tmp'] <= e['n'])), ('digit sum', e['sum'] + DS(e['p'], e['tmp']) == DS(e['p'], e['n']))],
                                 lambda e: e['tmp'], hints=lambda e: [ds_def(e['p'], e.head_val('tmp')), divshrink.inst(e['p'], e.head_val('tmp'))],
                                 post=lambda e: [ds_def(e['p'], z3.IntVal(0)), legendre.inst(e['p'], e['n']), exact_div.inst(VFACT(e['p'], e['n']), e['p'] - 1)])},
                        overflow=True, label='tools/valuation_of_factorial.cc:valuation_of_factorial', timeout=20,
                        axioms=lambda g: [divshrink.forall(pats=lambda p, a: [a / p])]))
    p_, s_ = (lambda e: e['p']), (lambda e: e['start'])
    out.append(Contract('tools/factorial_p_adic.cc', 'factorial_p_adic', ['ZZ_p', 'i64', 'i64', 'i64'],
                        lambda e: [P(e), ('start >= 1', e['start'] >= 1), ('n below 2^55', e['n'] < (1 << 55)), ('range not empty or start', e['n'] >= 0)],
                        lambda e: [('valuation of the product', e.result == RVAL(e['p'], e['start'], rng(e))), ('unit part of the product', e['result'] == RUNIT(e['p'], e['start'], rng(e)))],
                        {0: Loop(lambda e: [('counter', cnt(e)), ('valuation so far', e['val'] == RVAL(e['p'], e['start'], e['i'] - e['start'])),
                                            ('unit part so far', e['result'] == RUNIT(e['p'], e['start'], e['i'] - e['start'])),
                                            ('valuation bounded', z3.And(0 <= e['val'], e['val'] <= 64 * (e['i'] - e['start'])))],
                                 lambda e: e['n'] + 1 - e['i'],
                                 hints=lambda e: [RVAL_.at_pos(e['p'], e['start'], e['i'] - e['start']), RUNIT_.at_pos(e['p'], e['start'], e['i'] - e['start']), val_def(e['p'], e.head_val('i')), val64.inst(e['p'], e.head_val('i'))],
                                 post=lambda e: [rval_fact.inst(e['p'], e['n'])]),
                         1: Loop(lambda e: [('range', z3.And(1 <= e['tmp'], e['tmp'] <= e['i'])), ('valuation', e['val'] + VAL(e['p'], e['tmp']) == e.pre('val') + VAL(e['p'], e['i'])),
                                            ('unit', UNIT(e['p'], e['tmp']) == UNIT(e['p'], e['i'])), ('bounded', z3.And(e['val'] >= e.pre('val'), e['val'] + VAL(e['p'], e['tmp']) <= e.pre('val') + 64, VAL(e['p'], e['tmp']) >= 0))],
                                 lambda e: e['tmp'], hints=lambda e: [val_def(e['p'], e.head_val('tmp')), divshrink.inst(e['p'], e.head_val('tmp')), val64.inst(e['p'], e['tmp'])],
                                 post=lambda e: [val_def(e['p'], e['tmp'])])},
                        modifies=['result'], overflow=True, label='tools/factorial_p_adic.cc:factorial_p_adic', timeout=20,
                        axioms=lambda g: [RVAL_.base_ax(), RUNIT_.base_ax(), divshrink.forall(pats=lambda p, a: [a / p]), val64.forall(pats=lambda p, m: [VAL(p, m)])]))
    return out


pow63 = Lemma('powers grow', I('p', 'k'), lambda p, k: z3.Implies(p >= 2, POW(p, k) >= k + 1), induct=1, facts=lambda p, k: [POW_.base(p), POW_.at_pos(p, k)])


class Val64(Lemma):
    """val(m) <= 64 for m < 2^64: p^val <= m"""

    def obligations(s):
        p, m = z3.Ints('p m')
        k = z3.Int('k')
        lab = 'lemma ' + s.name
        out = [Obligation(lab, 'lemma', 'halving: val(m) <= j for m < 2^j, strong induction on j', [p >= 2, m >= 1, k >= 0, val_def(p, m), divshrink.inst(p, m), half.inst(p, m, P2(k)), P2_.base(), P2_.unfold(k),
                         z3.Implies(z3.And(m / p >= 1, m / p < P2(k)), z3.And(VAL(p, m / p) <= k, VAL(p, m / p) >= 0)), m < P2(k + 1)], z3.And(VAL(p, m) <= k + 1, VAL(p, m) >= 0), None),
               Obligation(lab, 'lemma', 'base', [p >= 2, m >= 1, P2_.base(), m < P2(0)], z3.BoolVal(False), None),
               Obligation(lab, 'lemma', '2^63', [P2_.base()] + [P2_.unfold(z3.IntVal(i)) for i in range(63)], P2(63) == (1 << 63), None)]
        return out


P2_ = RecDef('power_of_two', [], INT, lambda: z3.IntVal(1), lambda k, r: 2 * r)
P2 = P2_.fn
half = Lemma('at least halved', I('p', 'm', 'b'), lambda p, m, b: z3.Implies(z3.And(p >= 2, m >= 1, m < 2 * b), m / p < b))
val64 = Val64('valuations of machine integers are below 64', I('p', 'm'), lambda p, m: z3.Implies(z3.And(p >= 2, m >= 1, m < (1 << 63)), z3.And(0 <= VAL(p, m), VAL(p, m) <= 63)))


def lemmas():
    return [cancel, exact_div, regroup, fact_pos, choose_step, choose_fact, divshrink, divnext, ds_step, legendre, mulassoc, unit_part, rval_fact, half, val64]
