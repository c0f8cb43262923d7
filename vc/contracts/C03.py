"""Exponent vectors: one unit less at a place (diff), r units less from the left (tweak). Removing r units from the left is
stated through prefix sums: every prefix of the result sums to max(0, the prefix of the argument - r)."""
from ..engine import *
from ..spec import *
from .math import *
from .C01 import sum_zero, sum_agree, nonneg, zero_on, sum_mono, entry_le, A, B

V = 'vec<i64>'
mx = lambda x: z3.If(x > 0, x, z3.IntVal(0))
sum_one_less = Lemma('prefix sums after taking one unit at i', [A, B] + I('i', 'k'),
                     lambda a, b, i, k: z3.Implies(z3.And(i >= 0, b[i] == a[i] - 1, forall_range(0, k, lambda j: z3.Implies(j != i, a[j] == b[j]))), SUM(b, k) == SUM(a, k) - z3.If(k > i, 1, 0)), induct=3,
                     facts=lambda a, b, i, k: [SUM.base(a), SUM.base(b), SUM.at_pos(a, k), SUM.at_pos(b, k)])
# what "r units less, from the left" means
def removed(res, v, r, n):
    return z3.And(vlen(res) == n, forall_range(0, n + 1, lambda k: SUM(vdat(res), k) == mx(SUM(vdat(v), k) - r), pats=lambda k: SUM(vdat(res), k)),
                  nonneg(vdat(res), n))


entries = Lemma('prefix sums determine: entries stay between 0 and the original', [A, B] + I('r', 'n', 'k'),
                lambda a, b, r, n, k: z3.Implies(z3.And(r >= 0, nonneg(a, n), 0 <= k, k < n, SUM(b, k) == mx(SUM(a, k) - r), SUM(b, k + 1) == mx(SUM(a, k + 1) - r)),
                                                 z3.And(0 <= b[k], b[k] <= a[k], z3.Implies(b[k] < a[k], SUM(b, k) == 0))),
                facts=lambda a, b, r, n, k: [SUM.at_pos(a, k + 1), SUM.at_pos(b, k + 1)])
unique = Lemma('equal prefix sums, equal vectors', [A, B] + I('n', 'k'), lambda a, b, n, k: z3.Implies(z3.And(0 <= k, k < n, SUM(a, k) == SUM(b, k), SUM(a, k + 1) == SUM(b, k + 1)), a[k] == b[k]),
               facts=lambda a, b, n, k: [SUM.at_pos(a, k + 1), SUM.at_pos(b, k + 1)])
compose = Lemma('r units and then s units are r + s units', I('x', 'r', 's'), lambda x, r, s: z3.Implies(z3.And(r >= 0, s >= 0), mx(mx(x - r) - s) == mx(x - (r + s))))


def contracts():
    n = lambda e: vlen(e.old('v'))
    out = [Contract('vec_int64/diff.cc', 'diff', [V, 'i64'],
                    lambda e: [('position inside', z3.And(0 <= e['i'], e['i'] < vlen(e['v']))), ('something to take', at(e['v'], e['i']) > 0), ('representable', forall_range(0, vlen(e['v']), lambda k: in64(at(e['v'], k))))],
                    lambda e: [('length', vlen(e.result) == n(e)), ('one less at i', at(e.result, e['i']) == at(e.old('v'), e['i']) - 1),
                               ('the rest as it was', forall_range(0, n(e), lambda k: z3.Implies(k != e['i'], at(e.result, k) == at(e.old('v'), k)))),
                               ('total', SUM(vdat(e.result), n(e)) == SUM(vdat(e.old('v')), n(e)) - 1)],
                    ret_hint=lambda e: [sum_one_less.inst(vdat(e.old('v')), vdat(e.result), e['i'], n(e))], overflow=True, label='vec_int64/diff.cc:diff')]

    def step_inv(e):
        return [('counter', z3.And(0 <= e['i'], e['i'] <= n(e))), ('nothing to take so far', zero_on(vdat(e.old('v')), 0, e['i'])), ('unchanged', e['r'] == e.old('v'))]

    def step_post(e):
        v, r = vdat(e.old('v')), vdat(e['r'])
        i, k = e['i'], fv('k')
        return [sum_zero_pre.forall(pats=lambda a, k: [SUM(a, k)]), forall_facts([k], sum_one_less.inst(v, r, i, k), [SUM(r, k)]), forall_facts([k], entry_le.inst(v, k, i), [SUM(v, k)]), forall_facts([k], SUM.at_pos(v, k), [SUM(v, k)]), SUM.at_pos(v, i + 1)]
    out.append(Contract('vec_int64/tweak_step.cc', 'tweak_step', [V],
                        lambda e: [('non-negative entries', nonneg(vdat(e['v']), vlen(e['v']))), ('representable', forall_range(0, vlen(e['v']), lambda k: in64(at(e['v'], k))))],
                        lambda e: [('leftmost unit removed', removed(e.result, e.old('v'), z3.IntVal(1), n(e))), ('entries at most those of v', forall_range(0, n(e), lambda k: at(e.result, k) <= at(e.old('v'), k)))],
                        {0: Loop(step_inv, lambda e: n(e) - e['i'], post=step_post)}, overflow=True, label='vec_int64/tweak_step.cc:tweak_step', timeout=30,
                        axioms=lambda g: [SUM.base_ax()]))
    out.append(Contract('vec_int64/tweak.cc', 'tweak', [V, 'i64'],
                        lambda e: [('non-negative entries', nonneg(vdat(e['v']), vlen(e['v']))), ('r >= 0', e.old('r') >= 0), ('representable', forall_range(0, vlen(e['v']), lambda k: in64(at(e['v'], k))))],
                        lambda e: [('r leftmost units removed', removed(e.result, e.old('v'), e.old('r'), n(e))), ('entries at most those of v', forall_range(0, n(e), lambda k: at(e.result, k) <= at(e.old('v'), k)))],
                        overflow=True, decreases=lambda e: e['r'], label='vec_int64/tweak.cc:tweak', timeout=30,
                        ret_hint=lambda e: [pre_nonneg.forall(pats=lambda a, k: [SUM(a, k)])]))
    return out


sum_zero_pre = Lemma('sum over a zero prefix', [A] + I('k'), lambda a, k: z3.Implies(zero_on(a, 0, k), SUM(a, k) == 0), induct=1, facts=lambda a, k: [SUM.base(a), SUM.at_pos(a, k)])
pre_nonneg = Lemma('prefix sums of non-negative entries', [A] + I('k'), lambda a, k: z3.Implies(nonneg(a, k), SUM(a, k) >= 0), induct=1, facts=lambda a, k: [SUM.base(a), SUM.at_pos(a, k)])


def lemmas():
    return [sum_zero, sum_zero_pre, pre_nonneg, sum_one_less, sum_mono, entry_le, entries, unique, compose]
