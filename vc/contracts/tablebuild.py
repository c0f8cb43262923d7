"""Building the monomial tables (shared by isSmooth, isND and the constructors): both loops around tuple_list_generator."""
from .drlib import *
from .C01 import COR, CHO, cho_mono, cho_pos, cho_nonneg, cor_range, cor_inj, cor_agree, sum_agree, sum_mono, entry_le, agree
from . import C01, C02, C04


NOKEYS = z3.K(KEYS, z3.BoolVal(False))


def no_keys(e):
    return Fact(e.eng.map_size(NOKEYS) == 0, 'the empty set has no elements')


def top_degree(e):
    return (e.f('n') + 1) * e.f('d') + 1


def count(l, m):
    return CHO(l + m - 1, m - 1)


def list_done(e, l):
    """tuple_list[l] is the list of (n+1)-tuples of sum l, each in the place its rank gives"""
    m = e.f('n') + 1
    i = fv('i')
    t = TL(e, l, i)
    return z3.And(TLN(e, l) == count(l, m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < TLN(e, l)), z3.And(is_tuple(t, l, m), COR(vdat(t), l, m, m - 1) == count(l, m) - 1 - i)), patterns=[t]))


def dict_part(e, l, hi):
    """tuple_dict[l] holds exactly the first hi tuples"""
    kf = keyax(e)[0]
    i, k = fv('i'), z3.Const(f'k?{fv("k")}', KEYS)
    t, D = TL(e, l, i), TD(e, l)
    return z3.And(e.eng.map_size(dom(D)) == hi, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < hi), z3.And(sel(dom(D), kf(t)), sel(mval(D), kf(t)) == i)), patterns=[t]),
                  z3.ForAll([k], z3.Implies(sel(dom(D), k), z3.And(0 <= sel(mval(D), k), sel(mval(D), k) < hi, kf(TL(e, l, sel(mval(D), k))) == k)), patterns=[sel(dom(D), k)]))


def done(e, hi):
    l, i = fv('l'), fv('i')
    k = z3.Const(f'k?{fv("k")}', KEYS)
    kf = keyax(e)[0]
    m = e.f('n') + 1
    inl = z3.And(0 <= l, l < hi)
    t, D = TL(e, l, i), TD(e, l)
    ini = z3.And(inl, 0 <= i, i < TLN(e, l))
    return [('lists: sizes', z3.ForAll([l], z3.Implies(inl, TLN(e, l) == count(l, m)), patterns=[TL(e, l)])),
            ('lists: tuples in their place', z3.ForAll([l, i], z3.Implies(ini, z3.And(is_tuple(t, l, m), COR(vdat(t), l, m, m - 1) == count(l, m) - 1 - i)), patterns=[t])),
            ('dictionaries: sizes', z3.ForAll([l], z3.Implies(inl, e.eng.map_size(dom(D)) == TLN(e, l)), patterns=[D])),
            ('dictionaries: positions', z3.ForAll([l, i], z3.Implies(ini, z3.And(sel(dom(D), kf(t)), sel(mval(D), kf(t)) == i)), patterns=[t])),
            ('dictionaries: nothing else', z3.ForAll([l, k], z3.Implies(z3.And(inl, sel(dom(D), k)), z3.And(0 <= sel(mval(D), k), sel(mval(D), k) < TLN(e, l), kf(TL(e, l, sel(mval(D), k))) == k)), patterns=[sel(dom(D), k)])),
            ('dictionaries to come are empty', z3.ForAll([l], z3.Implies(z3.And(hi <= l, l < top_degree(e)), dom(D) == NOKEYS), patterns=[D]))]


def lens(e):
    return ('degrees', z3.And(vlen(e.f('tuple_list')) == top_degree(e), vlen(e.f('tuple_dict')) == top_degree(e)))


def fits(e, n, d):
    """the longest list fits"""
    return CHO((n + 1) * d + n, n) <= LIM


def loops(i0):
    """loops number i0 (degrees) and i0 + 1 (tuples of one degree)"""
    m = lambda e: e.f('n') + 1

    def inner_pre(e):
        l = e['i']
        top = top_degree(e) - 1
        mm = m(e)
        return [no_keys(e), cho_mono.inst(z3.simplify(l + mm - 1), mm - 1, top - l), cho_pos.inst(z3.simplify(l + mm - 1), mm - 1)]

    def inner_step(e):
        l, j = e['i'], e.head_val('j')
        mm = m(e)
        q = fv('q')
        tj, tq = TL(e, l, j), TL(e, l, q)
        kf, kl, ka, wit = keyax(e)
        qq = fv('q')
        facts = [z3.ForAll([q], cor_agree.inst(vdat(tq), vdat(tj), l, mm, mm - 1), patterns=[tq]), z3.ForAll([q, qq], z3.And(key_entry(e, tq, qq), key_entry(e, tj, qq)), patterns=[sel(vdat(tq), qq)])]
        return facts + [Cut('different tuples have different keys', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < TLN(e, l), q != j), kf(tq) != kf(tj)), patterns=[tq])), Cut('a new key', z3.Not(sel(dom(sel(vdat(e.head_val('this.tuple_dict')), l)), kf(tj))))]
    outer = Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= top_degree(e))), lens(e)] + done(e, e['i']), lambda e: top_degree(e) - e['i'], post=complete)
    inner = Loop(lambda e: [('counter', z3.And(0 <= e['j'], e['j'] <= TLN(e, e['i']))), lens(e), ('this list', list_done(e, e['i'])), ('this dictionary', dict_part(e, e['i'], e['j']))] + done_below(e), lambda e: TLN(e, e['i']) - e['j'], hints=inner_step, pre_hints=inner_pre)
    return {i0: outer, i0 + 1: inner}


def done_below(e):
    """degrees other than the current one"""
    i = e['i']
    hi = i
    l, k = fv('l'), z3.Const(f'k?{fv("k")}', KEYS)
    D = TD(e, l)
    return done(e, hi)[:5] + [('dictionaries to come are empty', z3.ForAll([l], z3.Implies(z3.And(i < l, l < top_degree(e)), dom(D) == NOKEYS), patterns=[D]))]


def complete(e):
    """hints: the tables list every tuple"""
    m = e.f('n') + 1
    l, q = fv('l'), fv('q')
    top = top_degree(e) - 1
    x = z3.Const(f'x?{fv("x")}', vsort(e))
    kf, kl, ka, wit = keyax(e)
    pos = z3.Function('place_in_list', INT, vsort(e), INT)(l, x)
    t = TL(e, l, pos)
    D = TD(e, l)
    trig = sel(dom(D), kf(x))
    return [Fact(z3.ForAll([l, x], pos == count(l, m) - 1 - COR(vdat(x), l, m, m - 1), patterns=[pos]), 'definition of place_in_list'), z3.ForAll([l], z3.And(cho_mono.inst(l + m - 1, m - 1, top - l), cho_pos.inst(l + m - 1, m - 1)), patterns=[TL(e, l)]),
            z3.ForAll([l, x], z3.And(cor_range.inst(vdat(x), l, m), cor_inj.inst(vdat(x), vdat(t), l, m), same_key(e, kf(x), kf(t))), patterns=[pos]),
            z3.ForAll([l, x, q], z3.And(key_entry(e, x, q), key_entry(e, t, q)), patterns=[z3.MultiPattern(pos, ka(kf(x), q))]),
            Cut('every tuple has a place', z3.ForAll([l, x], z3.Implies(z3.And(0 <= l, l <= top, is_tuple(x, l, m)), z3.And(0 <= pos, pos < TLN(e, l), kf(t) == kf(x))), patterns=[trig]))] + \
        [Cut('tables: ' + nm, f) for nm, f in tables(e)]
