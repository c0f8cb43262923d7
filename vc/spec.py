"""Specification vocabulary: recursively defined functions, lemmas proved by induction, facts usable as hints."""
import z3
from .engine import Obligation, vlen, vdat, at, mat_at, acc, sel, mk, INT, BOOL

I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1


def in64(x):
    return z3.And(x >= I64MIN, x <= I64MAX)


def Fact(f, src):
    """an instance of a definition or of a proved lemma: the only formulas contracts may add as hypotheses"""
    f = z3.simplify(f) if z3.is_bool(f) and z3.is_true(f) else f
    FACTS.append(src)
    return f


FACTS = []
_n = [0]


def fv(name, sort=INT):
    _n[0] += 1
    return z3.Const(f'{name}?{_n[0]}', sort)


def forall_range(lo, hi, body, name='q', pats=None):
    """forall lo <= i < hi: body(i)"""
    i = fv(name)
    b = body(i)
    f = z3.Implies(z3.And(lo <= i, i < hi), b)
    if pats:
        ps = pats(i)
        return z3.ForAll([i], f, patterns=ps if isinstance(ps, list) else [ps])
    return z3.ForAll([i], f)


class RecDef:
    """f(args, 0) = base(args);  f(args, k+1) = step(args, k, f(args, k)) for k >= 0. Primitive recursion: conservative."""

    def __init__(s, name, sorts, out, base, step):
        s.name, s.fn, s.b, s.st, s.n = name, z3.Function(name, *sorts, INT, out), base, step, len(sorts)

    def __call__(s, *a):
        return s.fn(*a)

    def base(s, *a):
        return Fact(s.fn(*a, z3.IntVal(0)) == s.b(*a), f'definition of {s.name}')

    def base_ax(s):
        v = [fv('a', s.fn.domain(i)) for i in range(s.n)]
        if not v:
            return s.base()
        x = s.fn(*v, z3.IntVal(0))
        return Fact(z3.ForAll(v, x == s.b(*v), patterns=[x]), f'definition of {s.name}')

    def unfold(s, *a):
        """a = args..., k : defines value at k+1"""
        k = a[-1]
        k = z3.IntVal(k) if isinstance(k, int) else k
        return Fact(z3.Implies(k >= 0, s.fn(*a[:-1], k + 1) == s.st(*a[:-1], k, s.fn(*a[:-1], k))), f'definition of {s.name}')

    def at_pos(s, *a):
        """a = args..., k with k >= 1: value at k in terms of k-1"""
        k = a[-1]
        return Fact(z3.Implies(k >= 1, s.fn(*a[:-1], k) == s.st(*a[:-1], k - 1, s.fn(*a[:-1], k - 1))), f'definition of {s.name}')


class Lemma:
    """forall vars: stmt(vars).  proof: 'direct' (with facts) or induction over one variable >= lo"""

    def __init__(s, name, vars, stmt, induct=None, lo=0, facts=None, base_facts=None, timeout=None, strong=False, measure=None, uses=()):
        s.name, s.vars, s.stmt, s.induct, s.lo = name, vars, stmt, induct, lo
        s.facts = facts or (lambda *a: [])
        s.base_facts = base_facts or s.facts
        s.timeout = timeout
        s.strong = strong
        s.obls = None

    def consts(s):
        return [z3.Const(f'{nm}', so) for nm, so in s.vars]

    def obligations(s):
        v = s.consts()
        out = []
        lab = 'lemma ' + s.name
        if s.induct is None:
            out.append(Obligation(lab, 'lemma', 'direct', list(s.facts(*v)), s.stmt(*v), None))
        else:
            i = s.induct
            lo = z3.IntVal(s.lo) if isinstance(s.lo, int) else s.lo
            b = list(v)
            b[i] = lo
            out.append(Obligation(lab, 'lemma', 'induction base', list(s.base_facts(*b)), s.stmt(*b), None))
            k = v[i]
            up = list(v)
            up[i] = k + 1
            if s.strong:
                kk = z3.Int('ih!k')
                w = list(v)
                w[i] = kk
                ih = z3.ForAll([kk], z3.Implies(z3.And(kk >= lo, kk <= k), s.stmt(*w)))
            else:
                # hypothesis for all values of the other variables
                others = [x for j, x in enumerate(v) if j != i]
                fresh = [z3.Const(str(x) + '!ih', x.sort()) for x in others]
                w = []
                it = iter(fresh)
                for j in range(len(v)):
                    w.append(v[j] if j == i else next(it))
                ih = z3.And(s.stmt(*v), z3.ForAll(fresh, s.stmt(*w))) if others and s.strong is None else s.stmt(*v)
            out.append(Obligation(lab, 'lemma', 'induction step', [k >= lo, ih] + list(s.facts(*up)), s.stmt(*up), None))
        for o in out:
            o.timeout = s.timeout
        return out

    def inst(s, *a):
        a = [z3.IntVal(x) if isinstance(x, int) else x for x in a]
        f = s.stmt(*a)
        if s.induct is not None:
            f = z3.Implies(a[s.induct] >= s.lo, f)
        return Fact(f, 'lemma ' + s.name)

    def forall(s, pats=None):
        v = s.consts()
        f = s.stmt(*v)
        if s.induct is not None:
            f = z3.Implies(v[s.induct] >= s.lo, f)
        p = pats(*v) if pats else None
        return Fact(z3.ForAll(v, f, patterns=p) if p else z3.ForAll(v, f), 'lemma ' + s.name)


def forall_facts(vs, f, pats):
    """generalisation of a fact instance over fresh variables"""
    return z3.ForAll(vs, f, patterns=pats)


ARR = z3.ArraySort(INT, INT)
ARR2 = z3.ArraySort(INT, ARR)

# sum_{k<n} a[k]*b[k]
DOT = RecDef('dot', [ARR, ARR], INT, lambda a, b: z3.IntVal(0), lambda a, b, k, p: p + a[k] * b[k])
# sum_{k<n} a[k]
SUM = RecDef('sum', [ARR], INT, lambda a: z3.IntVal(0), lambda a, k, p: p + a[k])
