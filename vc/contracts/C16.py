"""default_args: the tables determine every coefficient, for every odd prime."""
from ..engine import *
from ..spec import *
from .math import *


def hodge(n, d):
    cnt = [1]
    for _ in range(n + 1):
        t = [0] * (len(cnt) + d - 2)
        for i, c in enumerate(cnt):
            for a in range(d - 1):
                t[i + a] += c
        cnt = t
    return [cnt[s] if 0 <= (s := (i + 1) * d - (n + 1)) < len(cnt) else 0 for i in range(n)]


SUPPORTED = [(2, d) for d in range(3, 10)] + [(3, d) for d in range(4, 7)]


def ints(v):
    """the concrete entries of a vector value, or None"""
    n = z3.simplify(vlen(v))
    if not z3.is_int_value(n):
        return None
    out = [z3.simplify(sel(vdat(v), i)) for i in range(n.as_long())]
    return [x.as_long() for x in out] if all(z3.is_int_value(x) for x in out) else None


def threshold(k, m, deg):
    """smallest T with k^2 p^m > 4 deg^2 for every integer p >= T; None if there is none. p^m grows with p for m >= 0, so
    'p >= T' is equivalent to the inequality for m >= 1 (the lemma 'powers grow')."""
    if m == 0:
        return 0 if k * k > 4 * deg * deg else None
    if m < 0:
        return None      # would need p^(-m) < k^2 / (4 deg^2): not for all large p
    t = 0
    while not k * k * t ** m > 4 * deg * deg:
        t += 1
    return t


def completed(cp, deg, w):
    s = list(cp)
    for i in range(deg // 2 + 1):
        sh = (deg - 2 * i) * w // 2
        if s[i] >= s[deg - i] + sh:
            s[deg - i] = s[i] - sh
        else:
            s[i] = s[deg - i] + sh
    return s


def determined(cp, n, d, p):
    deg, w = sum(hodge(n, d)), n - 1
    s = completed(cp, deg, w)
    ts = [threshold(k, 2 * s[deg - k] - w * k, deg) for k in range(1, deg + 1)]
    return z3.BoolVal(False) if None in ts else p >= max(ts)


def needed(N, n, h):
    """for p large: relative precision of the columns, and the working precision"""
    need = 0
    for i in range(n):
        if N[i]:
            r = N[i] + i + 1 - n
            v = i + N[i] - 1             # valuation of (p(i+N)-1)! for p > i + N
            need = max(need, r + max(0, v - i))
    return need


def known(N, cp, n, d):
    """the matrix gives every coefficient to the declared precision (worst choice of minors)"""
    h = hodge(n, d)
    deg, w = sum(h), n - 1
    col = []
    for i in range(n):
        r = N[i] + i + 1 - n if N[i] else 0
        col += [(n - 1 - i, r + n - 1 - i)] * h[i]
    col.sort()
    for k in range(1, deg + 1):
        best = None
        for j in range(deg):
            t = sum(c[0] for i, c in enumerate(col[:k] if j < k - 1 else col[:k - 1]) if i != j)
            t += col[j][1]
            best = t if best is None or t < best else best
        if (k < deg or w % 2 == 0) and cp[deg - k] > best:
            return False
    return True


def contracts():
    def ens(e):
        n, d, p = e['n'], e['d'], e['p']
        out = [('only supported pairs are answered', z3.Or(*[z3.And(n == a, d == b) for a, b in SUPPORTED]))]
        N, cp = ints(e['N']), ints(e['charpoly_prec'])
        if N is None or cp is None:
            raise Unsupported('table entries are not literal on this path')
        shape, det, known_, work, pos = [], [], [], [], []
        for a, b in SUPPORTED:
            here = z3.And(n == a, d == b)
            h = hodge(a, b)
            deg = sum(h)
            ok = len(N) == a and len(cp) == deg + 1
            shape.append(z3.Implies(here, z3.BoolVal(ok)))
            pos.append(z3.Implies(here, z3.And(e['precision'] >= 1, *[z3.BoolVal(x >= 0) for x in N], *[z3.BoolVal(x >= 1) for x in cp])))
            if ok:
                det.append(z3.Implies(here, determined(cp, a, b, p)))
                known_.append(z3.Implies(z3.And(here, p > 2 * n + e['precision']), z3.BoolVal(known(N, cp, a, b))))
                work.append(z3.Implies(z3.And(here, p > 2 * n + e['precision']), e['precision'] >= needed(N, a, h)))
        return out + [('one term count per pole order and one precision per coefficient', z3.And(*shape)), ('precisions are positive', z3.And(*pos)), ('residue, functional equation and root bound determine every coefficient', z3.And(*det)),
                      ('the term counts give every coefficient to its declared precision', z3.And(*known_)), ('the working precision covers the term counts', z3.And(*work))]
    return [Contract('tools/default_args.cc', 'default_args', None, lambda e: [('odd prime not dividing the degree', z3.And(e['p'] >= 3, e['p'] % 2 == 1, e['d'] % e['p'] != 0))], ens, {}, modifies=['precision', 'N', 'charpoly_prec'],
                     overflow=True, flags={'paths': 120}, label='tools/default_args.cc:default_args')]


pow_grow = Lemma('powers grow', I('p', 't', 'm'), lambda p, t, m: z3.Implies(z3.And(p >= t, t >= 0), z3.And(PW(p, m) >= PW(t, m), PW(t, m) >= 0)), induct=2, facts=lambda p, t, m: [PW_.base(p), PW_.base(t), PW_.at_pos(p, m), PW_.at_pos(t, m), mulmono.inst(PW(p, m - 1), PW(t, m - 1), p, t)])
PW_ = RecDef('power_of', [INT], INT, lambda p: z3.IntVal(1), lambda p, k, r: r * p)
PW = PW_.fn
mulmono = Lemma('products grow', I('a', 'b', 'c', 'd'), lambda a, b, c, d: z3.Implies(z3.And(a >= b, b >= 0, c >= d, d >= 0), z3.And(a * c >= b * d, b * d >= 0)))


def lemmas():
    return [mulmono, pow_grow]
