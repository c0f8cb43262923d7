from ..engine import *
from ..spec import *

TXT = '#include "vec_int64.h"\n'
V = 'vec<i64>'


def allin(n, f):
    return forall_range(0, n, lambda i: in64(f(i)))


def pointwise(op, label, params, extra_req=None, aliases=({},)):
    out = []
    for al in aliases:
        def req(e):
            r = []
            if params[1] == V:
                r.append(('lengths agree', vlen(e['v']) == vlen(e['w'])))
            n = vlen(e['v'])
            r.append(('length non-negative', n >= 0))
            r.append(('result representable', allin(n, lambda i: op(e, i, e.old))))
            return r

        def ens(e):
            n = vlen(e.old('v'))
            return [('length of the result', vlen(e['res']) == n),
                    ('every component', forall_range(0, n, lambda i: at(e['res'], i) == op(e, i, e.old)))]

        def inv(e):
            n = vlen(e.old('v'))
            i = e['i']
            r = [('counter', z3.And(0 <= i, i <= n)), ('result length', vlen(e['res']) == n), ('length of v', vlen(e['v']) == n),
                 ('prefix done', forall_range(0, i, lambda k: at(e['res'], k) == op(e, k, e.old))),
                 ('rest of v unread', forall_range(i, n, lambda k: at(e['v'], k) == at(e.old('v'), k)))]
            if params[1] == V or params[2] == V and params[1] == V:
                r.append(('rest of w unread', forall_range(i, n, lambda k: at(e['w'], k) == at(e.old('w'), k))))
                r.append(('length of w', vlen(e['w']) == n))
            return r
        nm = label.split()[0]
        out.append(Contract(None, nm, ['vec<i64>'] + params[1:] if len(params) == 3 else params, req, ens, {0: Loop(inv, lambda e: vlen(e.old('v')) - e['i'])},
                            modifies=['res'], text=TXT, overflow=True, alias=al, label=f'vec_int64.h:{label}' + (' aliasing ' + '='.join(*al.items()) if len(al) == 1 else ' aliasing both inputs' if al else '')))
    return out


def contracts():
    out = []
    A3 = [{}, {'v': 'res'}, {'w': 'res'}, {'v': 'res', 'w': 'res'}]
    out += pointwise(lambda e, i, o: at(o('v'), i) + at(o('w'), i), 'add', [None, V, V], aliases=A3)
    out += pointwise(lambda e, i, o: at(o('v'), i) - at(o('w'), i), 'sub', [None, V, V], aliases=A3)
    out += pointwise(lambda e, i, o: o('c') * at(o('v'), i), 'mul scalar', [None, 'i64', V], aliases=[{}, {'v': 'res'}])
    for c in out:
        c.params[0] = V

    # inner product
    def dreq(e):
        n = vlen(e['v'])
        a, b = vdat(e['v']), vdat(e['w'])
        return [('lengths agree', z3.And(n == vlen(e['w']), n >= 0)),
                ('products representable', allin(n, lambda i: a[i] * b[i])),
                ('partial sums representable', forall_range(0, n + 1, lambda i: in64(DOT(a, b, i)), pats=lambda i: DOT(a, b, i)))]

    def dinv(e):
        a, b = vdat(e['v']), vdat(e['w'])
        return [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['v']))), ('partial sum', e['res'] == DOT(a, b, e['i']))]
    dot = Contract(None, 'mul', ['i64', V, V], dreq,
                   lambda e: [('inner product', e['res'] == DOT(vdat(e.old('v')), vdat(e.old('w')), vlen(e.old('v'))))],
                   {0: Loop(dinv, lambda e: vlen(e['v']) - e['i'])}, modifies=['res'], text=TXT, overflow=True,
                   axioms=lambda g: dot_ax(g, ('v', 'w')), label='vec_int64.h:mul inner product')
    out.append(dot)

    # matrix times vector (through the inner product's contract)
    def row(e, i):
        return acc('dat', e.old('A'))[i]

    def mreq(e):
        A, v = e['A'], e['v']
        n = vlen(v)
        return [('shapes agree', z3.And(acc('nc', A) == n, n >= 0, acc('nr', A) >= 0)),
                ('products representable', forall_range(0, acc('nr', A), lambda r: allin(n, lambda i: mat_at(A, r, i) * at(v, i)))),
                ('partial sums representable', forall_range(0, acc('nr', A), lambda r: forall_range(0, n + 1, lambda i: in64(DOT(acc('dat', A)[r], vdat(v), i)), pats=lambda i: DOT(acc('dat', A)[r], vdat(v), i))))]

    def minv(e):
        i = e['i']
        nr = acc('nr', e['A'])
        return [('counter', z3.And(0 <= i, i <= nr)), ('result length', vlen(e['res']) == nr),
                ('rows done', forall_range(0, i, lambda r: at(e['res'], r) == DOT(row(e, r), vdat(e['v']), vlen(e['v']))))]
    out.append(Contract(None, 'mul', [V, 'mat<i64>', V], mreq,
                        lambda e: [('length', vlen(e['res']) == acc('nr', e.old('A'))),
                                   ('rows', forall_range(0, acc('nr', e.old('A')), lambda r: at(e['res'], r) == DOT(row(e, r), vdat(e['v']), vlen(e['v']))))],
                        {0: Loop(minv, lambda e: acc('nr', e['A']) - e['i'])}, modifies=['res'], text=TXT, overflow=True, label='vec_int64.h:mul matrix vector'))

    # copies to and from arrays
    out.append(Contract(None, 'conv', ['ptr<i64>', V],
                        lambda e: [('room', z3.And(vlen(e['v']) >= 0, vlen(e.obj('result')) >= vlen(e['v'])))],
                        lambda e: [('copied', forall_range(0, vlen(e['v']), lambda i: at(e.obj('result'), i) == at(e['v'], i))),
                                   ('rest untouched', forall_range(vlen(e['v']), vlen(e.obj('result')), lambda i: at(e.obj('result'), i) == at(e.oldobj('result'), i)))],
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['v']))),
                                            ('prefix', forall_range(0, e['i'], lambda i: at(e.obj('result'), i) == at(e['v'], i))),
                                            ('suffix', forall_range(e['i'], vlen(e.obj('result')), lambda i: at(e.obj('result'), i) == at(e.oldobj('result'), i)))],
                                 lambda e: vlen(e['v']) - e['i'])},
                        modifies=['result'], text=TXT, overflow=True, label='vec_int64.h:conv to array'))
    out.append(Contract(None, 'conv', [V, 'ptr<i64>', 'i64'],
                        lambda e: [('room', z3.And(e['size'] >= 0, vlen(e.obj('array')) >= e['size']))],
                        lambda e: [('length', vlen(e['result']) == e['size']),
                                   ('copied', forall_range(0, e['size'], lambda i: at(e['result'], i) == at(e.obj('array'), i)))],
                        {0: Loop(lambda e: [('counter', z3.And(0 <= e['i'], e['i'] <= e['size'])), ('length', vlen(e['result']) == e['size']),
                                            ('prefix', forall_range(0, e['i'], lambda i: at(e['result'], i) == at(e.obj('array'), i)))],
                                 lambda e: e['size'] - e['i'])},
                        modifies=['result'], text=TXT, overflow=True, label='vec_int64.h:conv from array'))

    # comparison: result <=> lexicographically smaller
    def lex(a, b, n):
        k = fv('lx')
        q = fv('lq')
        return z3.Exists([k], z3.And(0 <= k, k < n, at(a, k) < at(b, k), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), at(a, q) == at(b, q)))))

    def linv(e):
        return [('counter', z3.And(0 <= e['i'], e['i'] <= vlen(e['a']) - 1)),
                ('equal so far', forall_range(0, e['i'], lambda k: at(e['a'], k) == at(e['b'], k)))]
    out.append(Contract(None, 'operator<', [V, V],
                        lambda e: [('positive equal lengths', z3.And(vlen(e['a']) == vlen(e['b']), vlen(e['a']) >= 1, vlen(e['a']) <= I64MAX))],
                        lambda e: [('lexicographic order', e.result == lex(e['a'], e['b'], vlen(e['a'])))],
                        {0: Loop(linv, lambda e: vlen(e['a']) - e['i'])}, text=TXT, overflow=True, label='vec_int64.h:operator<', timeout=30))
    # operators returning by value: through the contracts above
    for op, sg, fn in (('operator+', 1, lambda e, i: at(e['a'], i) + at(e['b'], i)), ('operator-', -1, lambda e, i: at(e['a'], i) - at(e['b'], i))):
        out.append(Contract(None, op, [V, V],
                            lambda e, fn=fn: [('lengths', z3.And(vlen(e['a']) == vlen(e['b']), vlen(e['a']) >= 0)), ('representable', allin(vlen(e['a']), lambda i: fn(e, i)))],
                            lambda e, fn=fn, sg=sg: [('length', vlen(e.result) == vlen(e['a'])), ('components', forall_range(0, vlen(e['a']), lambda i: at(e.result, i) == fn(e, i))),
                                              ('total', SUM(vdat(e.result), vlen(e['a'])) == SUM(vdat(e['a']), vlen(e['a'])) + sg * SUM(vdat(e['b']), vlen(e['a'])))],
                            ret_hint=lambda e, sg=sg: [sum_linear.inst(vdat(e['a']), vdat(e['b']), vdat(e.result), z3.IntVal(sg), vlen(e['a']))],
                            text=TXT, overflow=True, label='vec_int64.h:' + op))
    out.append(Contract(None, 'operator*', ['i64', V],
                        lambda e: [('length', vlen(e['v']) >= 0), ('representable', allin(vlen(e['v']), lambda i: e['c'] * at(e['v'], i)))],
                        lambda e: [('length', vlen(e.result) == vlen(e['v'])), ('components', forall_range(0, vlen(e['v']), lambda i: at(e.result, i) == e['c'] * at(e['v'], i)))],
                        text=TXT, overflow=True, label='vec_int64.h:operator* scalar'))
    out.append(Contract(None, 'operator*', [V, V], dreq, lambda e: [('inner product', e.result == DOT(vdat(e['v']), vdat(e['w']), vlen(e['v'])))],
                        text=TXT, overflow=True, label='vec_int64.h:operator* inner'))

    def mreq2(e):
        A, v = e['A'], e['w']
        n = vlen(v)
        return [('shapes agree', z3.And(acc('nc', A) == n, n >= 0, acc('nr', A) >= 0)),
                ('products representable', forall_range(0, acc('nr', A), lambda r: allin(n, lambda i: mat_at(A, r, i) * at(v, i)))),
                ('partial sums representable', forall_range(0, acc('nr', A), lambda r: forall_range(0, n + 1, lambda i: in64(DOT(acc('dat', A)[r], vdat(v), i)), pats=lambda i: DOT(acc('dat', A)[r], vdat(v), i))))]
    out.append(Contract(None, 'operator*', ['mat<i64>', V], mreq2,
                        lambda e: [('length', vlen(e.result) == acc('nr', e.old('A'))),
                                   ('rows', forall_range(0, acc('nr', e.old('A')), lambda r: at(e.result, r) == DOT(row(e, r), vdat(e['w']), vlen(e['w']))))],
                        text=TXT, overflow=True, label='vec_int64.h:operator* matrix'))
    return out


def dot_ax(g, names):
    a, b = z3.Const('da', ARR), z3.Const('db', ARR)
    k = z3.Int('dk')
    # definition, triggered on pairs (dot(k), product at k) that occur in the goal
    return [Fact(z3.ForAll([a, b], DOT(a, b, 0) == 0, patterns=[DOT(a, b, z3.IntVal(0))]), 'definition of dot'),
            Fact(z3.ForAll([a, b, k], z3.Implies(k >= 0, DOT(a, b, k + 1) == DOT(a, b, k) + a[k] * b[k]), patterns=[z3.MultiPattern(DOT(a, b, k), a[k], b[k])]), 'definition of dot')]


sum_linear = Lemma('sums of componentwise sums', [('a', ARR), ('b', ARR), ('r', ARR), ('s', INT), ('n', INT)], lambda a, b, r, s, n: z3.Implies(z3.And(z3.Or(s == 1, s == -1), forall_range(0, n, lambda i: r[i] == a[i] + s * b[i])), SUM(r, n) == SUM(a, n) + s * SUM(b, n)), induct=4,
                   facts=lambda a, b, r, s, n: [f for x in (a, b, r) for f in (SUM.base(x), SUM.at_pos(x, n))])
USES = {}          # which contracts call sites may use: filled by the runner from every contract in this module with alias == {}


def lemmas():
    n = z3.Int('n')
    a, b, c = [z3.Const(x, ARR) for x in 'abc']

    def lt(x, y, nm):
        k, q = z3.Int('k' + nm), z3.Int('q' + nm)
        return z3.Exists([k], z3.And(0 <= k, k < n, x[k] < y[k], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), x[q] == y[q]))))
    out = [sum_linear]
    S = [('n', INT), ('a', ARR), ('b', ARR), ('c', ARR)]
    out.append(Lemma('the order is irreflexive', [('n', INT), ('a', ARR)], lambda n, a: z3.Not(lt(a, a, '1'))))
    out.append(Lemma('the order is transitive', S, lambda n, a, b, c: z3.Implies(z3.And(lt(a, b, '1'), lt(b, c, '2')), lt(a, c, '3'))))
    out.append(Lemma('the order is asymmetric', S[:3], lambda n, a, b: z3.Not(z3.And(lt(a, b, '1'), lt(b, a, '2')))))
    # totality by induction on n: vectors equal on [0,n) or comparable
    out.append(Lemma('the order is total', S[:3], lambda n, a, b: z3.Or(forall_range(0, n, lambda i: a[i] == b[i]), ltn(a, b, n), ltn(b, a, n)), induct=0))
    return out


def ltn(x, y, n):
    k, q = z3.Int('ltk'), z3.Int('ltq')
    return z3.Exists([k], z3.And(0 <= k, k < n, x[k] < y[k], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), x[q] == y[q]))))
