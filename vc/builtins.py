"""Trusted semantics of the library operations the verified code uses (NTL, GMP, FLINT, std).

Integers of NTL/GMP/FLINT are mathematical integers. Elements of ZZ_p / zz_p are represented, per contract, either by any
integer lifting them (ring mode: only ring operations occur, identities over Z hold modulo every m) or by the canonical
residue (residue mode: handled in the contract).
"""
import ast, re
import z3
from . import front as F
from .front import T, ty, Unsupported
from .engine import LV, Ptr, Iter, Str, Buf, vlen, vdat, acc, mk, sel, INT, BOOL, with_fields

WRITES = {
    'mpz_set_ui': [0], 'mpz_set': [0], 'mpz_mul': [0], 'mpz_add': [0], 'mpz_sub': [0], 'mpz_neg': [0], 'mpz_init': [0], 'mpz_clear': [], 'mpz_inits': [0, 1], 'mpz_clears': [],
    '__gmpz_set_ui': [0], '__gmpz_set': [0], '__gmpz_mul': [0], '__gmpz_add': [0], '__gmpz_sub': [0], '__gmpz_neg': [0], '__gmpz_init': [0], '__gmpz_clear': [],
    '__gmpz_inits': [0, 1], '__gmpz_clears': [], '__gmpz_addmul': [0],
    'fmpz_mul': [0], 'fmpz_addmul': [0], 'fmpz_add': [0], 'fmpz_set': [0], 'fmpz_zero': [0], 'fmpz_init': [0], 'fmpz_clear': [], 'fmpz_sub': [0], 'fmpz_mod': [0], 'fmpz_mul_ui': [0], 'fmpz_set_ui': [0],
    'ident': [0], 'clear': [0], 'set': [0], 'transpose': [0], 'rem': [0], 'DivRem': [0, 1], 'power_ZZ': [], 'power_long': [], 'trace': [], 'operator*': [], 'operator+': [], 'operator-': [], 'operator%': [], 'operator/': [],
    'binomial': [], 'rep': [], 'sqr': [], 'IsZero': [], 'log': [], 'NumBits': [], '__assert_fail': [], 'Error': [], 'TerminalError': [], 'operator<': [], 'operator>': [], 'operator==': [], 'operator!=': [],
    'fmpz_mat_entry': [], 'fmpz_mat_nrows': [], 'fmpz_mat_ncols': [], 'abs': [], 'min': [], 'max': [], 'swap': [0, 1],
    'nmod_add': [], 'nmod_mul': [], 'nmod_sub': [], '_nmod_vec_sub': [0], '__gmpz_import': [0], '__gmpz_export': [0, 1], 'BytesFromZZ': [0], 'ZZFromBytes': [0], 'NumBytes': [], '__gmpz_sizeinbase': [],
    'SetCoeff': [0], 'coeff': [], 'to_ulong': [], 'append': [0], 'operator<<=': [], 'fmpz_set_mpz': [0], 'fmpz_get_mpz': [0], 'nmod_mat_entry_ptr': [], 'nmod_mat_nrows': [], 'nmod_mat_ncols': [],
}
ELEMENTWISE = {k for k, v in WRITES.items() if v and (k.startswith('mpz') or k.startswith('__gmpz') or k.startswith('fmpz'))}


MODULUS = z3.Int('NTL_modulus')
# product of polynomials over the integers, given by their coefficients
COEFFS = z3.ArraySort(INT, INT)
POWER = z3.Function('power', INT, INT, INT)
POLMUL = z3.Function('product_of_polynomials', COEFFS, COEFFS, COEFFS)


def PMOD(st):
    """residue mode: the current modulus of ZZ_p / zz_p"""
    return MODULUS


def construct(eng, t, args, n, st):
    if t.k in ('ZZ', 'ZZ_p', 'zz_p'):
        v = eng.eval(args[0], st)
        if len(args) == 1 and isinstance(v, z3.ExprRef):
            return v
        if len(args) == 2:
            return v
    return None


def cell(eng, a, st):
    """lvalue of an mpz_t / fmpz_t / ZZ& argument"""
    x = eng.strip(a)
    v = None
    if ty(a.type).k == 'ptr':
        v = eng.eval(a, st)
        if isinstance(v, Ptr):
            return eng.deref(v, st, a)
        raise Unsupported('cell argument')
    return eng.lval(a, st)


def val(eng, a, st):
    if ty(a.type).k == 'ptr':
        return eng.read(st, cell(eng, a, st))
    v = eng.eval(a, st)
    if isinstance(v, LV):
        v = eng.read(st, v)
    return v


def scalar(x):
    return isinstance(x, z3.ExprRef) and (z3.is_int(x) or z3.is_bool(x) or z3.is_real(x))


def vec_eq(eng, a, b):
    i = z3.Int('eqi')
    return z3.And(vlen(a) == vlen(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < vlen(a)), sel(vdat(a), i) == sel(vdat(b), i))))


def call(eng, nm, n, st, want_lv=False):
    if n.k == 'CXXMemberCallExpr':
        return member_call(eng, nm, n, st)
    args = n.inner[1:]
    # ------------------------------------------------ operators
    if n.k == 'CXXOperatorCallExpr' or nm.startswith('operator'):
        return operator(eng, nm, n, st, args)
    base = nm[2:] if nm.startswith('__gmpz_') else nm
    if nm.startswith('__gmpz_'):
        base = 'mpz_' + nm[7:]
    # ------------------------------------------------ integers
    if base in ('mpz_init', 'fmpz_init'):
        eng.write(st, cell(eng, args[0], st), z3.IntVal(0))
        return None
    if base == 'mpz_inits':
        for a in args:
            v = eng.eval(a, st)
            if isinstance(v, Ptr):
                eng.write(st, eng.deref(v, st, a), z3.IntVal(0))
        return None
    if base in ('mpz_clear', 'mpz_clears', 'fmpz_clear'):
        return None
    if base in ('mpz_set_ui', 'fmpz_set_ui', 'mpz_set_si', 'fmpz_set_si', 'mpz_set', 'fmpz_set'):
        v = val(eng, args[1], st)
        eng.write(st, cell(eng, args[0], st), v)
        return None
    if base == 'fmpz_zero':
        eng.write(st, cell(eng, args[0], st), z3.IntVal(0))
        return None
    if base == 'fmpz_one':
        eng.write(st, cell(eng, args[0], st), z3.IntVal(1))
        return None
    if base in ('mpz_mul', 'fmpz_mul', 'mpz_add', 'fmpz_add', 'mpz_sub', 'fmpz_sub', 'fmpz_mul_ui', 'mpz_mul_ui', 'fmpz_mul_si'):
        a, b = val(eng, args[1], st), val(eng, args[2], st)
        op = base.split('_')[1]
        eng.write(st, cell(eng, args[0], st), a * b if op == 'mul' else a + b if op == 'add' else a - b)
        return None
    if base in ('mpz_addmul', 'fmpz_addmul'):
        a, b = val(eng, args[1], st), val(eng, args[2], st)
        lv = cell(eng, args[0], st)
        eng.write(st, lv, eng.read(st, lv) + a * b)
        return None
    if base in ('mpz_neg', 'fmpz_neg'):
        v = val(eng, args[1], st)
        eng.write(st, cell(eng, args[0], st), -v)
        return None
    if base == 'fmpz_is_zero':
        return val(eng, args[0], st) == 0
    if base == 'fmpz_mod':
        a, b = val(eng, args[1], st), val(eng, args[2], st)
        eng.oblige(st, 'safety', 'modulus positive', b > 0, n.line)
        eng.write(st, cell(eng, args[0], st), a % b)
        return None
    if nm in ('nmod_mul', 'nmod_add', 'nmod_sub'):
        a, b = val(eng, args[0], st), val(eng, args[1], st)
        m = eng.eval(args[2], st)
        if not scalar(m):
            return NotImplemented
        eng.oblige(st, 'safety', 'operands reduced', z3.And(a >= 0, a < m, b >= 0, b < m), n.line)
        return (a * b if nm == 'nmod_mul' else a + b if nm == 'nmod_add' else a - b) % m
    if nm == '_nmod_vec_sub':
        r, a, b = [eng.eval(x, st) for x in args[:3]]
        ln, m = eng.eval(args[3], st), eng.eval(args[4], st)
        ro, ao, bo = [eng.read(st, x.lv) for x in (r, a, b)]
        for x, o in ((r, ro), (a, ao), (b, bo)):
            eng.oblige(st, 'safety', 'vector inside', z3.And(x.off >= 0, x.off + ln <= vlen(o)), n.line)
        nd = eng.fresh('sub.dat', vdat(ro).sort())
        q = z3.Int('vs!q')
        st.pc.append(z3.ForAll([q], sel(nd, q) == z3.If(z3.And(r.off <= q, q < r.off + ln), (sel(vdat(ao), q - r.off + a.off) - sel(vdat(bo), q - r.off + b.off)) % m, sel(vdat(ro), q)), patterns=[sel(nd, q)]))
        eng.write(st, r.lv, with_fields(ro, dat=nd))
        return None
    # ------------------------------------------------ NTL free functions
    if nm == 'clear' and len(args) == 1:
        lv = eng.lval(args[0], st)
        v = eng.read(st, lv)
        if scalar(v):
            eng.write(st, lv, z3.IntVal(0))
            return None
        so = v.sort()
        if so.name().startswith('Mat_'):
            eng.write(st, lv, with_fields(v, dat=z3.K(INT, z3.K(INT, z3.IntVal(0)))))
            return None
        if so.name().startswith('Vec_') and vdat(v).sort().range() == INT:
            eng.write(st, lv, mk(so, vlen(v), z3.K(INT, z3.IntVal(0))))
            return None
        return NotImplemented
    if nm == 'ident' and len(args) == 2:
        lv = eng.lval(args[0], st)
        v = eng.read(st, lv)
        k = eng.as_int(eng.eval(args[1], st))
        eng.oblige(st, 'safety', 'dimension non-negative', k >= 0, n.line)
        d = eng.fresh('ident', acc('dat', v).sort())
        i, j = z3.Int('id!i'), z3.Int('id!j')
        x = sel(sel(d, i), j)
        st.pc.append(z3.ForAll([i, j], x == z3.If(i == j, z3.IntVal(1), z3.IntVal(0)), patterns=[x]))
        eng.write(st, lv, mk(v.sort(), k, k, d))
        return None
    if nm == 'set' and len(args) == 1:
        lv = eng.lval(args[0], st)
        if scalar(eng.read(st, lv)):
            eng.write(st, lv, z3.IntVal(1))
            return None
        return NotImplemented
    if nm == 'SetCoeff' and ty(args[0].type).k == 'ZZX':
        lv = eng.lval(args[0], st)
        i = eng.eval(args[1], st)
        c = eng.eval(args[2], st) if len(args) > 2 else z3.IntVal(1)
        eng.oblige(st, 'safety', 'coefficient index non-negative', i >= 0, n.line)
        eng.write(st, lv, z3.Store(eng.read(st, lv), i, c))
        return None
    if nm == 'coeff' and len(args) == 2 and ty(args[0].type).k == 'ZZX':
        v = eng.eval(args[0], st)
        v = eng.read(st, v) if isinstance(v, LV) else v
        return z3.Select(v, eng.eval(args[1], st))
    if nm == 'mul' and len(args) == 3 and ty(args[0].type).k == 'ZZX':
        a, b = (eng.eval(x, st) for x in args[1:])
        a, b = (eng.read(st, x) if isinstance(x, LV) else x for x in (a, b))
        eng.write(st, eng.lval(args[0], st), POLMUL(a, b))
        return None
    if nm == 'append' and len(args) == 2:
        lv = eng.lval(args[0], st)
        v = eng.read(st, lv)
        x = eng.eval(args[1], st)
        x = eng.read(st, x) if isinstance(x, LV) else x
        if not isinstance(x, z3.ExprRef) or x.sort() != vdat(v).sort().range():
            return NotImplemented
        eng.write(st, lv, mk(v.sort(), vlen(v) + 1, z3.Store(vdat(v), vlen(v), x)))
        return None
    if nm in ('mul', 'add', 'sub') and len(args) == 3:
        a, b = eng.eval(args[1], st), eng.eval(args[2], st)
        a = eng.read(st, a) if isinstance(a, LV) else a
        b = eng.read(st, b) if isinstance(b, LV) else b
        if scalar(a) and scalar(b):
            r = a * b if nm == 'mul' else a + b if nm == 'add' else a - b
            m = lmod(eng, ty(args[0].type), st)
            eng.write(st, eng.lval(args[0], st), r if m is None else r % m)
            return None
        r = linear(eng, {'mul': '*', 'add': '+', 'sub': '-'}[nm], a, b, st, n, lmod(eng, ty(args[0].type), st))
        if r is NotImplemented:
            return r
        eng.write(st, eng.lval(args[0], st), r)
        return None
    if nm == 'InnerProduct' and len(args) == 3:
        a, b = (eng.eval(x, st) for x in args[1:])
        a, b = (eng.read(st, x) if isinstance(x, LV) else x for x in (a, b))
        if kind_of(a) != 'v' or kind_of(b) != 'v':
            return NotImplemented
        eng.write(st, eng.lval(args[0], st), linear(eng, '*', a, b, st, n, lmod(eng, ty(args[0].type), st)))
        return None
    if nm == 'rem' and len(args) == 3:
        a, b = eng.eval(args[1], st), eng.eval(args[2], st)
        eng.oblige(st, 'safety', 'division by zero', b != 0, n.line)
        eng.write(st, eng.lval(args[0], st), eng.fmod(a, b))
        return None
    if nm == 'DivRem':
        if len(args) == 4:     # void DivRem(q, r, a, b)
            a, b = eng.eval(args[2], st), eng.eval(args[3], st)
            eng.oblige(st, 'safety', 'division by zero', b != 0, n.line)
            eng.write(st, eng.lval(args[0], st), eng.fdiv(a, b))
            eng.write(st, eng.lval(args[1], st), eng.fmod(a, b))
            return None
        if len(args) == 3:     # long DivRem(q, a, long b)
            a, b = eng.eval(args[1], st), eng.eval(args[2], st)
            eng.oblige(st, 'safety', 'division by zero', b != 0, n.line)
            eng.write(st, eng.lval(args[0], st), eng.fdiv(a, b))
            return eng.fmod(a, b)
    if nm in ('power_ZZ', 'power') and len(args) == 2 and scalar(b0 := eng.eval(args[0], st)):
        k = eng.eval(args[1], st)
        eng.oblige(st, 'safety', 'exponent non-negative', k >= 0, n.line)
        return POWER(eng.as_int(b0), k)
    if nm == 'power_long' and len(args) == 2:
        b, k = eng.eval(args[0], st), eng.eval(args[1], st)
        eng.oblige(st, 'safety', 'exponent non-negative', k >= 0, n.line)
        r = POWER(b, k)
        eng.range_check(r, ty(n.type), st, n, "power_long")
        return r
    if nm == 'modulus' and not args:
        return MODULUS
    if nm == 'rep' and len(args) == 1:
        v = eng.eval(args[0], st)
        if scalar(v):
            return v
    if nm == 'sqr' and len(args) == 1:
        v = eng.eval(args[0], st)
        return v * v
    if nm == 'IsZero' and len(args) == 1:
        v = eng.eval(args[0], st)
        v = eng.read(st, v) if isinstance(v, LV) else v
        t = ty(args[0].type)
        lifts = not eng.c.flags.get('residue')
        if scalar(v) and not (t.k == 'ZZ_p' and lifts):
            return v == 0
        if scalar(v):      # one of the lifts
            return v % MODULUS == 0
        if kind_of(v) == 'm':
            z = eng.fresh('is_zero', BOOL)
            i, j = z3.Int('iz!i'), z3.Int('iz!j')
            x = sel(sel(acc('dat', v), i), j)
            st.pc.append(z == z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < acc('nr', v), 0 <= j, j < acc('nc', v)), x % MODULUS == 0 if t.a[0].k == 'ZZ_p' and lifts else x == 0), patterns=[x]))
            return z
    if nm == 'IsOne' and len(args) == 1:
        v = eng.eval(args[0], st)
        if scalar(v):
            return v == 1
    if nm == 'sign' and len(args) == 1:
        v = eng.eval(args[0], st)
        return z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0)))
    if nm == 'conv' and len(args) == 1:
        v = eng.eval(args[0], st)
        v = eng.read(st, v) if isinstance(v, LV) else v
        t = ty(n.type)
        s = ty(args[0].type)
        if scalar(v) and t.k in ('ZZ_p', 'zz_p') and eng.c.flags.get('residue') and s.k not in ('ZZ_p', 'zz_p'):
            return eng.as_int(v) % PMOD(st)
        if scalar(v) and t.k in ('ZZ', 'ZZ_p', 'zz_p'):
            return v
        if scalar(v) and t.k == 'int' and s.k == 'ZZ':
            eng.oblige(st, 'safety', 'big integer fits the machine word', z3.And(v >= -(1 << 63), v <= (1 << 63) - 1) if t.signed else z3.And(v >= 0, v < (1 << 64)), n.line)
            return v
        if not scalar(v) and not eng.c.flags.get('residue') and t.k == 'vec' and s.k == 'vec' and t.a[0].k == s.a[0].k == 'mat' and s.a[0].a[0].k == 'ZZ_p' and t.a[0].a[0].k in ('ZZ', 'ZZ_p'):
            # entrywise; the integer of a residue is one of its lifts
            if v.sort() == eng.sorts.sort(t):
                return v
            d = eng.fresh('converted', z3.ArraySort(INT, eng.sorts.sort(t.a[0])))
            j = z3.Int('cv!j')
            x, y = sel(d, j), sel(vdat(v), j)
            st.pc.append(z3.ForAll([j], z3.And(acc('nr', x) == acc('nr', y), acc('nc', x) == acc('nc', y), acc('dat', x) == acc('dat', y)), patterns=[x]))
            return mk(eng.sorts.sort(t), vlen(v), d)
        if not scalar(v) and not eng.c.flags.get('residue') and t.k == 'mat' and s.k == 'mat' and s.a[0].k == 'ZZ_p' and t.a[0].k in ('ZZ', 'ZZ_p'):
            return mk(eng.sorts.sort(t), acc('nr', v), acc('nc', v), acc('dat', v))
        return NotImplemented
    if nm == 'conv' and len(args) == 2:
        v = eng.eval(args[1], st)
        v = eng.read(st, v) if isinstance(v, LV) else v
        lv = eng.lval(args[0], st) if ty(args[0].type).k != 'ptr' else None
        if lv is not None and scalar(v) and scalar(eng.read(st, lv)):
            if eng.c.flags.get('residue') and ty(args[0].type).k in ('ZZ_p', 'zz_p') and ty(args[1].type).k not in ('ZZ_p', 'zz_p'):
                v = eng.as_int(v) % PMOD(st)
            eng.write(st, lv, v)
            return None
        t, s = ty(args[0].type), ty(args[1].type)
        if lv is not None and not scalar(v) and not eng.c.flags.get('residue') and t.k == 'mat' and s.k == 'mat' and s.a[0].k == 'ZZ_p' and t.a[0].k in ('ZZ', 'ZZ_p'):
            eng.write(st, lv, mk(eng.sorts.sort(t), acc('nr', v), acc('nc', v), acc('dat', v)))
            return None
        return NotImplemented
    if nm in ('min', 'max') and len(args) == 2:
        a, b = eng.eval(args[0], st), eng.eval(args[1], st)
        if scalar(a) and scalar(b):
            return z3.If(a <= b, a, b) if nm == 'min' else z3.If(a >= b, a, b)
    if nm in ('abs', 'labs') and len(args) == 1:
        a = eng.eval(args[0], st)
        return z3.If(a >= 0, a, -a)
    if nm == 'log':
        a = eng.eval(args[0], st)
        if z3.is_int(a):
            a = z3.ToReal(a)
        f = z3.Function('ln', z3.RealSort(), z3.RealSort())
        return f(a)
    if nm == 'NumBits' and len(args) == 1:
        v = eng.eval(args[0], st)
        f = z3.Function('numbits', INT, INT)
        r = f(v)
        # |v| < 2^63 iff NumBits(v) <= 63
        st.pc.append((r <= 63) == z3.And(v > -(1 << 63), v < (1 << 63)))
        st.pc.append((r <= 64) == z3.And(v > -(1 << 64), v < (1 << 64)))
        st.pc.append((r <= 62) == z3.And(v > -(1 << 62), v < (1 << 62)))
        st.pc.append(r >= 0)
        return r
    if nm in ('Error', 'TerminalError', 'abort', 'exit', 'LogicError'):
        st.pc.append(z3.BoolVal(False))   # does not return
        st.dead = True
        return None
    if nm in ('fmpz_mat_nrows', 'fmpz_mat_ncols', 'nmod_mat_nrows', 'nmod_mat_ncols'):
        p = eng.eval(args[0], st)
        return acc('nr' if nm.endswith('nrows') else 'nc', eng.read(st, p.lv))
    if nm == 'nmod_mat_entry_ptr':
        p = eng.eval(args[0], st)
        i, j = eng.eval(args[1], st), eng.eval(args[2], st)
        m = eng.read(st, p.lv)
        eng.bounds(st, i, acc('nr', m), n)
        return Ptr(p.lv.ext(('row', i, T('vec', [T('int', (), 64, False)])), None), j, ty(n.type))
    if base == 'mpz_sizeinbase':
        v = val(eng, args[0], st)
        b = eng.eval(args[1], st)
        if not (z3.is_int_value(b) and b.as_long() == 2):
            return NotImplemented
        r = z3.Function('bits', INT, INT)(v)
        nb = z3.Function('bytes', INT, INT)(v)
        st.pc.append(z3.And(r >= 1, r <= (1 << 62), z3.If(v == 0, z3.And(r == 1, nb == 0), nb == (r + 7) / 8)))
        return r
    if nm == 'NumBytes':
        v = val(eng, args[0], st)
        nb = z3.Function('bytes', INT, INT)(v)
        st.pc.append(z3.And(nb >= 0, nb <= (1 << 58), (nb == 0) == (v == 0), nb == z3.Function('bytes', INT, INT)(-v)))
        return nb
    if nm == 'BytesFromZZ' or base == 'mpz_export':
        # little-endian bytes of |v|
        if nm == 'BytesFromZZ':
            p, v, cnt = eng.eval(args[0], st), val(eng, args[1], st), eng.eval(args[2], st)
        else:
            fl = [z3.simplify(eng.eval(args[i], st)) for i in (2, 3, 4, 5)]
            if [z3.is_int_value(x) and x.as_long() for x in fl] not in ([-1, 1, 1, 0], [-1, 1, 0, 0], [-1, 1, -1, 0]):
                return NotImplemented
            p, v = eng.eval(args[0], st), val(eng, args[6], st)
            cnt = z3.Function('bytes', INT, INT)(v)
            cp = eng.eval(args[1], st)
            eng.write(st, eng.deref(cp, st, n), cnt)
        o = eng.read(st, p.lv)
        eng.oblige(st, 'safety', 'byte buffer large enough', z3.And(p.off >= 0, p.off + cnt <= vlen(o), cnt >= 0), n.line)
        nd = eng.fresh('bytes.dat', vdat(o).sort())
        q = z3.Int('by!q')
        st.pc.append(z3.ForAll([q], z3.Implies(z3.Or(q < p.off, q >= p.off + cnt), sel(nd, q) == sel(vdat(o), q)), patterns=[sel(nd, q)]))
        le = z3.Function('little_endian', vdat(o).sort(), INT, INT, INT)
        st.pc.append(z3.Implies(cnt >= z3.Function('bytes', INT, INT)(v), le(nd, p.off, cnt) == z3.If(v >= 0, v, -v)))
        eng.write(st, p.lv, with_fields(o, dat=nd))
        return None
    if base == 'mpz_import' or nm == 'ZZFromBytes':
        if nm == 'ZZFromBytes':
            p, cnt = eng.eval(args[1], st), eng.eval(args[2], st)
        else:
            fl = [z3.simplify(eng.eval(args[i], st)) for i in (2, 3, 4, 5)]
            if [z3.is_int_value(x) and x.as_long() for x in fl] not in ([-1, 1, 1, 0], [-1, 1, 0, 0], [-1, 1, -1, 0]):
                return NotImplemented
            p, cnt = eng.eval(args[6], st), eng.eval(args[1], st)
        o = eng.read(st, p.lv)
        eng.oblige(st, 'safety', 'bytes read inside the buffer', z3.And(p.off >= 0, p.off + cnt <= vlen(o), cnt >= 0), n.line)
        r = z3.Function('little_endian', vdat(o).sort(), INT, INT, INT)(vdat(o), p.off, cnt)
        st.pc.append(r >= 0)
        eng.write(st, cell(eng, args[0], st), r)
        return None
    if nm in ('fmpz_set_mpz', 'fmpz_get_mpz'):
        v = val(eng, args[1], st)
        eng.write(st, cell(eng, args[0], st), v)
        return None
    if nm in ('fmpz_mat_entry',):
        p = eng.eval(args[0], st)
        i, j = eng.eval(args[1], st), eng.eval(args[2], st)
        m = eng.read(st, p.lv)
        eng.bounds(st, i, acc('nr', m), n)
        eng.bounds(st, j, acc('nc', m), n)
        return Ptr(p.lv.ext(('cell', i, j), T('ZZ')), None, ty(n.type))
    if nm == 'transpose' and len(args) == 2:
        v = val(eng, args[1], st)
        d = eng.fresh('transposed', acc('dat', v).sort())
        i, j = z3.Int('tr!i'), z3.Int('tr!j')
        x = sel(sel(d, i), j)
        st.pc.append(z3.ForAll([i, j], x == sel(sel(acc('dat', v), j), i), patterns=[x]))
        eng.write(st, eng.lval(args[0], st), mk(v.sort(), acc('nc', v), acc('nr', v), d))
        return None
    if nm == 'swap' and len(args) == 2:
        a, b = eng.lval(args[0], st), eng.lval(args[1], st)
        x, y = eng.read(st, a), eng.read(st, b)
        eng.write(st, a, y)
        eng.write(st, b, x)
        return None
    return NotImplemented


ARR = z3.ArraySort(INT, INT)
ARR2 = z3.ArraySort(INT, ARR)
# product of two integer matrices (entry functions, inner dimension)
MM = z3.Function('matrix_product', ARR2, ARR2, INT, ARR2)


def kind_of(v):
    if not isinstance(v, z3.ExprRef):
        return None
    if scalar(v):
        return 's'
    sn = v.sort().name() if v.sort().kind() == z3.Z3_DATATYPE_SORT else ''
    if sn.startswith('Vec_') and vdat(v).sort() == ARR:
        return 'v'
    if sn.startswith('Mat_') and acc('dat', v).sort() == ARR2:
        return 'm'
    return None


def linear(eng, op, a, b, st, n, mod):
    """NTL's vector and matrix arithmetic (entries reduced by mod in residue mode)"""
    from .spec import DOT
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None or ka == kb == 's':
        return NotImplemented
    m = (lambda x: x % mod) if mod is not None else (lambda x: x)
    i, j = z3.Int('la!i'), z3.Int('la!j')
    if op in '+-' and ka == kb:
        f = (lambda x, y: x + y) if op == '+' else (lambda x, y: x - y)
        if ka == 'v':
            eng.oblige(st, 'safety', 'vectors of the same length', vlen(a) == vlen(b), n.line)
            d = eng.fresh('vecsum', ARR)
            st.pc.append(z3.ForAll([i], sel(d, i) == m(f(sel(vdat(a), i), sel(vdat(b), i))), patterns=[sel(d, i)]))
            return mk(a.sort(), vlen(a), d)
        eng.oblige(st, 'safety', 'matrices of the same shape', z3.And(acc('nr', a) == acc('nr', b), acc('nc', a) == acc('nc', b)), n.line)
        d = eng.fresh('matsum', ARR2)
        x = sel(sel(d, i), j)
        st.pc.append(z3.ForAll([i, j], x == m(f(sel(sel(acc('dat', a), i), j), sel(sel(acc('dat', b), i), j))), patterns=[x]))
        return with_fields(a, dat=d)
    if op != '*':
        return NotImplemented
    if ka == 's' or kb == 's':
        k, v = (a, b) if ka == 's' else (b, a)
        k = eng.as_int(k)
        if kind_of(v) == 'v':
            d = eng.fresh('vecscaled', ARR)
            st.pc.append(z3.ForAll([i], sel(d, i) == m(k * sel(vdat(v), i)), patterns=[sel(d, i)]))
            return mk(v.sort(), vlen(v), d)
        d = eng.fresh('matscaled', ARR2)
        x = sel(sel(d, i), j)
        st.pc.append(z3.ForAll([i, j], x == m(k * sel(sel(acc('dat', v), i), j)), patterns=[x]))
        return with_fields(v, dat=d)
    if ka == 'v' and kb == 'v':
        eng.oblige(st, 'safety', 'inner product: vectors of the same length', vlen(a) == vlen(b), n.line)
        return m(DOT(vdat(a), vdat(b), vlen(a)))
    if ka == 'm' and kb == 'v':
        eng.oblige(st, 'safety', 'matrix times vector: matching sizes', acc('nc', a) == vlen(b), n.line)
        d = eng.fresh('matvec', ARR)
        st.pc.append(z3.ForAll([i], sel(d, i) == m(DOT(sel(acc('dat', a), i), vdat(b), acc('nc', a))), patterns=[sel(d, i)]))
        return mk(b.sort(), acc('nr', a), d)
    if ka == 'm' and kb == 'm':
        eng.oblige(st, 'safety', 'matrix product: matching sizes', acc('nc', a) == acc('nr', b), n.line)
        if mod is not None:
            d = z3.Function('matrix_product_mod', ARR2, ARR2, INT, INT, ARR2)(acc('dat', a), acc('dat', b), acc('nc', a), mod)
        else:
            d = MM(acc('dat', a), acc('dat', b), acc('nc', a))
        return mk(a.sort(), acc('nr', a), acc('nc', b), d)
    return NotImplemented


def ordered_erase(eng, st, old, new, pos):
    """std::map is traversed in the order of the keys: without one key the later ones move up"""
    i = z3.Int('oe!i')
    st.pc.append(eng.map_size(new) == eng.map_size(old) - 1)
    x, y = eng.map_key(new, i), eng.map_key(old, i)
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < pos), x == y), patterns=[x]))
    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(pos <= i, i < eng.map_size(old) - 1), x == eng.map_key(old, i + 1)), patterns=[x]))


def lmod(eng, t, st):
    """the modulus when entries are canonical residues"""
    while t.k in ('vec', 'mat'):
        t = t.a[0]
    return PMOD(st) if t.k in ('ZZ_p', 'zz_p') and eng.c.flags.get('residue') else None


def operator(eng, nm, n, st, args):
    op = nm[len('operator'):]
    if op == '=' and eng.is_this(eng.strip(args[0])):
        x = eng.strip(args[1])
        if x.k not in ('CXXTemporaryObjectExpr', 'CXXConstructExpr') or [a for a in x.inner if a is not None]:
            return NotImplemented
        eng.reset_object(st)
        return Str('this')
    if op == '<<=' and len(args) == 2:
        o = eng.eval(args[0], st)
        return o if isinstance(o, Str) else NotImplemented
    if op == '=':
        v = eng.eval(args[1], st)
        if isinstance(v, LV):
            v = eng.read(st, v)
        lv = eng.lval(args[0], st)
        if ty(args[0].type).k == 'ZZX' and z3.is_int(v):
            v = z3.Store(z3.K(INT, z3.IntVal(0)), 0, v)
        if isinstance(v, Iter):
            st.store[lv.root] = v
            return lv
        if lv.path and lv.path[-1][0] == 'row' and isinstance(v, z3.ExprRef) and v.sort().name().startswith('Vec_'):
            eng.oblige(st, 'safety', 'a row keeps its length', vlen(v) == vlen(eng.read(st, lv)), n.line)
        eng.write(st, lv, v)
        return lv
    if op in ('<<', '>>') and len(args) == 2:
        return stream(eng, op, n, st, args)
    if op in ('+=', '-=', '*=', '/=', '%='):
        b = eng.eval(args[1], st)
        b = eng.read(st, b) if isinstance(b, LV) else b
        lv = eng.lval(args[0], st)
        a = eng.read(st, lv)
        r = arith(eng, op[0], a, b, st, n, ty(args[0].type))
        if r is NotImplemented and isinstance(a, z3.ExprRef):
            r = linear(eng, op[0], a, b, st, n, lmod(eng, ty(args[0].type), st))
        if r is NotImplemented:
            return r
        eng.write(st, lv, r)
        return lv
    if op in ('++', '--'):
        lv = eng.lval(args[0], st)
        v = eng.read(st, lv)
        if isinstance(v, Iter):
            if v.pos is None or op == '--':
                return NotImplemented
            eng.oblige(st, 'safety', 'map traversal: not past the end', z3.Not(v.end), n.line)
            eng.oblige(st, 'safety', 'map traversal: the keys stay as they are', acc('dom', eng.read(st, v.lv)) == v.dom, n.line)
            eng.write(st, lv, eng.traversal(v.lv, v.dom, v.pos + 1))
            return v if len(args) == 2 else lv      # the postfix form has a dummy argument
        eng.write(st, lv, v + 1 if op == '++' else v - 1)
        return lv
    if len(args) == 2 and op in ('+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>='):
        a, b = eng.eval(args[0], st), eng.eval(args[1], st)
        a = eng.read(st, a) if isinstance(a, LV) else a
        b = eng.read(st, b) if isinstance(b, LV) else b
        if isinstance(a, Iter) and isinstance(b, Iter) and op in ('==', '!='):
            if b.key is None:
                r = a.end
            elif a.key is None:
                r = b.end
            else:
                raise Unsupported('iterator comparison')
            return r if op == '==' else z3.Not(r)
        if scalar(a) and scalar(b):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return eng.binop(op, a, b, T('bool'), st, n)
            return arith(eng, op, a, b, st, n, ty(args[0].type))
        if op in '+-*':
            return linear(eng, op, a, b, st, n, lmod(eng, ty(n.type), st))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort() and op in ('==', '!=') and a.sort().name().startswith('Vec_'):
            r = vec_eq(eng, a, b)
            return r if op == '==' else z3.Not(r)
        return NotImplemented
    if len(args) == 1 and op == '-':
        a = eng.eval(args[0], st)
        if scalar(a):
            return -a
    return NotImplemented


def stream(eng, op, n, st, args):
    """terminal output is dropped; text written to a string stream is kept and can be read back as vectors of integers"""
    a = eng.strip(args[0])
    if a.k in ('CXXOperatorCallExpr', 'CallExpr') and a.k == 'CXXOperatorCallExpr':
        lv = operator(eng, 'operator' + op, a, st, a.inner[1:])
    elif a.k == 'DeclRefExpr' and a.ref and a.ref.name in ('cout', 'cerr', 'clog'):
        return Str('terminal')
    else:
        lv = eng.lval(a, st)
    if isinstance(lv, Str):
        return lv
    b = eng.read(st, lv) if isinstance(lv, LV) else None
    if not isinstance(b, Buf):
        return NotImplemented
    if op == '<<':
        x = eng.eval(args[1], st)
        if isinstance(x, Str) and str(x.v).startswith('"'):
            x = ast.literal_eval(x.v)
        elif isinstance(x, z3.ExprRef) and z3.is_int_value(z3.simplify(x)):
            x = str(z3.simplify(x))
        elif eng.strip(args[1]).k == 'DeclRefExpr' and eng.strip(args[1]).ref.name == 'endl':
            x = '\n'
        else:
            return NotImplemented
        st.store[lv.root] = Buf(b.text + x)
        return lv
    t = ty(args[1].type)
    if t.k == 'vec' and t.a[0].k in ('int', 'ZZ'):
        m = re.match(r'^\s*\[([-0-9\s]*)\]', b.text)
        if not m:
            eng.oblige(st, 'safety', 'readable text in the stream', z3.BoolVal(False), n.line)
            st.pc.append(z3.BoolVal(False))
            st.dead = True
            return lv
        xs = [int(x) for x in m.group(1).split()]
        d = z3.K(INT, z3.IntVal(0))
        for i, x in enumerate(xs):
            d = z3.Store(d, i, z3.IntVal(x))
        eng.write(st, eng.lval(args[1], st), mk(eng.sorts.sort(t), z3.IntVal(len(xs)), d))
        st.store[lv.root] = Buf(b.text[m.end():])
        return lv
    return NotImplemented


def arith(eng, op, a, b, st, n, t):
    if not (scalar(a) and scalar(b)):
        return NotImplemented
    a, b = eng.as_int(a), eng.as_int(b)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op in '/%' and t.k == 'ZZ' or t.k == 'int':
        eng.oblige(st, 'safety', 'division by zero', b != 0, n.line)
        return eng.fdiv(a, b) if op == '/' else eng.fmod(a, b)
    return NotImplemented


def member_call(eng, nm, n, st):
    me = eng.strip(n.inner[0])
    args = n.inner[1:]
    if me.inner and eng.is_this(eng.strip(me.inner[0])):
        return NotImplemented
    obj = me.inner[0]
    if me.arrow:
        p = eng.eval(obj, st)
        if not isinstance(p, Ptr):
            return NotImplemented
        lv = eng.deref(p, st, n)
    else:
        lv = eng.lval(obj, st)
    v = eng.read(st, lv)
    if not isinstance(v, z3.ExprRef):
        return NotImplemented
    sn = v.sort().name()
    if nm == 'swap' and len(args) == 1 and sn.startswith(('Vec_', 'Mat_', 'Map_')):
        other = eng.lval(args[0], st)
        w = eng.read(st, other)
        eng.write(st, lv, w)
        eng.write(st, other, v)
        for r, it in list(st.store.items()):      # iterators follow the elements
            if isinstance(it, Iter):
                for x, y in ((lv, other), (other, lv)):
                    if it.lv.root == x.root and str(it.lv.path) == str(x.path):
                        st.store[r] = Iter(y, it.key, it.end, it.pos, it.dom)
                        break
        return None
    if sn.startswith('Vec_'):
        if nm in ('length', 'size'):
            return vlen(v)
        if nm == 'SetLength':
            k = eng.as_int(eng.eval(args[0], st))
            eng.oblige(st, 'safety', 'length non-negative', k >= 0, n.line)
            es = vdat(v).sort().range()
            old = vlen(v)
            if len(args) == 2:
                x = eng.eval(args[1], st)
                i = z3.Int('sl!i')
                nd = eng.fresh('SetLength.dat', vdat(v).sort())
                st.pc.append(z3.ForAll([i], sel(nd, i) == z3.If(i < old, sel(vdat(v), i), x), patterns=[sel(nd, i)]))
                # NTL: entries beyond the old *maximal* length are set; for a fresh vector all of them
                eng.write(st, lv, mk(v.sort(), k, nd))
                return None
            # existing entries keep their values; new entries default (integers of class type: 0; longs: unspecified)
            if z3.is_int_value(old) and old.as_long() == 0 and es == INT and ty(obj.type).k == 'vec' and ty(obj.type).a[0].k in ('ZZ', 'ZZ_p', 'zz_p') and eng.c.flags.get('fresh_zero', True):
                eng.write(st, lv, mk(v.sort(), k, z3.K(INT, z3.IntVal(0))))
            else:
                eng.write(st, lv, mk(v.sort(), k, vdat(v)))
            return None
        if nm in ('get', 'at'):
            i = eng.eval(args[0], st)
            eng.bounds(st, i, vlen(v), n)
            return sel(vdat(v), i)
        if nm == 'put':
            i = eng.eval(args[0], st)
            x = eng.eval(args[1], st)
            eng.bounds(st, i, vlen(v), n)
            eng.write(st, lv.ext(('idx', i), None), x)
            return None
        if nm == 'kill':
            eng.write(st, lv, mk(v.sort(), z3.IntVal(0), vdat(v)))
            return None
        if nm == 'SetMaxLength':
            eng.eval(args[0], st)
            return None
    if sn.startswith('Mat_'):
        if nm == 'NumRows':
            return acc('nr', v)
        if nm == 'NumCols':
            return acc('nc', v)
        if nm == 'get':
            i, j = eng.eval(args[0], st), eng.eval(args[1], st)
            eng.bounds(st, i, acc('nr', v), n)
            eng.bounds(st, j, acc('nc', v), n)
            return sel(sel(acc('dat', v), i), j)
        if nm == 'put' and len(args) == 3:
            i, j = eng.eval(args[0], st), eng.eval(args[1], st)
            x = eng.eval(args[2], st)
            x = eng.read(st, x) if isinstance(x, LV) else x
            eng.bounds(st, i, acc('nr', v), n)
            eng.bounds(st, j, acc('nc', v), n)
            eng.write(st, lv.ext(('cell', i, j), None), x)
            return None
        if nm == 'SetDims':
            r, c = eng.eval(args[0], st), eng.eval(args[1], st)
            eng.oblige(st, 'safety', 'dimensions non-negative', z3.And(r >= 0, c >= 0), n.line)
            on, oc = acc('nr', v), acc('nc', v)
            es = acc('dat', v).sort().range().range()
            if z3.is_int_value(on) and on.as_long() == 0 and es == INT:
                nd = z3.K(INT, z3.K(INT, z3.IntVal(0)))      # fresh storage: zero
            else:
                nd = eng.fresh('SetDims.dat', acc('dat', v).sort())   # contents unspecified unless the shape is unchanged
                i = z3.Int('sd!i')
                st.pc.append(z3.Implies(z3.And(on == r, oc == c), nd == acc('dat', v)))
                if es == INT:     # another number of columns: the storage is new, and new elements are zero
                    st.pc.append(z3.Implies(oc != c, nd == z3.K(INT, z3.K(INT, z3.IntVal(0)))))
            eng.write(st, lv, mk(v.sort(), r, c, nd))
            return None
        if nm == 'kill':
            eng.write(st, lv, mk(v.sort(), z3.IntVal(0), z3.IntVal(0), acc('dat', v)))
            return None
    if sn.startswith('Map_'):
        mt = ty(obj.type)
        mt = mt.a[0] if mt.k == 'ptr' else mt
        kt = mt.a[0] if mt.k == 'map' else None
        if nm == 'find':
            k = eng.eval(args[0], st)
            k = eng.read(st, k) if isinstance(k, LV) else k
            key = eng.key_of(st, k, kt)
            return Iter(lv, key, z3.Not(sel(acc('dom', v), key)))
        if nm in ('begin', 'cbegin'):
            eng.enumerate_map(st, acc('dom', v))
            return eng.traversal(lv, acc('dom', v), z3.IntVal(0))
        if nm in ('size', 'empty'):
            eng.enumerate_map(st, acc('dom', v))
            r = eng.map_size(acc('dom', v))
            return r == 0 if nm == 'empty' else r
        if nm in ('end', 'cend'):
            return Iter(lv, None, z3.BoolVal(True))
        if nm == 'insert' and len(args) == 2:
            a, b = eng.eval(args[0], st), eng.eval(args[1], st)
            if not (isinstance(a, Iter) and isinstance(b, Iter) and a.pos is not None and z3.is_int_value(a.pos) and a.pos.as_long() == 0 and b.key is None and a.lv.root == b.lv.root and str(a.lv.path) == str(b.lv.path)):
                return NotImplemented
            src = eng.read(st, a.lv)
            if src.sort() != v.sort():
                return NotImplemented
            d, w = eng.fresh('insert.dom', acc('dom', v).sort()), eng.fresh('insert.val', acc('val', v).sort())
            k = z3.Const('in!k', acc('dom', v).sort().domain())
            st.pc.append(z3.ForAll([k], sel(d, k) == z3.Or(sel(acc('dom', v), k), sel(acc('dom', src), k)), patterns=[sel(d, k)]))
            st.pc.append(z3.ForAll([k], sel(w, k) == z3.If(sel(acc('dom', v), k), sel(acc('val', v), k), sel(acc('val', src), k)), patterns=[sel(w, k)]))
            eng.write(st, lv, mk(v.sort(), d, w))
            return None
        if nm == 'clear':
            eng.write(st, lv, mk(v.sort(), z3.K(acc('dom', v).sort().domain(), z3.BoolVal(False)), acc('val', v)))
            return None
        if nm == 'erase':
            k = eng.eval(args[0], st)
            k = eng.read(st, k) if isinstance(k, LV) else k
            key = k.key if isinstance(k, Iter) else eng.key_of(st, k, kt)
            if isinstance(k, Iter):
                eng.oblige(st, 'safety', 'erased key is in the map', sel(acc('dom', v), key), n.line)
            old, new = acc('dom', v), z3.Store(acc('dom', v), key, z3.BoolVal(False))
            eng.write(st, lv, mk(v.sort(), new, acc('val', v)))
            if isinstance(k, Iter) and k.pos is not None and k.dom.eq(old):
                eng.enumerate_map(st, new)
                ordered_erase(eng, st, old, new, k.pos)
                for r, it in list(st.store.items()):      # the other iterators stay where they are
                    if isinstance(it, Iter) and it.pos is not None and it.dom.eq(old) and it.lv.root == lv.root and str(it.lv.path) == str(lv.path):
                        st.store[r] = eng.traversal(it.lv, new, z3.simplify(z3.If(it.pos > k.pos, it.pos - 1, it.pos)))
            return None
    return NotImplemented
