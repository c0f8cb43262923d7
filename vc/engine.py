"""Verification-condition generator: forward symbolic execution of the clang AST of the code in /repo, with contracts.

* loops are cut at user invariants (base, preservation, use; no unrolling);
* calls to functions under contract use the contract only; other repository functions are inlined from their source;
* library calls (NTL, GMP, FLINT, std) have the semantics in builtins.py (trusted, listed in the evidence);
* every obligation is (hypotheses |- goal), discharged by an SMT solver in solve.py.
"""
import z3
from . import front as F
from .front import Unsupported, T, ty

INT = z3.IntSort()
BOOL = z3.BoolSort()
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1
LENMAX = 1 << 60


# ------------------------------------------------------------------ sorts
class Sorts:
    """z3 sorts for C++ types. `opaque` maps a type key to the name of an uninterpreted sort."""

    def __init__(self, opaque=None):
        self.opaque = opaque or {}
        self.c = {}
        self.u = {}

    def usort(self, name):
        if name not in self.u:
            self.u[name] = z3.DeclareSort(name)
        return self.u[name]

    def sort(self, t):
        k = t.key()
        if k in self.c:
            return self.c[k]
        s = self._sort(t, k)
        self.c[k] = s
        return s

    def _sort(self, t, k):
        if k in self.opaque:
            o = self.opaque[k]
            return o if isinstance(o, z3.SortRef) else self.usort(o)
        if t.k in ('int', 'ZZ', 'ZZ_p', 'zz_p', 'nmod_t'):
            return INT
        if t.k == 'ZZX':
            return z3.ArraySort(INT, INT)
        if t.k == 'bool':
            return BOOL
        if t.k == 'double':
            return z3.RealSort()
        nm = k.replace('<', '_').replace('>', '').replace(',', '_').replace(' ', '').replace(':', '_').replace('*', 'P')
        if t.k == 'vec':
            es = self.sort(t.a[0])
            d = z3.Datatype('Vec_' + nm)
            d.declare('mk_' + str(d.name), ('len', INT), ('dat', z3.ArraySort(INT, es)))
            return d.create()
        if t.k in ('mat', 'fmpz_mat', 'nmod_mat'):
            es = self.sort(t.a[0]) if t.k == 'mat' else INT
            d = z3.Datatype('Mat_' + nm)
            fl = [('nr', INT), ('nc', INT), ('dat', z3.ArraySort(INT, z3.ArraySort(INT, es)))]
            if t.k == 'nmod_mat':
                fl.append(('mod', INT))
            d.declare('mk_' + str(d.name), *fl)
            return d.create()
        if t.k == 'pair':
            d = z3.Datatype('Pair_' + nm)
            d.declare('mk_' + str(d.name), ('first', self.sort(t.a[0])), ('second', self.sort(t.a[1])))
            return d.create()
        if t.k == 'map':
            ks = self.keysort(t.a[0])
            d = z3.Datatype('Map_' + nm)
            d.declare('mk_' + str(d.name), ('dom', z3.ArraySort(ks, BOOL)), ('val', z3.ArraySort(ks, self.sort(t.a[1]))))
            return d.create()
        return self.usort('S_' + nm)

    def keysort(self, t):
        if t.k == 'int':
            return INT
        if t.key() in self.opaque:
            return self.sort(t)
        return self.usort('Key_' + t.key().replace('<', '_').replace('>', ''))


def acc(name, term):
    """datatype accessor with eager simplification over constructors and ite"""
    s = term.sort()
    c = s.constructor(0)
    for i in range(c.arity()):
        a = s.accessor(0, i)
        if a.name() == name:
            if z3.is_app(term) and term.decl().eq(c):
                return term.arg(i)
            if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
                x, y = acc(name, term.arg(1)), acc(name, term.arg(2))
                return x if x.eq(y) else z3.If(term.arg(0), x, y)
            return a(term)
    raise Unsupported('accessor ' + name + ' on ' + str(s))


_ite = {}


def has_ite(t):
    """does the term contain a conditional or a connective?"""
    k = t.get_id()
    if k in _ite and _ite[k][0].eq(t):
        return _ite[k][1]
    if z3.is_quantifier(t):
        r = True
    elif not z3.is_app(t):
        r = False
    elif t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ):
        r = True
    else:
        r = any(has_ite(c) for c in t.children())
    _ite[k] = (t, r)
    return r


def mk(sort, *args):
    return sort.constructor(0)(*args)


def with_fields(v, **kw):
    """the record v with some fields replaced"""
    so = v.sort()
    c = so.constructor(0)
    return c(*[kw[so.accessor(0, i).name()] if so.accessor(0, i).name() in kw else acc(so.accessor(0, i).name(), v) for i in range(c.arity())])


def vlen(v):
    return acc('len', v)


def vdat(v):
    return acc('dat', v)


def at(v, i):
    return sel(vdat(v), i)


def mat_at(m, i, j):
    return sel(sel(acc('dat', m), i), j)


def sel(a, i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        if a.arg(1).eq(i):
            return a.arg(2)
    return z3.Select(a, i)


# ------------------------------------------------------------------ lvalues and pointers
class LV:
    __slots__ = ('root', 'path', 't')

    def __init__(s, root, path, t):
        s.root, s.path, s.t = root, path, t

    def ext(s, step, t):
        return LV(s.root, s.path + (step,), t)

    def __repr__(s):
        return f'LV({s.root},{s.path})'


class Ptr:
    """pointer into (or to) an object: lv is the container (vec sort) and off an index, or off is None for a plain object"""
    __slots__ = ('lv', 'off', 't')

    def __init__(s, lv, off, t):
        s.lv, s.off, s.t = lv, off, t


class Iter:
    """std::map iterator: (map lvalue, key term, atend term)"""
    __slots__ = ('lv', 'key', 'end', 'pos', 'dom')

    def __init__(s, lv, key, end, pos=None, dom=None):
        """pos, dom: position in the traversal of the keys dom, for iterators obtained from begin()"""
        s.lv, s.key, s.end, s.pos, s.dom = lv, key, end, pos, dom


class Buf:
    """contents of a string stream (known text)"""
    def __init__(s, text=''):
        s.text = text

    def __eq__(s, o):
        return isinstance(o, Buf) and s.text == o.text

    def __hash__(s):
        return hash(s.text)


class Str:
    def __init__(s, v):
        s.v = v


class State:
    def __init__(s):
        s.store = {}    # var id -> value
        s.names = {}    # var id -> (name, type)
        s.pc = []
        s.alias = {}    # var id -> LV (C++ references)
        s.ghost = {}

    def copy(s):
        o = State()
        o.store = dict(s.store)
        o.names = dict(s.names)
        o.pc = list(s.pc)
        o.alias = dict(s.alias)
        o.ghost = dict(s.ghost)
        return o


class Obligation:
    __slots__ = ('name', 'func', 'kind', 'hyps', 'goal', 'line', 'status', 'time', 'backend', 'detail', 'timeout', 'props')

    def __init__(s, func, kind, name, hyps, goal, line):
        s.func, s.kind, s.name, s.hyps, s.goal, s.line = func, kind, name, hyps, goal, line
        s.status, s.time, s.backend, s.detail, s.timeout, s.props = None, 0.0, None, '', None, None

    @property
    def label(s):
        return f'{s.func}: {s.name}'


class Env:
    """what contract clauses see: variables by their name in the contract, old (entry) values, loop-entry values"""

    def __init__(s, eng, st, pre=None, result=None, extra=None):
        s.eng, s.st, s.pre_st, s.result = eng, st, pre, result
        s.x = extra or {}

    def __getitem__(s, name):
        return s.eng.lookup(s.st, name)

    def has(s, name):
        try:
            s.eng.lookup(s.st, name)
            return True
        except Unsupported:
            return False

    def lv(s, name):
        return s.eng.lookup_lv(s.st, name)

    def head_val(s, name):
        """value at the start of the current iteration (loop hints only)"""
        return s.eng.lookup(s.head, name)

    def old(s, name):
        return s.eng.lookup(s.eng.entry, name)

    def pre(s, name):
        return s.eng.lookup(s.pre_st, name)

    def f(s, name):
        return s.eng.field(s.st, name)

    def oldf(s, name):
        return s.eng.field(s.eng.entry, name)

    def obj(s, name):
        """object behind a pointer parameter"""
        v = s[name]
        if isinstance(v, Ptr):
            return s.eng.read(s.st, v.lv)
        return v

    def oldobj(s, name):
        v = s.eng.lookup(s.eng.entry, name)
        if isinstance(v, Ptr):
            return s.eng.read(s.eng.entry, v.lv)
        return v

    def preobj(s, name):
        v = s.eng.lookup(s.pre_st, name)
        if isinstance(v, Ptr):
            return s.eng.read(s.pre_st, v.lv)
        return v


def alpha_eq(a, b):
    if a.eq(b):
        return True
    if z3.is_quantifier(a) and z3.is_quantifier(b):
        return a.is_forall() == b.is_forall() and a.num_vars() == b.num_vars() and all(a.var_sort(i) == b.var_sort(i) for i in range(a.num_vars())) and alpha_eq(a.body(), b.body())
    if z3.is_app(a) and z3.is_app(b) and a.num_args() == b.num_args() and a.decl().eq(b.decl()):
        return all(alpha_eq(a.arg(i), b.arg(i)) for i in range(a.num_args()))
    return False


class Cut:
    """an intermediate assertion given as a hint: an obligation of its own"""

    def __init__(s, name, f, last=None):
        """last: prove it from the last so many hypotheses only"""
        s.name, s.f, s.last = name, f, last


class Loop:
    def __init__(s, inv, dec=None, hints=None, post=None, keep=(), pre_hints=None, follows=(), head=None):
        """head: facts used by the obligations inside the body; follows: iterators traversing a map whose keys change in the loop; they stand in the current keys at every iteration"""
        s.inv, s.dec, s.hints, s.post, s.keep, s.pre_hints, s.follows, s.head = inv, dec, hints, post, keep, pre_hints, follows, head


class Contract:
    """contract of one function.
    src/name/params: where it is and which overload (list of parameter type keys, or None)
    requires(e), ensures(e): lists of z3 formulas or (label, formula); loops: {ordinal: Loop}
    modifies: parameter names (reference or pointer) / 'this.field' the function may change
    """

    def __init__(s, src, name, params=None, requires=None, ensures=None, loops=None, modifies=(), opaque=None, axioms=(), text=None,
                 overflow=False, alias=None, label=None, hints=None, decreases=None, ret_hint=None, inline=(), timeout=None, handlers=None,
                 returns=None, flags=None, use_only=False, termination=True, fields=None):
        s.src, s.name, s.params = src, name, params
        s.requires, s.ensures = requires or (lambda e: []), ensures or (lambda e: [])
        s.loops, s.modifies, s.opaque, s.axioms, s.text = loops or {}, modifies, opaque or {}, axioms, text
        s.overflow, s.alias = overflow, alias or {}
        s.label = label or name
        s.hints, s.decreases, s.ret_hint, s.inline, s.timeout = hints, decreases, ret_hint, inline, timeout
        s.handlers = handlers or {}
        s.flags = flags or {}
        s.returns = returns
        s.use_only = use_only
        s.termination = termination
        s.fields = fields or {}


def rawtype(s):
    return (s or '').replace('NTL::', '').replace('const ', '').replace(' ', '').replace('*const', '*')


def pmatch(pat, types):
    """parameter types against a pattern list: keys, or '=text' for the spelling in the source"""
    if len(pat) != len(types):
        return False
    for p, t in zip(pat, types):
        if p.startswith('='):
            if rawtype(p[1:]) != rawtype(t):
                return False
        elif ty(t).key() != p:
            return False
    return True


def find_function(c):
    fns = F.functions(c.src, c.name, c.text)
    if c.params is not None:
        fns = [f for f in fns if pmatch(c.params, [p.raw['qt'] if q.startswith('=') else p.type for p, q in zip(F.params(f), c.params)]) and len(F.params(f)) == len(c.params)]
    if len(fns) != 1:
        raise Unsupported(f'{c.src}:{c.name}: {len(fns)} definitions match {c.params}')
    return fns[0]


def norm(l):
    out = []
    for i, x in enumerate(l):
        out.append(x if isinstance(x, tuple) else (f'clause {i}', x))
    return out


# names of functions of the logic that a parameter could have as well
RESERVED = {'len', 'dat', 'nr', 'nc', 'mod', 'mk', 'first', 'second', 'dom', 'val', 'power', 'dot', 'sum', 'factorial', 'choose', 'corank', 'ln', 'bits', 'bytes', 'determinant', 'inclusion', 'substituted', 'numbits', 'divergence', 'power_of'}


class Engine:
    def __init__(self, contract, registry, lock=None, callees=None):
        self.c = contract
        self.registry = registry          # name -> list of contracts usable at call sites
        self.lock = lock or {}
        self.obls = []
        self.n = 0
        self.loop_no = {}
        self.sorts = Sorts(contract.opaque)
        self.guards = []
        self.entry = None
        self.depth = 0
        self.used_builtins = set()
        self.used_contracts = set()
        self.inlined = set()
        self.inl_hash = {}
        self.flat = {}
        self.covers = []
        self.rename = {}
        self.cur_label = contract.label
        self.key_ax = []

    # ---------------- fresh symbols
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const(f'{name}!{self.n}', sort)

    def fresh_t(self, name, t):
        return self.fresh(name, self.sorts.sort(t))

    def wf(self, st, v):
        """objects that exist in memory have lengths in [0, 2^60] (trusted; listed in the evidence)"""
        if not isinstance(v, z3.ExprRef) or v.sort().kind() != z3.Z3_DATATYPE_SORT:
            return
        sn = v.sort().name()
        if sn.startswith('Vec_'):
            n = vlen(v)
            if not z3.is_int_value(n):
                st.pc.append(z3.And(n >= 0, n <= LENMAX))
            es = vdat(v).sort().range()
            if es.kind() == z3.Z3_DATATYPE_SORT and es.name().startswith('Vec_'):
                i = z3.Int('wf!i')
                x = sel(vdat(v), i)
                st.pc.append(z3.ForAll([i], z3.And(vlen(x) >= 0, vlen(x) <= LENMAX), patterns=[x]))
        elif sn.startswith('Mat_'):
            for a in ('nr', 'nc'):
                n = acc(a, v)
                if not z3.is_int_value(n):
                    st.pc.append(z3.And(n >= 0, n <= LENMAX))
            if v.sort().constructor(0).arity() == 4:
                st.pc.append(z3.And(acc('mod', v) >= 1, acc('mod', v) < (1 << 64)))

    # ---------------- obligations
    def oblige(self, st, kind, name, goal, line=None):
        if z3.is_true(z3.simplify(goal)) and kind == 'safety':
            self.trivial = getattr(self, 'trivial', 0) + 1
        o = Obligation(self.c.label, kind, f'{name}' + (f' (line {line})' if line else ''), list(st.pc) + list(self.guards), goal, line)
        o.timeout = self.c.timeout
        for f in reversed(st.pc[-8:]):
            if alpha_eq(f, goal):   # a hypothesis as it stands: no need for the rest
                o.hyps = [f]
                break
        self.obls.append(o)

    def assume(self, st, f):
        if self.guards:
            f = z3.Implies(z3.And(*self.guards), f)
        st.pc.append(f)

    def take(self, st, facts, where, line):
        """hints: facts are assumed, cuts are proved and then assumed"""
        for f in facts:
            if isinstance(f, Cut):
                self.oblige(st, 'cut', f'{where}: {f.name}', f.f, line)
                if f.last:
                    self.obls[-1].hyps = self.obls[-1].hyps[-f.last:]
                f = f.f
            self.assume(st, f)

    # ---------------- names
    def lookup_id(self, st, name):
        hit = None
        for i, (nm, t) in st.names.items():
            if self.rename.get(i, nm) == name and i in st.store or (self.rename.get(i, nm) == name and i in st.alias):
                hit = i
        if hit is None:
            raise Unsupported(f'{self.c.label}: contract variable {name} not found')
        return hit

    def lookup(self, st, name):
        i = self.lookup_id(st, name)
        if i in st.alias:
            return self.read(st, st.alias[i])
        return st.store[i]

    def lookup_lv(self, st, name):
        i = self.lookup_id(st, name)
        if i in st.alias:
            return st.alias[i]
        return LV(i, (), st.names[i][1])

    def field(self, st, name):
        r = ('this', name)
        if r not in st.store:
            t = self.c.fields.get(name)
            if t is None:
                raise Unsupported('field ' + name + ' unknown')
            self._field(st, name, ty(t))
        return st.store[r]

    def _field(self, st, name, t):
        r = ('this', name)
        if r not in st.store:
            v = z3.Const('this.' + name + '.0', self.sorts.sort(t))
            st.store[r] = v
            st.names[r] = ('this.' + name, t)
            if self.entry is not None and r not in self.entry.store:
                self.entry.store[r] = v
                self.entry.names[r] = ('this.' + name, t)
        return LV(r, (), t)

    # ---------------- read/write of lvalues
    def read(self, st, lv):
        if lv.root not in st.store:
            raise Unsupported(f'read of unset variable {lv.root}')
        v = st.store[lv.root]
        for s in lv.path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        k = s[0]
        if k == 'idx':
            return sel(vdat(v), s[1])
        if k == 'row':
            vs = self.sorts.sort(s[2])
            return mk(vs, acc('nc', v), sel(acc('dat', v), s[1]))
        if k == 'cell':
            return sel(sel(acc('dat', v), s[1]), s[2])
        if k == 'fld':
            return acc(s[1], v)
        if k == 'key':
            return sel(acc('val', v), s[1])
        raise Unsupported('path step ' + k)

    def named(self, st, v):
        """v, or a fresh constant equal to it when v contains a conditional (conditionals cannot occur in triggers)"""
        if not isinstance(v, z3.ExprRef) or not has_ite(v):
            return v
        if v.sort().kind() == z3.Z3_DATATYPE_SORT and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return v.decl()(*[self.named(st, v.arg(i)) for i in range(v.num_args())])
        k = self.fresh('named', v.sort())
        st.pc.append(k == v)
        return k

    def write(self, st, lv, val):
        if not lv.path:
            st.store[lv.root] = val
            return
        val = self.named(st, val)
        if any(has_ite(x) for p in lv.path for x in p[1:] if isinstance(x, z3.ExprRef)):
            lv = LV(lv.root, tuple(tuple([p[0]] + [self.named(st, x) if isinstance(x, z3.ExprRef) else x for x in p[1:]]) for p in lv.path), lv.t)
        st.store[lv.root] = self._upd(st.store[lv.root], lv.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        s = path[0]
        so = v.sort()
        k = s[0]
        if k == 'idx':
            d = vdat(v)
            return mk(so, vlen(v), z3.Store(d, s[1], self._upd(sel(d, s[1]), path[1:], val)))
        if k == 'row':
            d = acc('dat', v)
            old = self.step(v, s)
            new = self._upd(old, path[1:], val)
            return with_fields(v, dat=z3.Store(d, s[1], acc('dat', new)))
        if k == 'cell':
            d = acc('dat', v)
            r = sel(d, s[1])
            return with_fields(v, dat=z3.Store(d, s[1], z3.Store(r, s[2], self._upd(sel(r, s[2]), path[1:], val))))
        if k == 'fld':
            c = so.constructor(0)
            args = []
            for i in range(c.arity()):
                a = so.accessor(0, i).name()
                cur = acc(a, v)
                args.append(self._upd(cur, path[1:], val) if a == s[1] else cur)
            return c(*args)
        if k == 'key':
            d, vv = acc('dom', v), acc('val', v)
            if not (z3.is_store(d) and d.arg(1).eq(s[1]) and z3.is_true(d.arg(2))):
                d = z3.Store(d, s[1], z3.BoolVal(True))
            return mk(so, d, z3.Store(vv, s[1], self._upd(sel(vv, s[1]), path[1:], val)))
        raise Unsupported('path step ' + k)

    # ---------------- map keys
    def key_of(self, st, v, t):
        """the map key of a vector value: equal keys iff equal vectors (length and entries)"""
        ks = self.sorts.keysort(t)
        if v.sort() == ks:
            return v
        if not hasattr(self, 'keyfn'):
            self.keyfn = {}
        nm = t.key()
        if nm not in self.keyfn:
            vs = v.sort()
            kf = z3.Function('key_' + nm.replace('<', '_').replace('>', ''), vs, ks)
            kl = z3.Function('keylen_' + nm.replace('<', '_').replace('>', ''), ks, INT)
            ka = z3.Function('keyat_' + nm.replace('<', '_').replace('>', ''), ks, INT, INT)
            wit = z3.Function('keydiff_' + nm.replace('<', '_').replace('>', ''), ks, ks, INT)
            a, b = z3.Consts('ka kb', ks)
            x = z3.Const('kx', vs)
            i = z3.Int('ki')
            self.key_ax += [
                z3.ForAll([x], z3.Implies(vlen(x) >= 0, kl(kf(x)) == vlen(x)), patterns=[kf(x)]),
                z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < vlen(x)), ka(kf(x), i) == sel(vdat(x), i)), patterns=[ka(kf(x), i)]),
                z3.ForAll([a, b], z3.Or(a == b, kl(a) != kl(b), z3.And(0 <= wit(a, b), wit(a, b) < kl(a), ka(a, wit(a, b)) != ka(b, wit(a, b)))), patterns=[wit(a, b)]),
            ]
            self.keyfn[nm] = (kf, kl, ka, wit)
        return self.keyfn[nm][0](v)

    # ---------------- traversal of a map: its keys in order are map_key(dom, 0), ..., map_key(dom, map_size(dom) - 1)
    def map_size(self, dom):
        return z3.Function('map_size_' + dom.sort().domain().name(), dom.sort(), INT)(dom)

    def map_key(self, dom, i):
        ks = dom.sort().domain()
        return z3.Function('map_key_' + ks.name(), dom.sort(), INT, ks)(dom, i)

    def map_pos(self, dom, k):
        ks = dom.sort().domain()
        return z3.Function('map_pos_' + ks.name(), dom.sort(), ks, INT)(dom, k)

    def enumerate_map(self, st, dom):
        """the key set of a map that exists at run time is finite: it has an enumeration"""
        seen = [x for x in getattr(st, 'enumerated', ()) if x.eq(dom)]
        if seen:
            return
        st.enumerated = list(getattr(st, 'enumerated', ())) + [dom]
        i, k = z3.Int('en!i'), z3.Const('en!k', dom.sort().domain())
        n = self.map_size(dom)
        st.pc.append(n >= 0)
        st.pc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(sel(dom, self.map_key(dom, i)), self.map_pos(dom, self.map_key(dom, i)) == i)), patterns=[self.map_key(dom, i)]))
        st.pc.append(z3.ForAll([k], z3.Implies(sel(dom, k), z3.And(0 <= self.map_pos(dom, k), self.map_pos(dom, k) < n, self.map_key(dom, self.map_pos(dom, k)) == k)), patterns=[self.map_pos(dom, k)]))

    def traversal(self, lv, dom, pos):
        return Iter(lv, self.map_key(dom, pos), pos >= self.map_size(dom), pos, dom)

    def key_value(self, st, k, t):
        """the vector a key stands for"""
        if k.sort() == self.sorts.sort(t):
            return k
        vs = self.sorts.sort(t)
        kv = z3.Function('keyvec_' + k.sort().name(), k.sort(), vs)
        a = z3.Const('kv!k', k.sort())
        self.key_of(st, kv(a), t)
        ax = z3.ForAll([a], self.keyfn[t.key()][0](kv(a)) == a, patterns=[kv(a)])
        if not any(ax.eq(x) for x in self.key_ax):
            self.key_ax += [ax, z3.ForAll([a], vlen(kv(a)) >= 0, patterns=[kv(a)])]
        return kv(k)

    # ================================================================ statements
    # outcomes: list of (kind, state, value); kind in normal/break/continue/return
    def exec(self, n, st):
        if n is None or n.k in ('NullStmt',):
            return [('normal', st, None)]
        m = getattr(self, 'x_' + n.k, None)
        if m:
            return m(n, st)
        if n.k.startswith('OMP') and n.k.endswith('Directive'):
            return self.x_omp(n, st)
        self.eval(n, st, void=True)
        if getattr(st, 'dead', False):
            return []
        for nm in self.after_calls(n):
            self.take(st, self.c.flags['after'][nm](Env(self, st)), f'after {nm}', n.line)
        return [('normal', st, None)]

    def after_calls(self, n):
        """calls in this statement the contract gives hints for (flags['after'])"""
        want = (self.c.flags or {}).get('after')
        if not want:
            return []
        out = []

        def go(x):
            if x is None:
                return
            if x.k in ('CallExpr', 'CXXMemberCallExpr'):
                try:
                    nm = self.callee(x)[0]
                    if nm in want and nm not in out:
                        out.append(nm)
                except Exception:
                    pass
            for c in x.inner:
                go(c)
        go(n)
        return out

    def x_omp(self, n, st):
        # parallel loop: executed as the sequential loop (schedule independence is a separate obligation of the contract)
        for c in n.inner:
            if c is not None and c.k == 'CapturedStmt':
                for d in c.inner:
                    if d is not None and d.k == 'CapturedDecl':
                        for e in d.inner:
                            if e is not None and e.k in ('ForStmt', 'CompoundStmt'):
                                return self.exec(e, st)
        raise Unsupported('OpenMP directive ' + n.k)

    def x_CompoundStmt(self, n, st):
        before = set(st.names)
        outs = self.seq(n.inner, st)
        for (k, s, v) in outs:
            for i in [i for i in s.names if i not in before and not isinstance(i, tuple)]:
                if k != 'return':
                    s.names.pop(i, None)
                    s.store.pop(i, None)
                    s.alias.pop(i, None)
        return outs

    def seq(self, stmts, st):
        live = [st]
        done = []
        for c in stmts:
            nxt = []
            for s in live:
                for o in self.exec(c, s):
                    (nxt if o[0] == 'normal' else done).append(o)
            live = [o[1] for o in nxt]
            if len(live) > 12:
                live = [s for s in live if self.feasible(s)]
            if len(live) > self.c.flags.get('paths', 40):
                raise Unsupported('too many paths')
            if not live:
                break
        return done + [('normal', s, None) for s in live]

    def x_DeclStmt(self, n, st):
        for d in n.inner:
            if d is None:
                continue
            if d.k == 'VarDecl':
                self.declare(d, st)
            elif d.k in ('UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'StaticAssertDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d.k)
        return [('normal', st, None)]

    def declare(self, d, st):
        t = ty(d.type)
        inits = [c for c in d.inner if c is not None and not c.k.endswith('Attr')]
        qt = d.raw.get('qt') or d.type
        if qt.strip().endswith('&') and inits:
            lv = self.lval(inits[0], st)
            st.names[d.id] = (d.name, t)
            st.alias[d.id] = lv
            st.store.pop(d.id, None)
            return
        if self.c.flags.get('object') and (d.type or '').split('::')[-1].strip() == self.c.flags['object']:
            st.names[d.id] = (d.name, t)
            st.store[d.id] = Str('this')
            self.reset_object(st)
            return
        st.names.pop(d.id, None)
        st.names[d.id] = (d.name, t)
        st.alias.pop(d.id, None)
        if inits:
            v = self.eval(inits[0], st)
            st.store[d.id] = self.coerce(v, t)
        else:
            st.store[d.id] = self.default(t, d.name)

    def coerce(self, v, t):
        return v

    def blank(self, t):
        """the default-constructed value of a class type as a constant, or None"""
        if t.key() in self.sorts.opaque:
            return None
        if t.k in ('ZZ', 'ZZ_p', 'zz_p'):
            return z3.IntVal(0)
        if t.k == 'vec':
            b = self.blank(t.a[0])
            return None if b is None else mk(self.sorts.sort(t), z3.IntVal(0), z3.K(INT, b))
        if t.k == 'mat':
            b = self.blank(t.a[0])
            return None if b is None else mk(self.sorts.sort(t), z3.IntVal(0), z3.IntVal(0), z3.K(INT, z3.K(INT, b)))
        if t.k == 'map':
            s = self.sorts.sort(t)
            ks = self.sorts.keysort(t.a[0])
            so = z3.ArraySort(ks, self.sorts.sort(t.a[1]))
            return mk(s, z3.K(ks, z3.BoolVal(False)), z3.Const('unused_' + t.key(), so))
        return None

    def default(self, t, name):
        """default-constructed (class types) or arbitrary (scalars) value"""
        if t.key() in self.sorts.opaque:
            h = self.c.handlers.get('default:' + t.key())
            return h(self) if h else self.fresh_t(name, t)
        if t.k in ('int', 'bool', 'double'):
            v = self.fresh_t(name, t)
            return v
        if t.k in ('ZZ', 'ZZ_p', 'zz_p'):
            return z3.IntVal(0) if t.k != 'ZZ' or True else None
        if t.k == 'ZZX':
            return z3.K(INT, z3.IntVal(0))
        if t.k == 'vec':
            s = self.sorts.sort(t)
            if t.a[0].k in ('mat', 'vec', 'map') and self.blank(t) is not None:      # elements of class type: slots never used are default-constructed
                return self.blank(t)
            return mk(s, z3.IntVal(0), self.fresh(name + '.dat', z3.ArraySort(INT, self.sorts.sort(t.a[0]))))
        if t.k == 'mat':
            s = self.sorts.sort(t)
            return mk(s, z3.IntVal(0), z3.IntVal(0), self.fresh(name + '.dat', z3.ArraySort(INT, z3.ArraySort(INT, self.sorts.sort(t.a[0])))))
        if t.k == 'map':
            s = self.sorts.sort(t)
            ks = self.sorts.keysort(t.a[0])
            return mk(s, z3.K(ks, z3.BoolVal(False)), self.fresh(name + '.val', z3.ArraySort(ks, self.sorts.sort(t.a[1]))))
        if t.k == 'pair':
            return mk(self.sorts.sort(t), self.default(t.a[0], name + '.first'), self.default(t.a[1], name + '.second'))
        if t.k in ('ptr', 'iter'):
            return None
        if 'stringstream' in t.k:
            return Buf()
        return self.fresh_t(name, t)

    def feasible(self, st):
        """False only when the path condition is contradictory"""
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*[f for f in st.pc if not z3.is_quantifier(f)])
        return s.check() != z3.unsat

    def x_IfStmt(self, n, st):
        ch = list(n.inner)
        if n.raw.get('hasInit') or n.raw.get('hasVar'):
            raise Unsupported('if with init')
        c = self.cond(ch[0], st)
        for nm in self.after_calls(ch[0]):
            self.take(st, self.c.flags['after'][nm](Env(self, st)), f'after {nm}', n.line)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.exec(ch[1], st)
        if z3.is_false(cs):
            return self.exec(ch[2], st) if len(ch) > 2 else [('normal', st, None)]
        a, b = st.copy(), st.copy()
        base = len(st.pc)
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        oa = self.exec(ch[1], a)
        ob = self.exec(ch[2], b) if len(ch) > 2 else [('normal', b, None)]
        na = [o for o in oa if o[0] == 'normal']
        nb = [o for o in ob if o[0] == 'normal']
        rest = [o for o in oa + ob if o[0] != 'normal']
        if len(na) == 1 and len(nb) == 1:
            m = self.merge(c, na[0][1], nb[0][1], base)
            if m is not None:
                return rest + [('normal', m, None)]
        return rest + na + nb

    def merge(self, c, a, b, base):
        m = State()
        m.pc = list(a.pc[:base])
        for f in a.pc[base + 1:]:
            m.pc.append(z3.Implies(c, f))
        for f in b.pc[base + 1:]:
            m.pc.append(z3.Implies(z3.Not(c), f))
        m.names = {k: v for k, v in a.names.items() if k in b.names}
        for k, v in b.names.items():
            if isinstance(k, tuple) and k not in m.names:
                m.names[k] = v
        m.alias = {}
        for k in m.names:
            if k in a.alias or k in b.alias:
                x, y = a.alias.get(k), b.alias.get(k)
                if x is None or y is None or x.root != y.root or len(x.path) != len(y.path):
                    return None
                m.alias[k] = x
                continue
            if isinstance(k, tuple) and (k not in a.store or k not in b.store):
                m.store[k] = a.store.get(k, b.store.get(k)) if not (k in a.store and k in b.store) else None
                x = a.store.get(k)
                y = b.store.get(k)
                init = self.entry.store.get(k)
                x = init if x is None else x
                y = init if y is None else y
                m.store[k] = x if x.eq(y) else self.named_arrays(m, self.ite(c, x, y))
                continue
            x, y = a.store.get(k), b.store.get(k)
            if x is None and y is None:
                m.store[k] = None
                continue
            if x is y or (isinstance(x, Buf) and x == y):
                m.store[k] = x
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                m.store[k] = x if x.eq(y) else self.named_arrays(m, self.ite(c, x, y))
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.lv.root == y.lv.root and x.lv.path == y.lv.path:
                if x.off is None or y.off is None:
                    if x.off is not y.off:
                        return None
                    m.store[k] = x
                else:
                    m.store[k] = Ptr(x.lv, x.off if x.off.eq(y.off) else z3.If(c, x.off, y.off), x.t)
            else:
                return None
        for k in set(a.store) | set(b.store):
            if k not in m.store and (isinstance(k, tuple) and k[0] == 'heap'):
                x, y = a.store.get(k), b.store.get(k)
                if x is None or y is None:
                    m.store[k] = x if x is not None else y
                else:
                    m.store[k] = x if x.eq(y) else self.named_arrays(m, self.ite(c, x, y))
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                m.ghost[k] = x if x.eq(y) else z3.If(c, x, y)
            elif x is not None and x == y:
                m.ghost[k] = x
            else:
                return None
        return m

    def named_arrays(self, st, v):
        if v.sort().kind() == z3.Z3_DATATYPE_SORT and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return v.decl()(*[self.named_arrays(st, v.arg(i)) for i in range(v.num_args())])
        if v.sort().kind() == z3.Z3_ARRAY_SORT and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            k = self.fresh('merged', v.sort())
            st.pc += [z3.Implies(v.arg(0), k == v.arg(1)), z3.Implies(z3.Not(v.arg(0)), k == v.arg(2))]
            return k
        return v

    def ite(self, c, x, y):
        """push ite under datatype constructors so that array and length stay separate"""
        if z3.is_app(x) and z3.is_app(y) and x.sort().kind() == z3.Z3_DATATYPE_SORT:
            s = x.sort()
            con = s.constructor(0)
            if s.num_constructors() == 1:
                args = []
                for i in range(con.arity()):
                    nm = s.accessor(0, i).name()
                    p, q = acc(nm, x), acc(nm, y)
                    args.append(p if p.eq(q) else self.ite(c, p, q))
                return con(*args)
        return z3.If(c, x, y)

    def x_ReturnStmt(self, n, st):
        v = None
        if n.inner and n.inner[0] is not None:
            if self.ret_ref and self.ret_ref[-1]:
                v = self.lval(n.inner[0], st)
            else:
                v = self.eval(n.inner[0], st)
        return [('return', st, v)]

    ret_ref = []

    def x_BreakStmt(self, n, st):
        return [('break', st, None)]

    def x_ContinueStmt(self, n, st):
        return [('continue', st, None)]

    def x_ForStmt(self, n, st):
        init, _, cond, inc, bod = (list(n.inner) + [None] * 5)[:5]
        before = set(st.names)
        outs = []
        for o in self.exec(init, st):
            outs += self.loop(n, o[1], cond, inc, bod)
        for (k, s, v) in outs:
            if k != 'return':
                for i in [i for i in s.names if i not in before and not isinstance(i, tuple)]:
                    s.names.pop(i, None)
                    s.store.pop(i, None)
                    s.alias.pop(i, None)
        return outs

    def x_WhileStmt(self, n, st):
        ch = [c for c in n.inner]
        if len(ch) != 2:
            raise Unsupported('while with declaration')
        return self.loop(n, st, ch[0], None, ch[1])

    def x_DoStmt(self, n, st):
        bod, cond = n.inner[0], n.inner[1]
        if F.is_once(n):
            return [('normal' if k in ('break', 'continue') else k, s, v) for (k, s, v) in self.exec(bod, st)]
        raise Unsupported('do-while')

    # ---------------- loops
    def loop_spec(self, n):
        if n.id not in self.loop_no:
            return None
        return self.cur_loops.get(self.loop_no[n.id])

    def loop(self, n, st, cond, inc, bod):
        spec = self.loop_spec(n)
        if spec is None:
            raise Unsupported(f'{self.c.label}: loop {self.loop_no.get(n.id)} at line {n.line} has no invariant')
        lab = f'loop {self.loop_no[n.id]}'
        pre = st.copy()
        e0 = Env(self, st, pre)
        if spec.pre_hints:
            self.take(st, spec.pre_hints(e0), lab + ' entry', n.line)
        for nm, f in norm(spec.inv(e0)) + self.followed(spec, st):
            self.oblige(st, 'loop-init', f'{lab} entry: {nm}', f, n.line)
        # havoc
        h = st
        mod = self.modified([cond, inc, bod], h)
        for (root, shapekept) in mod.items():
            if root in h.store:
                h.store[root] = self.havoc(h, root, h.store[root], shapekept, spec)
        for root, v in self.followers(spec, h):
            d = acc('dom', self.read(h, v.lv))
            self.enumerate_map(h, d)
            pos = self.fresh('pos', INT)
            h.pc.append(z3.And(pos >= 0, pos <= self.map_size(d)))
            h.store[root] = self.traversal(v.lv, d, pos)
        e1 = Env(self, h, pre)
        for nm, f in norm(spec.inv(e1)):
            self.assume(h, f)
        # body
        b = h.copy()
        if cond is not None:
            c = self.cond(cond, b)
            self.assume(b, c)
        self.covers.append((f'{lab} body reachable', list(b.pc)))
        m0 = None
        if spec.dec is not None:
            m0 = spec.dec(Env(self, b, pre))
            if m0 is not None:
                self.oblige(b, 'termination', f'{lab} measure non-negative', m0 >= 0, n.line)
        if spec.head:
            self.take(b, spec.head(Env(self, b, pre)), lab + ' body', n.line)
        outs = []
        head = b.copy()
        res = self.exec(bod, b)
        for (k, s, v) in res:
            if k in ('normal', 'continue'):
                if inc is not None:
                    self.eval(inc, s, void=True)
                e2 = Env(self, s, pre)
                e2.head = head
                if spec.hints:
                    self.take(s, spec.hints(e2), lab, n.line)
                for nm, f in norm(spec.inv(e2)) + self.followed(spec, s):
                    self.oblige(s, 'loop-step', f'{lab} preserved: {nm}', f, n.line)
                if m0 is not None:
                    m1 = spec.dec(e2)
                    self.oblige(s, 'termination', f'{lab} measure decreases', m1 < m0, n.line)
            elif k == 'break':
                if spec.post:
                    eb = Env(self, s, pre)
                    eb.head = head
                    self.take(s, spec.post(eb), lab + ' break', n.line)
                outs.append(('normal', s, None))
            else:
                outs.append((k, s, v))
        # exit
        if cond is not None:
            c = self.cond(cond, h)
            self.assume(h, z3.Not(c))
            if spec.post:
                self.take(h, spec.post(Env(self, h, pre)), lab + ' exit', n.line)
            outs.append(('normal', h, None))
        return outs

    def followers(self, spec, st):
        return [(r, v) for r, v in st.store.items() if isinstance(v, Iter) and v.pos is not None and st.names.get(r, (None,))[0] in spec.follows]

    def followed(self, spec, st):
        return [('iterator in the current keys', acc('dom', self.read(st, v.lv)) == v.dom) for r, v in self.followers(spec, st)]

    def havoc(self, st, root, v, shapekept, spec):
        nm, t = st.names.get(root, ('heap', None))
        if v is None:
            return v
        if isinstance(v, Ptr):
            return Ptr(v.lv, self.fresh(nm + '.off', INT) if v.off is not None else None, v.t)
        if isinstance(v, Iter):
            if v.pos is not None:
                pos = self.fresh(nm + '.pos', INT)
                st.pc.append(z3.And(pos >= 0, pos <= self.map_size(v.dom)))
                return self.traversal(v.lv, v.dom, pos)
            return Iter(v.lv, self.fresh(nm + '.key', v.key.sort()) if v.key is not None else None, self.fresh(nm + '.end', BOOL))
        if not isinstance(v, z3.ExprRef):
            raise Unsupported('cannot havoc ' + str(v))
        s = v.sort()
        if shapekept and s.kind() == z3.Z3_DATATYPE_SORT:
            con = s.constructor(0)
            args = []
            for i in range(con.arity()):
                a = s.accessor(0, i).name()
                if a in ('len', 'nr', 'nc', 'mod'):
                    args.append(acc(a, v))
                else:
                    args.append(self.fresh(f'{nm}.{a}', s.accessor(0, i).range()))
            return con(*args)
        x = self.fresh(nm, s)
        self.wf(st, x)
        if t is not None and t.k == 'int' and not t.signed:
            st.pc.append(x >= 0)
        return x

    def modified(self, nodes, st):
        """roots possibly modified by executing the nodes: root -> True when only elements (not the shape) change"""
        out = {}

        def note(lvnode, elementwise=False):
            r, el = self.root_of(lvnode, st)
            if r is None:
                return
            el = el or elementwise
            out[r] = out.get(r, True) and el

        def rec(x):
            if x is None:
                return
            if x.k == 'BinaryOperator' and x.op == '=' or x.k == 'CompoundAssignOperator':
                note(x.inner[0])
            elif x.k == 'UnaryOperator' and x.op in ('++', '--'):
                note(x.inner[0])
            elif x.k == 'CXXOperatorCallExpr':
                nm = self.callee(x)[0]
                if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=', 'operator++', 'operator--', 'operator>>', 'operator<<='):
                    note(x.inner[1])
                    if nm == 'operator>>':
                        note(x.inner[2])
                elif nm == 'operator[]' and (ty(x.inner[1].type).k == 'map'):
                    r = self.root_of(x.inner[1], st)[0]
                    if not (isinstance(r, tuple) and r[1] in self.c.flags.get('present', ())):
                        note(x.inner[1])
                elif nm == 'operator<<':
                    note(x.inner[1])
            elif x.k == 'CXXMemberCallExpr':
                me = self.strip(x.inner[0])
                if me.name in ('SetLength', 'SetDims', 'clear', 'swap', 'kill', 'insert', 'append', 'SetMaxLength', 'erase', 'push_back', 'restore', 'resize'):
                    note(me.inner[0])
                    if me.name == 'swap':
                        note(x.inner[1])
                elif me.name == 'put':
                    note(me.inner[0], elementwise=True)
                elif me.inner and self.is_this(self.strip(me.inner[0])):
                    for f in self.member_effects(me.name, st):
                        out[('this', f)] = False
                    for a in self.member_refs(me.name, x):
                        note(a)
            elif x.k == 'CallExpr':
                nm = self.callee(x)[0]
                from . import builtins as B
                w = B.WRITES.get(nm)
                args = x.inner[1:]
                if w is not None:
                    for i in w:
                        if i < len(args):
                            note(args[i], elementwise=nm in B.ELEMENTWISE)
                else:
                    pts = self.callee_params(x)
                    for i, a in enumerate(args):
                        t = pts[i] if i < len(pts) else None
                        if t is None or (t.strip().endswith('&') and not t.strip().startswith('const ')) or (t.strip().endswith('*') and not t.strip().startswith('const ')):
                            note(a, elementwise=t is not None and t.strip().endswith('*'))
            for c in x.inner:
                rec(c)
        for x in nodes:
            rec(x)
        return out

    def member_effects(self, name, st):
        for c in self.registry.get(name, []):
            return [m[5:] for m in c.modifies if m.startswith('this.')]
        return []

    def member_refs(self, name, x):
        """arguments a called member function may change"""
        out = []
        for c in self.registry.get(name, []):
            ps = F.params(find_function(c))
            if len(ps) == len(x.inner) - 1:
                for p, a in zip(ps, x.inner[1:]):
                    qt = p.raw['qt'].strip()
                    if (qt.endswith('&') or qt.endswith('*')) and not qt.startswith('const '):
                        out.append(a)
        return out

    def callee(self, x):
        c = self.strip(x.inner[0])
        while c is not None and c.k in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator'):
            c = self.strip(c.inner[0])
        if c.k == 'DeclRefExpr':
            return c.ref.name, c.ref.type, c.ref
        if c.k == 'MemberExpr':
            return c.name, None, None
        raise Unsupported('callee ' + c.k)

    def callee_params(self, x):
        nm, t, r = self.callee(x)
        if not t:
            return []
        i = t.index('(')
        # last top-level parenthesis group is the parameter list
        depth, start = 0, None
        for p, ch in enumerate(t):
            if ch == '(':
                if depth == 0:
                    start = p
                    break
                depth += 1
        depth = 0
        for p in range(start, len(t)):
            if t[p] == '(':
                depth += 1
            elif t[p] == ')':
                depth -= 1
                if depth == 0:
                    return F._split(t[start + 1:p])
        return []

    def strip(self, n):
        while n is not None and n.k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr') and n.inner:
            if n.k == 'ImplicitCastExpr' and n.cast not in (None, 'NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'DerivedToBase', 'UncheckedDerivedToBase', 'BitCast'):
                return n
            n = n.inner[0]
        return n

    def root_of(self, n, st):
        """(root var, elementwise) of an lvalue expression, syntactically"""
        el = False
        n = self.strip(n)
        while True:
            if n is None:
                return None, False
            if n.k == 'DeclRefExpr':
                i = n.ref.id
                if i in st.alias:
                    return st.alias[i].root, bool(st.alias[i].path)
                v = st.store.get(i)
                if isinstance(v, Ptr) and (el or True):
                    if el or ty(n.type).k == 'ptr' and el:
                        return v.lv.root, True
                    # assignment to the pointer itself, or pointer passed for writing
                    return (v.lv.root, True) if self._ptr_written(n) else (i, False)
                return (i, el) if i in st.store else (None, False)
            if n.k == 'ArraySubscriptExpr':
                el = True
                n = self.strip(n.inner[0])
                continue
            if n.k == 'CXXOperatorCallExpr':
                nm = self.callee(n)[0]
                if nm in ('operator[]', 'operator()'):
                    el = ty(n.inner[1].type).k != 'map'
                    n = self.strip(n.inner[1])
                    continue
                if nm in ('operator=', 'operator+=', 'operator-='):
                    n = self.strip(n.inner[1])
                    continue
                if nm == 'operator<<' or nm == 'operator>>':
                    n = self.strip(n.inner[1])
                    continue
                if nm == 'operator->' or nm == 'operator*':
                    v = self.strip(n.inner[1])
                    if v.k == 'DeclRefExpr' and isinstance(st.store.get(v.ref.id), Iter):
                        return st.store[v.ref.id].lv.root, False
                    n = v
                    continue
                return None, False
            if n.k == 'MemberExpr':
                b = self.strip(n.inner[0]) if n.inner else None
                if b is None or self.is_this(b):
                    return ('this', n.name), el
                el = el or (n.name not in ('first', 'second'))
                n = b
                continue
            if n.k == 'UnaryOperator' and n.op in ('*', '&', '++', '--'):
                if n.op == '*':
                    el = True
                n = self.strip(n.inner[0])
                continue
            if n.k == 'BinaryOperator' and n.op in ('+', '-'):
                el = True
                n = self.strip(n.inner[0])
                continue
            if n.k in ('CXXMemberCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr', 'StringLiteral', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
                return None, False
            return None, False

    def _ptr_written(self, n):
        return True

    # ================================================================ expressions
    def cond(self, n, st):
        v = self.eval(n, st)
        return self.as_bool(v)

    def as_bool(self, v):
        if z3.is_bool(v):
            return v
        return v != 0

    def as_int(self, v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def eval(self, n, st, void=False):
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            raise Unsupported(f'{self.c.label}: expression {n.k} at line {n.line}')
        return m(n, st)

    def e_ParenExpr(self, n, st):
        return self.eval(n.inner[0], st)
    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_ImplicitCastExpr(self, n, st):
        c = n.cast
        if c in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion', 'DerivedToBase', 'BitCast', 'UncheckedDerivedToBase'):
            return self.eval(n.inner[0], st)
        if c == 'IntegralCast':
            v = self.as_int(self.eval(n.inner[0], st))
            return self.intcast(v, ty(n.inner[0].type), ty(n.type), st, n)
        if c == 'IntegralToBoolean':
            b = self.eval(n.inner[0], st)
            return b if z3.is_expr(b) and z3.is_bool(b) else b != 0
        if c == 'ArrayToPointerDecay':
            x = self.strip(n.inner[0])
            if x.k in ('StringLiteral', 'PredefinedExpr') or x.k == 'UnaryOperator':
                return Str(x.val)
            return Ptr(self.lval(n.inner[0], st), None, ty(n.type))
        if c == 'IntegralToFloating':
            v = self.eval(n.inner[0], st)
            return z3.ToReal(self.as_int(v))
        if c == 'FloatingToBoolean':
            return self.eval(n.inner[0], st) != 0
        if c == 'NullToPointer':
            return Str('NULL')
        if c == 'PointerToBoolean':
            return z3.BoolVal(True)
        if c == 'FloatingCast':
            return self.eval(n.inner[0], st)
        raise Unsupported(f'cast {c} line {n.line}')

    def intcast(self, v, src, dst, st, n):
        if src.k == 'bool' or dst.k != 'int' or src.k != 'int':
            return v
        if dst.signed == src.signed and dst.bits >= src.bits:
            return v
        if z3.is_int_value(v):
            x = v.as_long()
            lo, hi = (-(1 << (dst.bits - 1)), (1 << (dst.bits - 1)) - 1) if dst.signed else (0, (1 << dst.bits) - 1)
            if not (lo <= x <= hi):
                x &= (1 << dst.bits) - 1
                if dst.signed and x >> (dst.bits - 1):
                    x -= 1 << dst.bits
            return z3.IntVal(x)
        if self.c.overflow:
            lo, hi = (-(1 << (dst.bits - 1)), (1 << (dst.bits - 1)) - 1) if dst.signed else (0, (1 << dst.bits) - 1)
            self.oblige(st, 'safety', 'integer conversion keeps the value', z3.And(v >= lo, v <= hi), n.line)
        return v

    def e_CStyleCastExpr(self, n, st):
        if n.cast == 'ToVoid':
            x = self.strip(n.inner[0])
            if x.k != 'IntegerLiteral':
                self.eval(n.inner[0], st)
            return None
        if n.cast == 'IntegralCast':
            v = self.as_int(self.eval(n.inner[0], st))
            return self.intcast(v, ty(n.inner[0].type), ty(n.type), st, n)
        if n.cast == 'IntegralToFloating':
            return z3.ToReal(self.as_int(self.eval(n.inner[0], st)))
        if n.cast in ('FloatingToIntegral',):
            v = self.eval(n.inner[0], st)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if n.cast in ('IntegralToBoolean',):
            return self.eval(n.inner[0], st) != 0
        return self.eval(n.inner[0], st)
    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr

    def e_IntegerLiteral(self, n, st):
        return z3.IntVal(int(n.val))

    def e_CharacterLiteral(self, n, st):
        return z3.IntVal(int(n.val))

    def e_FloatingLiteral(self, n, st):
        return z3.RealVal(str(n.val))

    def e_CXXBoolLiteralExpr(self, n, st):
        return z3.BoolVal(bool(n.val))

    def e_StringLiteral(self, n, st):
        return Str(n.val)

    def e_GNUNullExpr(self, n, st):
        return Str('NULL')
    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_PredefinedExpr(self, n, st):
        return Str('')

    def e_DeclRefExpr(self, n, st):
        if n.ref.kind in ('FunctionDecl', 'CXXMethodDecl'):
            return n.ref
        i = n.ref.id
        if i in st.alias:
            return self.read(st, st.alias[i])
        if i in st.store:
            v = st.store[i]
            if v is None:
                raise Unsupported('use of unset pointer/iterator ' + str(n.ref.name))
            return v
        h = self.c.handlers.get('global:' + n.ref.name)
        if h:
            return h(self, st)
        if n.ref.name in ('cout', 'cerr', 'endl'):
            return Str(n.ref.name)
        raise Unsupported(f'reference to {n.ref.kind} {n.ref.name} (line {n.line})')

    def is_this(self, n):
        """*this, or the local object a free function works on (flags['object']: its class)"""
        if n is None:
            return False
        if n.k == 'CXXThisExpr':
            return True
        o = self.c.flags.get('object')
        return bool(o) and n.k == 'DeclRefExpr' and n.ref.kind == 'VarDecl' and (n.type or '').split('::')[-1].strip() == o

    def reset_object(self, st):
        """a default-constructed object: containers empty, the rest arbitrary"""
        for f, t in self.c.fields.items():
            t = ty(t)
            r = ('this', f)
            st.store[r] = self.default(t, 'this.' + f)
            st.names[r] = ('this.' + f, t)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        a = n.raw.get('argType', {}).get('qualType')
        t = ty(a) if a else ty(n.inner[0].type)
        if n.name == 'sizeof' and t.k == 'int':
            return z3.IntVal(t.bits // 8)
        raise Unsupported(f'{n.name} of {t} (line {n.line})')

    def e_CXXThisExpr(self, n, st):
        return Str('this')

    def e_CXXDefaultArgExpr(self, n, st):
        if n.inner and n.inner[0] is not None:
            return self.eval(n.inner[0], st)
        return Str('default')

    def floating(self, n):
        return (n.type or '') in ('double', 'float', 'long double') or any(self.floating(x) for x in n.inner if x is not None)

    def e_ConditionalOperator(self, n, st):
        if any((x := self.strip(br)).k == 'CallExpr' and self.callee(x)[0] == '__assert_fail' for br in n.inner[1:]) and self.floating(n.inner[0]):
            return None      # a run-time check in floating point: it ends the program or has no effect
        c = self.cond(n.inner[0], st)
        # assert(): cond ? void : __assert_fail
        for br, neg in ((n.inner[2], False), (n.inner[1], True)):
            x = self.strip(br)
            if x.k == 'CallExpr' and self.callee(x)[0] == '__assert_fail':
                g = z3.Not(c) if neg else c
                if self.c.flags.get('asserts') == 'assume':
                    # a documented run-time check: behaviour after a failed assert is program termination
                    self.assume(st, g)
                else:
                    self.oblige(st, 'assert', 'assert holds', g, n.line)
                    self.assume(st, g)
                return None
        # guarded evaluation of the arms
        self.guards.append(c)
        a = self.eval(n.inner[1], st)
        self.guards.pop()
        self.guards.append(z3.Not(c))
        b = self.eval(n.inner[2], st)
        self.guards.pop()
        if a is None and b is None:
            return None
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() != b.sort():
                a, b = self.as_int(a), self.as_int(b)
            return self.ite(c, a, b)
        raise Unsupported('conditional of non-values')

    def e_UnaryOperator(self, n, st):
        if n.op in ('++', '--'):
            lv = self.lval(n.inner[0], st)
            v = self.read(st, lv)
            if isinstance(v, Ptr):
                w = Ptr(v.lv, v.off + (1 if n.op == '++' else -1), v.t)
            else:
                w = v + 1 if n.op == '++' else v - 1
                self.range_check(w, ty(n.type), st, n, '++/--')
            self.write(st, lv, w)
            return v if n.raw.get('isPostfix') else w
        if n.op == '&':
            lv = self.lval(n.inner[0], st)
            return self.addr(lv, ty(n.type))
        if n.op == '*':
            return self.read(st, self.lval(n, st))
        v = self.eval(n.inner[0], st)
        if n.op == '-':
            r = -self.as_int(v) if not z3.is_real(v) else -v
            if z3.is_int_value(v):
                return z3.IntVal(-v.as_long())
            self.range_check(r, ty(n.type), st, n, 'negation')
            return r
        if n.op == '+':
            return v
        if n.op == '!':
            return z3.Not(self.as_bool(v))
        if n.op == '__extension__':
            return v
        raise Unsupported('unary ' + n.op)

    def addr(self, lv, t):
        if lv.path and lv.path[-1][0] == 'idx':
            return Ptr(LV(lv.root, lv.path[:-1], None), lv.path[-1][1], t)
        return Ptr(lv, None, t)

    def range_check(self, v, t, st, n, what):
        if not self.c.overflow or t.k != 'int':
            return
        if t.signed:
            lo, hi = -(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1
        else:
            lo, hi = 0, (1 << t.bits) - 1
        self.oblige(st, 'safety', f'no overflow in {what}', z3.And(v >= lo, v <= hi), n.line)

    def tdiv(self, a, b):
        # C++ division truncates towards zero
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(z3.And(a >= 0, b > 0), a / b, z3.If(z3.And(a < 0, b > 0), -((-a) / b), z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))

    def tmod(self, a, b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a % b, -((-a) % b))
        return z3.If(z3.And(a >= 0, b > 0), a % b, a - b * self.tdiv(a, b))

    def fdiv(self, a, b):
        """floor division (NTL ZZ)"""
        q = a / b   # z3: Euclidean
        return z3.If(z3.Or(b > 0, a % b == 0), q, q - 1)

    def fmod(self, a, b):
        # the modulus of ZZ_p is positive
        return a % b if z3.is_int_value(b) and b.as_long() > 0 or z3.is_const(b) and str(b) == 'NTL_modulus' else z3.If(b > 0, a % b, z3.If(a % b == 0, z3.IntVal(0), a % b + b))

    def e_BinaryOperator(self, n, st):
        op = n.op
        if op == '=':
            x = self.strip(n.inner[0])
            v = self.eval(n.inner[1], st)
            lv = self.lval(n.inner[0], st)
            if isinstance(v, z3.ExprRef) and z3.is_bool(v) and lv.t is not None and lv.t.k == 'int':
                v = self.as_int(v)
            self.write(st, lv, v)
            return v
        if op == ',':
            self.eval(n.inner[0], st)
            return self.eval(n.inner[1], st)
        if op in ('&&', '||'):
            a = self.cond(n.inner[0], st)
            self.guards.append(a if op == '&&' else z3.Not(a))
            b = self.cond(n.inner[1], st)
            self.guards.pop()
            return z3.And(a, b) if op == '&&' else z3.Or(a, b)
        a = self.eval(n.inner[0], st)
        b = self.eval(n.inner[1], st)
        return self.binop(op, a, b, ty(n.type), st, n)

    def binop(self, op, a, b, t, st, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+' and isinstance(a, Ptr):
                return Ptr(a.lv, a.off + b, a.t)
            if op == '+' and isinstance(b, Ptr):
                return Ptr(b.lv, b.off + a, b.t)
            if op == '-' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.lv, a.off - b, a.t)
            raise Unsupported('pointer operator ' + op)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported(f'operator {op} on non-scalars (line {n.line})')
        if z3.is_real(a) or z3.is_real(b):
            a = z3.ToReal(a) if z3.is_int(a) else a
            b = z3.ToReal(b) if z3.is_int(b) else b
            if op == '/':
                return a / b
        elif z3.is_bool(a) != z3.is_bool(b) or op not in ('==', '!='):
            a, b = self.as_int(a), self.as_int(b)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            self.oblige(st, 'safety', 'division by zero', b != 0, n.line)
            r = self.tdiv(a, b)
        elif op == '%':
            self.oblige(st, 'safety', 'division by zero', b != 0, n.line)
            r = self.tmod(a, b)
        elif op == '<':
            return a < b
        elif op == '>':
            return a > b
        elif op == '<=':
            return a <= b
        elif op == '>=':
            return a >= b
        elif op == '==':
            return a == b
        elif op == '!=':
            return a != b
        elif op == '<<' and z3.is_int_value(b):
            r = a * (1 << b.as_long())
        elif op == '>>' and z3.is_int_value(b):
            r = a / (1 << b.as_long())
        elif op == '&' and z3.is_int_value(b) and b.as_long() >= 0 and (b.as_long() & (b.as_long() + 1)) == 0:
            r = a % (b.as_long() + 1)
        else:
            raise Unsupported('operator ' + op)
        if op in ('+', '-', '*', '/', '<<'):
            self.range_check(r, t, st, n, op)
        return r

    def e_CompoundAssignOperator(self, n, st):
        op = n.op[:-1]
        b = self.eval(n.inner[1], st)
        lv = self.lval(n.inner[0], st)
        a = self.read(st, lv)
        r = self.binop(op, a, b, ty(n.type), st, n)
        self.write(st, lv, r)
        return r

    def e_ArraySubscriptExpr(self, n, st):
        return self.read(st, self.lval(n, st))

    def e_MemberExpr(self, n, st):
        b = self.strip(n.inner[0]) if n.inner else None
        if b is not None and not self.is_this(b):
            if not (n.arrow and not self._is_iter_arrow(b)) and b.k in ('CXXMemberCallExpr', 'CallExpr') and n.name in ('first', 'second'):
                v = self.eval(n.inner[0], st)
                if isinstance(v, z3.ExprRef):
                    return acc(n.name, v)
        return self.read(st, self.lval(n, st))

    def _is_iter_arrow(self, b):
        return b.k == 'CXXOperatorCallExpr'

    # ---------------- lvalues
    def index_term(self, i):
        """flat index X*Y+Z seen as a pair (X,Z): gives the solver the injectivity lemma as ground facts"""
        return i

    def deref(self, v, st, n):
        if isinstance(v, LV):
            return v
        if isinstance(v, Ptr):
            if v.off is None:
                return v.lv
            cont = self.read(st, v.lv)
            self.bounds(st, v.off, vlen(cont), n)
            return v.lv.ext(('idx', v.off), None)
        raise Unsupported(f'dereference of {v} line {n.line}')

    def bounds(self, st, i, ln, n):
        self.oblige(st, 'safety', 'index in bounds', z3.And(i >= 0, i < ln), n.line)

    def lval(self, n, st):
        n = self.strip(n)
        if n.k == 'DeclRefExpr':
            i = n.ref.id
            if i in st.alias:
                return st.alias[i]
            if i not in st.store:
                if i in st.names:
                    return LV(i, (), ty(n.type))
                h = self.c.handlers.get('global:' + n.ref.name)
                if h:
                    st.store[i] = h(self, st)
                    st.names[i] = (n.ref.name, ty(n.type))
                    return LV(i, (), ty(n.type))
                raise Unsupported('unknown variable ' + n.ref.name)
            return LV(i, (), ty(n.type))
        if n.k == 'ArraySubscriptExpr':
            x = self.strip(n.inner[0])
            if x.k == 'ArraySubscriptExpr' and self.strip(x.inner[0]).k == 'MemberExpr' and self.strip(x.inner[0]).name == 'rows':
                m = self.strip(x.inner[0])
                ml = self.deref(self.eval(m.inner[0], st), st, n) if m.arrow else self.lval(m.inner[0], st)
                mv = self.read(st, ml)
                i, j = self.as_int(self.eval(x.inner[1], st)), self.as_int(self.eval(n.inner[1], st))
                self.bounds(st, i, acc('nr', mv), n)
                self.bounds(st, j, acc('nc', mv), n)
                return ml.ext(('cell', i, j), ty(n.type))
            b = self.eval_ptr(n.inner[0], st)
            i = self.as_int(self.eval(n.inner[1], st))
            if isinstance(b, Ptr) and b.off is None and b.lv.t is not None and b.lv.t.k == 'row*':
                # nmod_mat rows[i][j]
                return b.lv
            if isinstance(b, Ptr):
                if b.off is None and z3.is_int_value(i) and i.as_long() == 0:
                    return b.lv
                if b.off is None:
                    lvv = self.read(st, b.lv)
                    if lvv.sort().kind() == z3.Z3_DATATYPE_SORT and lvv.sort().name().startswith('Vec_'):
                        self.bounds(st, i, vlen(lvv), n)
                        return b.lv.ext(('idx', i), ty(n.type))
                    raise Unsupported('indexing a plain object')
                off = i if z3.is_int_value(b.off) and b.off.as_long() == 0 else b.off + i
                cont = self.read(st, b.lv)
                if cont.sort().name().startswith('Mat_'):
                    return b.lv.ext(('row', off, T('vec', [ty(n.type)])), None)
                self.bounds(st, off, vlen(cont), n)
                return b.lv.ext(('idx', off), ty(n.type))
            raise Unsupported('subscript base')
        if n.k == 'MemberExpr':
            b = self.strip(n.inner[0]) if n.inner else None
            if b is None or self.is_this(b):
                return self._field(st, n.name, ty(n.type))
            if n.arrow:
                if b.k == 'CXXOperatorCallExpr' and self.callee(b)[0] == 'operator->':
                    o = self.strip(b.inner[1])
                    if o.k == 'MemberExpr' and o.inner and self.is_this(self.strip(o.inner[0])) and o.name + '.' + n.name in self.c.fields:
                        return self._field(st, o.name + '.' + n.name, ty(n.type))      # an object owned by this one
                    iv = self.eval(b.inner[1], st)
                    if isinstance(iv, Iter):
                        return self.iter_member(iv, n, st)
                    if isinstance(iv, LV):
                        return iv.ext(('fld', n.name), ty(n.type))
                    raise Unsupported('-> on ' + str(iv))
                p = self.eval(n.inner[0], st)
                if isinstance(p, Ptr):
                    return self.member(self.deref(p, st, n), n, st)
                raise Unsupported('arrow member ' + str(n.name))
            lv = self.lval(n.inner[0], st)
            return self.member(lv, n, st)
        if n.k == 'CXXMemberCallExpr' and self.callee(n)[0] == 'get' and len(n.inner) == 2 and ty(self.strip(n.inner[0]).inner[0].type).k == 'vec':
            return self.subscript(self.lval(self.strip(n.inner[0]).inner[0], st), [self.eval(n.inner[1], st)], 'operator[]', n, st)
        if n.k == 'CXXOperatorCallExpr':
            nm = self.callee(n)[0]
            if nm in ('operator[]', 'operator()'):
                base = self.lval(n.inner[1], st)
                idx = [self.eval(a, st) for a in n.inner[2:]]
                return self.subscript(base, idx, nm, n, st)
            if nm == 'operator*':
                iv = self.eval(n.inner[1], st)
                if isinstance(iv, Iter):
                    raise Unsupported('*iterator')
            if nm in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
                self.eval(n, st)
                return self.lval(n.inner[1], st)
        if n.k == 'UnaryOperator' and n.op == '*':
            return self.deref(self.eval(n.inner[0], st), st, n)
        if n.k == 'UnaryOperator' and n.op in ('++', '--'):
            self.eval(n, st)
            return self.lval(n.inner[0], st)
        if n.k in ('CallExpr', 'CXXMemberCallExpr'):
            v = self.call_any(n, st, want_lv=True)
            if isinstance(v, LV):
                return v
            if isinstance(v, Ptr):
                return self.deref(v, st, n)
            if isinstance(v, z3.ExprRef):
                return self.temp(v, ty(n.type), st)
        if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'BinaryOperator', 'IntegerLiteral', 'ConditionalOperator', 'CXXStaticCastExpr', 'ImplicitCastExpr', 'CStyleCastExpr') or n.k == 'CXXOperatorCallExpr':
            v = self.eval(n, st)
            if isinstance(v, LV):
                return v
            return self.temp(v, ty(n.type), st)
        raise Unsupported(f'lvalue {n.k} line {n.line}')

    def temp(self, v, t, st):
        self.n += 1
        r = ('heap', f'tmp{self.n}')
        st.store[r] = v
        return LV(r, (), t)

    def member(self, lv, n, st):
        if n.name in ('first', 'second'):
            return lv.ext(('fld', n.name), ty(n.type))
        v = self.read(st, lv)
        if n.name in ('rows',) and v.sort().name().startswith('Mat_'):
            return lv
        if n.name in ('r', 'c') and v.sort().name().startswith('Mat_'):
            return self.temp(acc('nr' if n.name == 'r' else 'nc', v), ty(n.type), st)
        if n.name == 'mod' and v.sort().name().startswith('Mat_'):
            return lv.ext(('fld', 'mod'), ty(n.type))
        if n.name == 'n' and v.sort() == INT:
            return lv
        if n.name == '_mp_size' and v.sort() == INT:
            f = z3.Function('mpz_size_field', INT, INT)
            z = f(v)
            st.pc.append(z3.And((z < 0) == (v < 0), (z > 0) == (v > 0), z >= -(1 << 31), z < (1 << 31)))
            return self.temp(z, ty(n.type), st)
        h = self.c.handlers.get('member:' + n.name)
        if h:
            return h(self, st, lv, n)
        raise Unsupported('member ' + str(n.name))

    def iter_member(self, iv, n, st):
        if iv.end is not None:
            self.oblige(st, 'safety', 'iterator dereferenced before end', z3.Not(iv.end), n.line)
        if n.name == 'second':
            return iv.lv.ext(('key', iv.key), ty(n.type))
        if n.name == 'first':
            return self.temp(self.key_value(st, iv.key, ty(n.type)), ty(n.type), st)
        raise Unsupported('iterator member')

    def subscript(self, base, idx, nm, n, st):
        v = self.read(st, base)
        t = base.t if base.t is not None else None
        sn = v.sort().name()
        if isinstance(v, Ptr):
            raise Unsupported('operator[] on pointer')
        if sn.startswith('Vec_') :
            i = self.as_int(idx[0])
            if nm == 'operator()':
                i = z3.simplify(i - 1)
            self.bounds(st, i, vlen(v), n)
            return base.ext(('idx', i), ty(n.type))
        if sn.startswith('Mat_'):
            if nm == 'operator()':
                i, j = [z3.simplify(self.as_int(x) - 1) for x in idx]
                self.bounds(st, i, acc('nr', v), n)
                self.bounds(st, j, acc('nc', v), n)
                return base.ext(('cell', i, j), ty(n.type))
            i = self.as_int(idx[0])
            self.bounds(st, i, acc('nr', v), n)
            rt = ty(n.type)
            return base.ext(('row', i, rt if rt.k == 'vec' else T('vec', [T('ZZ')])), rt)
        if sn.startswith('Map_'):
            kt = ty(n.inner[1].type).a[0]
            key = self.key_of(st, idx[0], kt)
            d = acc('dom', v)
            vt = ty(n.inner[1].type).a[1]
            if base.root in [('this', x) for x in self.c.flags.get('present', ())]:    # obligation: nothing is inserted
                self.lookups = getattr(self, 'lookups', []) + [key]
                self.oblige(st, 'safety', 'the key is in the dictionary', sel(d, key), n.line)
                self.assume(st, sel(d, key))
                return base.ext(('key', key), ty(n.type))
            # operator[] default-inserts
            dv = self.default(vt, 'mapdefault')
            isin = sel(d, key)
            newval = z3.If(isin, sel(acc('val', v), key), dv) if not z3.is_true(z3.simplify(isin)) else sel(acc('val', v), key)
            newval = self.named(st, newval)
            nd = z3.Store(d, key, z3.BoolVal(True))
            if self.c.flags.get('map_sizes'):      # a finite set grows by one when a new element is added
                st.pc.append(self.map_size(nd) == self.map_size(d) + z3.If(isin, 0, 1))
            self.write(st, base, mk(v.sort(), nd, z3.Store(acc('val', v), key, newval)))
            return base.ext(('key', key), ty(n.type))
        h = self.c.handlers.get('subscript:' + sn)
        if h:
            return h(self, st, base, idx, n)
        raise Unsupported(f'subscript on {sn} line {n.line}')

    def eval_ptr(self, n, st):
        x = self.strip(n)
        v = self.eval(n, st)
        return v

    # ---------------- objects
    def e_CXXConstructExpr(self, n, st):
        t = ty(n.type)
        args = [a for a in n.inner if a is not None and a.k != 'CXXDefaultArgExpr']
        h = self.c.handlers.get('construct:' + t.key())
        if h:
            return h(self, st, [self.eval(a, st) for a in args], n)
        if not args:
            return self.default(t, t.k)
        if len(args) == 1 and args[0].k == 'InitListExpr':
            raise Unsupported('initializer list')
        if len(args) == 1:
            v = self.eval(args[0], st)
            if isinstance(v, LV):
                v = self.read(st, v)
            if isinstance(v, (Iter, Ptr)):
                return v
            if isinstance(v, Str):
                return v
            if t.k in ('ZZ', 'ZZ_p', 'zz_p') and z3.is_int(v):
                return v
            if v.sort() == self.sorts.sort(t):
                return v
        from . import builtins as B
        r = B.construct(self, t, args, n, st)
        if r is not None:
            return r
        raise Unsupported(f'constructor of {t} from {len(args)} args (line {n.line})')
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXScalarValueInitExpr(self, n, st):
        return z3.IntVal(0)

    def e_ImplicitValueInitExpr(self, n, st):
        return z3.IntVal(0)

    def e_CXXNewExpr(self, n, st):
        t = ty(n.type)          # pointer type
        if not n.raw.get('isArray'):
            raise Unsupported('non-array new')
        ln = self.as_int(self.eval(n.inner[0], st))
        self.oblige(st, 'safety', 'array size non-negative', ln >= 0, n.line)
        self.n += 1
        r = ('heap', f'new{self.n}')
        et = t.a[0]
        vt = T('vec', [et])
        st.store[r] = mk(self.sorts.sort(vt), ln, self.fresh('new.dat', z3.ArraySort(INT, self.sorts.sort(et))))
        st.names[r] = (f'new{self.n}', vt)
        return Ptr(LV(r, (), vt), z3.IntVal(0), t)

    def e_CXXDeleteExpr(self, n, st):
        self.eval(n.inner[0], st)
        return None

    def e_InitListExpr(self, n, st):
        if len(n.inner) == 1:
            return self.eval(n.inner[0], st)
        raise Unsupported('initializer list')

    # ---------------- calls
    def e_CXXOperatorCallExpr(self, n, st):
        return self.call_any(n, st)

    def e_CallExpr(self, n, st):
        v = self.call_any(n, st)
        return self.read(st, v) if isinstance(v, LV) else v

    def e_CXXMemberCallExpr(self, n, st):
        v = self.call_any(n, st)
        return self.read(st, v) if isinstance(v, LV) else v

    def call_any(self, n, st, want_lv=False):
        from . import builtins as B
        nm, ftype, ref = self.callee(n)
        # contract-specific handler first
        h = self.c.handlers.get(nm)
        if h:
            r = h(self, n, st)
            if r is not NotImplemented:
                return r
        if n.k == 'CXXOperatorCallExpr':
            if nm in ('operator[]', 'operator()'):
                return self.read(st, self.lval(n, st))
        # functions under contract
        cand = self.registry.get(nm, [])
        if cand:
            c = self.pick(cand, n)
            if c is not None:
                self.used_contracts.add(c.label)
                return self.call_contract(c, n, st)
        r = B.call(self, nm, n, st, want_lv)
        if r is not NotImplemented:
            self.used_builtins.add(nm)
            return r
        # repository function without contract: inline
        return self.inline(nm, n, st)

    def call_args(self, n):
        if n.k == 'CXXMemberCallExpr':
            return n.inner[1:]
        return n.inner[1:]

    def arg_types(self, n):
        return [ty(a.type).key() for a in self.call_args(n)]

    def pick(self, cands, n):
        pts = self.callee_params(n) if n.k != 'CXXMemberCallExpr' else None
        ks = pts
        for c in cands:
            if c.params is None:
                return c
            if ks is not None and pmatch(c.params, ks):
                return c
            if ks is None and len(c.params) == len(self.call_args(n)):
                return c
        return None

    def bind(self, fn, n, st, sub):
        """bind arguments of call n to the parameters of fn in state `sub` (shares st's store)"""
        args = self.call_args(n)
        for p, a in zip(F.params(fn), args):
            if a is not None and a.k == 'CXXDefaultArgExpr':
                di = [c for c in p.inner if c is not None]
                v = self.eval(di[0], st) if di else self.eval(a, st)
                sub.names[p.id] = (p.name, ty(p.type))
                sub.store[p.id] = v
                continue
            pt = ty(p.type)
            qt = p.raw['qt'].strip()
            sub.names[p.id] = (p.name, pt)
            if qt.endswith('&'):
                lv = self.lval(a, st)
                sub.alias[p.id] = lv
                sub.store.pop(p.id, None)
            else:
                v = self.eval(a, st)
                if isinstance(v, LV):
                    v = self.read(st, v)
                sub.store[p.id] = v
                sub.alias.pop(p.id, None)

    def inline(self, nm, n, st):
        if self.depth > 6:
            raise Unsupported('inlining depth')
        fns = []
        for src in [self.c.src] + list(self.c.inline):
            try:
                fns = [f for f in F.functions(src, nm, None if src != self.c.src else self.c.text)]
            except Unsupported:
                fns = []
            if n.k != 'CXXMemberCallExpr':
                ks = [ty(p).key() for p in self.callee_params(n)]
                fns = [f for f in fns if [ty(p.type).key() for p in F.params(f)] == ks]
            else:
                fns = [f for f in fns if len(F.params(f)) == len(n.inner) - 1]
            if fns:
                break
        if len(fns) != 1:
            raise Unsupported(f'{self.c.label}: call to {nm} (line {n.line}) has neither contract, library semantics nor one inlinable body')
        fn = fns[0]
        self.inlined.add(nm)
        self.inl_hash[nm] = F.exact_hash(fn)
        self.depth += 1
        saved = set(st.names)
        tmp = State()
        self.bind(fn, n, st, tmp)
        st.names.update(tmp.names)
        st.store.update(tmp.store)
        st.alias.update(tmp.alias)
        for i in tmp.store:
            st.alias.pop(i, None)
        self.ret_ref = self.ret_ref + [fn.raw['qt'].split('(')[0].strip().endswith('&')]
        outs = self.exec(F.body(fn), st.copy())
        self.ret_ref = self.ret_ref[:-1]
        self.depth -= 1
        rets = [o for o in outs if o[0] in ('return', 'normal')]
        if len(rets) != 1:
            raise Unsupported(f'inlined {nm} has {len(rets)} exits')
        k, s2, v = rets[0]
        for i in [i for i in s2.names if i not in saved and not isinstance(i, tuple)]:
            s2.names.pop(i, None)
            if isinstance(v, LV) and v.root == i:
                raise Unsupported('reference to local escapes')
            s2.store.pop(i, None)
            s2.alias.pop(i, None)
        st.store, st.names, st.pc, st.alias, st.ghost = s2.store, s2.names, s2.pc, s2.alias, s2.ghost
        return v

    def call_contract(self, c, n, st):
        """modular call: check requires, havoc modifies, assume ensures"""
        fn = find_function(c)
        sub = State()
        sub.pc = st.pc
        self.bind(fn, n, st, sub)
        # share heap objects
        for k, v in st.store.items():
            if k not in sub.store:
                sub.store[k] = v
        for k, v in st.names.items():
            sub.names.setdefault(k, v)
        wb = []
        for p in F.params(fn):
            v = sub.store.get(p.id)
            if not isinstance(v, Ptr) or p.id in sub.alias or ty(p.type).k != 'ptr' or ty(p.type).a[0].k not in ('ZZ', 'int', 'ZZ_p', 'zz_p'):
                continue
            if v.off is not None and z3.is_int_value(v.off) and v.off.as_long() == 0:
                continue
            # a pointer to one element: the callee sees an array of length 1
            cur = self.read(st, v.lv)
            if v.off is None and cur.sort().kind() == z3.Z3_DATATYPE_SORT:
                continue
            el = v.lv if v.off is None else self.deref(v, st, n)
            x = self.read(st, el)
            vt = T('vec', [ty(p.type).a[0]])
            tmp = self.temp(mk(self.sorts.sort(vt), z3.IntVal(1), z3.Store(z3.K(INT, z3.IntVal(0)), 0, x)), vt, sub)
            sub.names[tmp.root] = ('cell', vt)
            sub.store[p.id] = Ptr(LV(tmp.root, (), vt), z3.IntVal(0), v.t)
            wb.append((p, el, tmp.root))
        for p in F.params(fn):
            if isinstance(sub.store.get(p.id), z3.ExprRef) and p.id not in sub.alias:
                sub.store[p.id] = self.named(st, sub.store[p.id])
        view = CalleeView(self, c, fn, sub)
        for nm, f in norm(c.requires(view)):
            self.oblige(st, 'call-pre', f'precondition of {c.label}: {nm}', f, n.line)
        if c.label == self.c.label and c.decreases:
            m0, m1 = c.decreases(Env(self, self.entry)), c.decreases(view)
            self.oblige(st, 'termination', 'recursion measure decreases', z3.And(m1 < m0, m1 >= 0), n.line)
        old = sub.copy()
        for m in c.modifies:
            if m.startswith('this.'):
                r = ('this', m[5:])
                if r not in sub.store:
                    ft = c.fields.get(m[5:])
                    self._field(sub, m[5:], ty(ft))
                    if r not in st.store:
                        self._field(st, m[5:], ty(ft))
                    old.store[r] = sub.store[r]
                sub.store[r] = self.fresh(m, sub.store[r].sort())
                continue
            pid = [p.id for p in F.params(fn) if p.name == m or view.rn.get(p.id) == m]
            if not pid:
                raise Unsupported(f'modifies {m} of {c.label}')
            pid = pid[0]
            if pid in sub.alias:
                lv = sub.alias[pid]
                cur = self.read(sub, lv)
                self.write(sub, lv, self.fresh(m, cur.sort()))
            else:
                v = sub.store[pid]
                if isinstance(v, Ptr):
                    cur = self.read(sub, v.lv)
                    nv = self.fresh(m, cur.sort())
                    if cur.sort().kind() == z3.Z3_DATATYPE_SORT:
                        con = cur.sort().constructor(0)
                        aa = []
                        for i in range(con.arity()):
                            an = cur.sort().accessor(0, i).name()
                            aa.append(acc(an, cur) if an in ('len', 'nr', 'nc', 'mod') else acc(an, nv))
                        nv = con(*aa)
                    self.write(sub, v.lv, nv)
        rt = ty(fn.raw['qt'].split('(')[0])
        res = None
        if rt.k != 'void':
            if c.returns:
                res = c.returns(view)
            else:
                res = self.fresh(c.label + '.ret', self.sorts.sort(rt))
        view2 = CalleeView(self, c, fn, sub, old, res)
        for nm, f in norm(c.ensures(view2)):
            self.assume(st, f)
        tmps = {r for _, _, r in wb}
        for p, el, r in wb:
            if any(p.name == m or view.rn.get(p.id) == m for m in c.modifies):
                self.write(sub, el, sel(vdat(sub.store[r]), 0))
        for k in list(st.store):
            if k in sub.store:
                st.store[k] = sub.store[k]
        for k in sub.store:
            if k in tmps:
                continue
            if isinstance(k, tuple) and k not in st.store:
                st.store[k] = sub.store[k]
                if k in sub.names:
                    st.names[k] = sub.names[k]
        return res

    # ================================================================ driver
    def number_loops(self, fn):
        k = 0
        for x in F.loops_of(fn):
            self.loop_no[x.id] = k
            k += 1
        return k

    def run(self):
        c = self.c
        fn = find_function(c)
        self.fn = fn
        self.cur_loops = c.loops
        nl = self.number_loops(fn)
        base = self.lock.get('locals')
        cur = F.locals_of(fn)
        ids = [p.id for p in F.params(fn)] + [x.id for x in F.body(fn).walk() if x.k == 'VarDecl']
        if base:
            bt = [tuple(x) for x in base]
            if [t for _, t in bt] == [t for _, t in cur]:
                for i, (nm, _) in zip(ids, bt):
                    self.rename[i] = nm
            else:
                # parameters by position, other locals by name
                np_ = len(F.params(fn))
                for i, (nm, _) in zip(ids[:np_], bt[:np_]):
                    self.rename[i] = nm
        if self.lock.get('loops') is not None and self.lock['loops'] != nl:
            raise Unsupported(f'{c.label}: the function has {nl} loops, the contract was written for {self.lock["loops"]}')
        st = State()
        for p in F.params(fn):
            t = ty(p.type)
            qt = p.raw['qt'].strip()
            nm = self.rename.get(p.id, p.name) or 'anon'
            st.names[p.id] = (p.name, t)
            if t.k == 'ptr':
                al = c.alias.get(nm)
                if al:
                    src = [q for q in F.params(fn) if self.rename.get(q.id, q.name) == al][0]
                    st.store[p.id] = st.store[src.id]
                    continue
                r = ('heap', nm)
                inner = t.a[0]
                if inner.k in ('fmpz_mat', 'nmod_mat'):
                    st.store[r] = z3.Const(nm + '*', self.sorts.sort(inner))
                    st.names[r] = (nm + '*', inner)
                    st.store[p.id] = Ptr(LV(r, (), inner), None, t)
                elif inner.k in ('ZZ', 'int', 'ZZ_p', 'zz_p'):
                    vt = T('vec', [inner])
                    st.store[r] = z3.Const(nm + '*', self.sorts.sort(vt))
                    st.names[r] = (nm + '*', vt)
                    st.store[p.id] = Ptr(LV(r, (), vt), z3.IntVal(0), t)
                else:
                    st.store[r] = z3.Const(nm + '*', self.sorts.sort(inner))
                    st.names[r] = (nm + '*', inner)
                    st.store[p.id] = Ptr(LV(r, (), inner), None, t)
                continue
            if qt.endswith('&') and nm in c.alias:
                src = [q for q in F.params(fn) if self.rename.get(q.id, q.name) == c.alias[nm]][0]
                st.alias[p.id] = LV(src.id, (), t)
                continue
            v = z3.Const(nm + '.arg' if nm in RESERVED else nm, self.sorts.sort(t))
            st.store[p.id] = v
            if t.k == 'int' and self.c.overflow:
                lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
                st.pc.append(z3.And(v >= lo, v <= hi))
        for v in list(st.store.values()):
            self.wf(st, v)
        self.entry = st.copy()
        # an aliased reference parameter reads the same variable; keep the entry value
        e = Env(self, st)
        for nm, f in norm(c.requires(e)):
            st.pc.append(f)
        self.entry.pc = list(st.pc)
        self.covers.append(('precondition satisfiable', list(st.pc)))
        self.ret_ref = [fn.raw['qt'].split('(')[0].strip().endswith('&')]
        outs = self.exec(F.body(fn), st)
        nret = 0
        for (k, s, v) in outs:
            if k in ('normal', 'return'):
                nret += 1
                e = Env(self, s, None, v)
                if c.ret_hint:
                    self.take(s, c.ret_hint(e), f'exit {nret}', None)
                for nm, f in norm(c.ensures(e)):
                    self.oblige(s, 'post', f'postcondition: {nm}' + (f' [exit {nret}]' if nret > 1 else ''), f)
                # frame: reference and pointer parameters not listed in modifies, and fields of *this
                for p in F.params(fn):
                    nm = self.rename.get(p.id, p.name)
                    if nm in c.modifies or p.id in s.alias:
                        continue
                    a, b = self.entry.store.get(p.id), s.store.get(p.id)
                    if isinstance(a, Ptr):
                        x, y = self.entry.store.get(a.lv.root), s.store.get(a.lv.root)
                        al = [q for q in F.params(fn) if (self.rename.get(q.id, q.name) in c.modifies) and isinstance(self.entry.store.get(q.id), Ptr) and self.entry.store[q.id].lv.root == a.lv.root]
                        if x is not None and y is not None and not x.eq(y) and not al:
                            self.oblige(s, 'frame', f'{nm} is not modified', x == y)
                    elif isinstance(a, z3.ExprRef) and p.raw['qt'].strip().endswith('&') and not a.eq(b):
                        al = [k2 for k2, v2 in c.alias.items() if v2 == nm and k2 in c.modifies]
                        if not al:
                            self.oblige(s, 'frame', f'{nm} is not modified', a == b)
                for r, b in s.store.items():
                    if isinstance(r, tuple) and r[0] == 'this' and not c.flags.get('object'):
                        a = self.entry.store.get(r)
                        if a is not None and not a.eq(b) and ('this.' + r[1]) not in c.modifies:
                            self.oblige(s, 'frame', f'this->{r[1]} is not modified', a == b)
                self.covers.append((f'exit {nret} reachable', list(s.pc)))
        if nret == 0 and not c.flags.get('noreturn'):
            raise Unsupported('no reachable exit')
        ax = list(c.axioms(self) if callable(c.axioms) else c.axioms) + self.key_ax
        for o in self.obls:
            o.hyps = ax + o.hyps
        self.covers = [(nm, ax + h) for nm, h in self.covers]
        return self.obls


class CalleeView:
    """Env for a callee's contract at a call site"""

    def __init__(s, eng, c, fn, st, old=None, result=None):
        s.eng, s.c, s.fn, s.st, s.old_st, s.result = eng, c, fn, st, old or st, result
        s.rn = {}
        lk = eng.alllocks.get(c.label) if hasattr(eng, 'alllocks') else None
        ps = F.params(fn)
        if lk:
            for p, (nm, _) in zip(ps, lk['locals'][:len(ps)]):
                s.rn[p.id] = nm
        s.x = {}

    def _get(s, st, name):
        for p in F.params(s.fn):
            if s.rn.get(p.id, p.name) == name:
                if p.id in st.alias:
                    return s.eng.read(st, st.alias[p.id])
                return st.store[p.id]
        raise Unsupported(f'callee parameter {name}')

    def __getitem__(s, name):
        return s._get(s.st, name)

    def old(s, name):
        return s._get(s.old_st, name)

    def obj(s, name):
        v = s._get(s.st, name)
        return s.eng.read(s.st, v.lv) if isinstance(v, Ptr) else v

    def oldobj(s, name):
        v = s._get(s.old_st, name)
        return s.eng.read(s.old_st, v.lv) if isinstance(v, Ptr) else v

    def f(s, name):
        r = ('this', name)
        if r not in s.st.store:
            s.eng._field(s.st, name, ty(s.c.fields.get(name) or s.eng.c.fields.get(name)))
        return s.st.store[r]

    def oldf(s, name):
        r = ('this', name)
        return s.old_st.store.get(r, s.st.store.get(r))
