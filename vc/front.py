"""Front end: clang's typed AST of the current /repo sources, reduced to small nodes.

Nothing is dropped silently: a node kind the engine does not know raises Unsupported when it is executed.
What the reduction drops: source locations other than line numbers, value categories, implicit destructor
calls, and the text of assert messages.
"""
import json, os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
# declarations of omp.h, searched after everything else
GCC_INC = ['-idirafter', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')]


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ('k', 'name', 'op', 'val', 'type', 'ref', 'inner', 'line', 'id', 'cast', 'arrow', 'raw', 'parent', 'storage')

    def __repr__(self):
        return f'<{self.k} {self.name or self.op or self.val or ""}>'

    def walk(self):
        yield self
        for c in self.inner:
            if c is not None:
                yield from c.walk()


class Ref:
    __slots__ = ('id', 'name', 'kind', 'type')

    def __init__(s, d):
        s.id = d.get('id')
        s.name = d.get('name')
        s.kind = d.get('kind')
        s.type = d.get('type', {}).get('qualType')


def _mk(d, line=[0]):
    n = Node()
    n.k = d.get('kind')
    loc = d.get('loc') or {}
    rng = (d.get('range') or {}).get('begin') or {}
    for l in (loc, rng, rng.get('expansionLoc') or {}, loc.get('expansionLoc') or {}):
        if 'line' in l:
            line[0] = l['line']
            break
    n.line = line[0]
    n.name = d.get('name')
    n.op = d.get('opcode')
    n.val = d.get('value')
    t = d.get('type') or {}
    n.type = t.get('desugaredQualType') or t.get('qualType')
    n.cast = d.get('castKind')
    n.arrow = d.get('isArrow')
    n.id = d.get('id')
    n.ref = Ref(d['referencedDecl']) if 'referencedDecl' in d else None
    n.storage = d.get('storageClass')
    n.parent = None
    n.raw = {k: d[k] for k in ('hasElse', 'hasInit', 'isPostfix', 'argType', 'init', 'isArray', 'mangledName', 'hasVar', 'desugared') if k in d}
    n.raw['qt'] = t.get('qualType')
    n.inner = [(_mk(c) if c and c.get('kind') else None) for c in d.get('inner', [])]
    return n


def dump(src, name, text=None, extra=()):
    """all top level documents clang prints for declarations whose name contains `name`."""
    args = [CLANG, '-std=c++11', '-fsyntax-only', '-fopenmp', '-I' + REPO, *GCC_INC, *extra,
            '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name]
    if text is not None:
        p = subprocess.run(args + ['-x', 'c++', '-'], input=text, capture_output=True, text=True, timeout=240)
    else:
        p = subprocess.run(args + [os.path.join(REPO, src)], capture_output=True, text=True, timeout=240)
    if p.returncode != 0:
        raise Unsupported(f'clang failed on {src}: {p.stderr[-400:]}')
    out = p.stdout
    dec = json.JSONDecoder()
    i, docs = 0, []
    while True:
        while i < len(out) and out[i] in ' \n\r\t':
            i += 1
        if i >= len(out):
            break
        d, i = dec.raw_decode(out, i)
        docs.append(d)
    return docs


_FKINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl')
_cache = {}


def functions(src, name, text=None):
    """list of Node for all function definitions (with a body) called `name`, template instantiations included."""
    key = (src, name, text)
    if key in _cache:
        return _cache[key]
    out = []

    def rec(d, intmpl):
        k = d.get('kind')
        if k == 'FunctionTemplateDecl':
            first = True
            for c in d.get('inner', []):
                if c.get('kind') in _FKINDS:
                    if first:
                        first = False   # the template pattern itself
                        continue
                    rec(c, True)
            return
        if k in _FKINDS and d.get('name') == name and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
            out.append(_mk(d))
            return
        if k in ('CXXRecordDecl', 'NamespaceDecl', 'LinkageSpecDecl'):
            for c in d.get('inner', []):
                rec(c, intmpl)

    for d in dump(src, name, text):
        rec(d, False)
    _cache[key] = out
    return out


def params(fn):
    return [c for c in fn.inner if c is not None and c.k == 'ParmVarDecl']


def body(fn):
    return [c for c in fn.inner if c is not None and c.k == 'CompoundStmt'][-1]


# ---------------------------------------------------------------- types
class T:
    """normalised type"""
    __slots__ = ('k', 'a', 'bits', 'signed', 'ref', 'const')

    def __init__(s, k, a=(), bits=0, signed=True):
        s.k, s.a, s.bits, s.signed, s.ref, s.const = k, tuple(a), bits, signed, False, False

    def key(s):
        if s.k == 'int':
            return f"{'i' if s.signed else 'u'}{s.bits}"
        return s.k + (('<' + ','.join(x.key() if isinstance(x, T) else str(x) for x in s.a) + '>') if s.a else '')

    def __repr__(s):
        return s.key()

    def __eq__(s, o):
        return isinstance(o, T) and s.key() == o.key()

    def __hash__(s):
        return hash(s.key())


_INTS = {'long': (64, True), 'int64_t': (64, True), 'slong': (64, True), 'int': (32, True), 'unsigned long': (64, False), 'ulong': (64, False),
         'size_t': (64, False), 'mp_limb_t': (64, False), 'unsigned int': (32, False), 'unsigned': (32, False), 'char': (8, True),
         'unsigned char': (8, False), 'long long': (64, True), 'unsigned long long': (64, False), 'std::size_t': (64, False), 'uint64_t': (64, False),
         'mp_size_t': (64, True), 'mp_limb_signed_t': (64, True), 'nmod_dot_params_t': (32, True), 'short': (16, True), '__gmp_const mp_limb_t': (64, False), 'size_type': (64, False)}


def _split(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            depth += 1
        if ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [o.strip() for o in out]


_tc = {}


def ty(s):
    if s in _tc:
        return _tc[s]
    t = _ty(s)
    _tc[s] = t
    return t


def _ty(s):
    if s is None:
        return T('void')
    s = s.strip()
    s = re.sub(r'\b(NTL|std|flint)::', '', s)
    s = re.sub(r'\b(class|struct|typename|enum) ', '', s)
    s = re.sub(r'__restrict', '', s).strip()
    if s.endswith('&&'):
        t = ty(s[:-2])
        r = T(t.k, t.a, t.bits, t.signed)
        r.ref = True
        return r
    if s.endswith('&'):
        t = ty(s[:-1])
        r = T(t.k, t.a, t.bits, t.signed)
        r.ref = True
        r.const = s.startswith('const ')
        return r
    if s.endswith('const') and not s.endswith('_const'):
        return ty(s[:-5])
    m = re.match(r'^(.*)\*$', s)
    if m:
        return T('ptr', [ty(m.group(1))])
    m = re.match(r'^(.*)\[(\d*)\]$', s)
    if m:
        b = m.group(1).strip()
        if b in ('__mpz_struct', 'const __mpz_struct') and m.group(2) == '1':
            return T('ZZ')
        if m.group(2) == '1' and b.replace('const ', '') in ('slong', 'fmpz', 'long') and 'fmpz' in b:
            return T('ZZ')
        return T('ptr', [ty(b)])
    if s.startswith('const '):
        return ty(s[6:])
    if s in ('nn_srcptr', 'nn_ptr', 'mp_ptr', 'mp_srcptr'):
        return T('ptr', [ty('mp_limb_t')])
    if s in _INTS:
        b, sg = _INTS[s]
        return T('int', (), b, sg)
    if s in ('bool', '_Bool'):
        return T('bool')
    if s == 'void':
        return T('void')
    if s in ('double', 'float'):
        return T('double')
    if s in ('ZZ', 'mpz_t', 'fmpz_t', 'fmpz', '__mpz_struct'):
        return T('ZZ')
    if s in ('ZZ_p', 'zz_p'):
        return T(s)
    m = re.match(r'^(Vec|vector)<(.*)>$', s)
    if m:
        return T('vec', [ty(_split(m.group(2))[0])])
    m = re.match(r'^Mat<(.*)>$', s)
    if m:
        return T('mat', [ty(m.group(1))])
    if s in ('vec_ZZ_p',):
        return T('vec', [T('ZZ_p')])
    if s in ('vec_zz_p',):
        return T('vec', [T('zz_p')])
    if s in ('vec_ZZ',):
        return T('vec', [T('ZZ')])
    if s in ('fmpz_mat_struct', 'fmpz_mat_t'):
        return T('fmpz_mat')
    if s == 'ZZX':
        return T('ZZX')      # the array of coefficients
    if s == 'nmod_t':
        return T('nmod_t')
    if s in ('nmod_mat_struct', 'nmod_mat_t'):
        return T('nmod_mat')
    m = re.match(r'^map<(.*)>$', s)
    if m:
        a = _split(m.group(1))
        return T('map', [ty(a[0]), ty(a[1])])
    m = re.match(r'^pair<(.*)>$', s)
    if m:
        a = _split(m.group(1))
        return T('pair', [ty(a[0]), ty(a[1])])
    m = re.match(r'^map<(.*)>::(const_)?(iterator)$', s)
    if m:
        a = _split(m.group(1))
        return T('iter', [T('map', [ty(a[0]), ty(a[1])])])
    m = re.match(r'^_Rb_tree_(const_)?iterator<pair<(.*)>>$', s.replace(' >', '>'))
    if m:
        a = _split(m.group(2))
        return T('iter', [T('map', [ty(a[0]), ty(a[1])])])
    return T('op:' + s)


# ---------------------------------------------------------------- shapes
_SKIP = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'NullStmt'}


def shape(n):
    """tree of node kinds only: no names, operators or constants. Used to tell an edit that keeps the program's shape from a restructuring."""
    if n is None:
        return '_'
    if n.k in _SKIP:
        return ''.join(shape(c) for c in n.inner)
    if n.k in ('IntegerLiteral', 'DeclRefExpr', 'CXXBoolLiteralExpr'):
        return 'a'
    if n.k == 'MemberExpr':
        return 'm(' + ''.join(shape(c) for c in n.inner) + ')'
    if n.k == 'DeclStmt' or n.k == 'CompoundStmt':
        return '{' + ''.join(shape(c) for c in n.inner) + '}'
    return n.k[:4] + n.k[-4:] + '(' + ''.join(shape(c) for c in n.inner) + ')'


def shape_hash(fn):
    return hashlib.sha1(shape(body(fn)).encode()).hexdigest()[:16]


def locals_of(fn):
    out = [(p.name, ty(p.type).key()) for p in params(fn)]
    for n in body(fn).walk():
        if n.k == 'VarDecl':
            out.append((n.name, ty(n.type).key()))
    return out


def _exact(n, names, out):
    if n is None:
        out.append('_')
        return
    if n.k in _SKIP:
        for c in n.inner:
            _exact(c, names, out)
        return
    nm = n.ref.name if n.ref is not None else n.name
    i = n.ref.id if n.ref is not None else n.id
    if i in names:
        nm = names[i]
    out.append(f'{n.k}|{nm}|{n.op}|{n.val}|{n.cast}|{n.raw.get("isPostfix")}(')
    for c in n.inner:
        _exact(c, names, out)
    out.append(')')


def _names(fn):
    ids = [p.id for p in params(fn)] + [x.id for x in body(fn).walk() if x.k == 'VarDecl']
    return {i: f'v{j}' for j, i in enumerate(ids)}


def exact_hash(fn):
    """the function up to renaming of its parameters and locals"""
    out = []
    _exact(body(fn), _names(fn), out)
    return hashlib.sha1(''.join(out).encode()).hexdigest()[:16]


def is_once(n):
    """do { } while (0)"""
    return n.k == 'DoStmt' and any(x.k in ('IntegerLiteral', 'CXXBoolLiteralExpr') and str(x.val) in ('0', 'False', 'false') for x in n.inner[1].walk()) and len(list(n.inner[1].walk())) <= 3


def loops_of(fn):
    return [x for x in body(fn).walk() if x.k in ('ForStmt', 'WhileStmt', 'DoStmt') and not is_once(x)]


def skeleton(fn):
    """loop headers in order, up to renaming: the invariants of a contract are written against these"""
    out = []

    for x in loops_of(fn):
        names = {}

        def name_of(i):
            return names.setdefault(i, f'w{len(names)}')
        s = []

        def rec(n):
            if n is None:
                s.append('_')
                return
            if n.k in _SKIP:
                for c in n.inner:
                    rec(c)
                return
            nm = n.ref.name if n.ref is not None else n.name
            i = n.ref.id if n.ref is not None else n.id
            if n.k in ('DeclRefExpr', 'VarDecl'):
                nm = name_of(i) if (n.ref is None or n.ref.kind in ('VarDecl', 'ParmVarDecl')) else nm
            s.append(f'{n.k}|{nm}|{n.op}|{n.val}(')
            for c in n.inner:
                rec(c)
            s.append(')')
        hd = x.inner[:-1] if x.k != 'DoStmt' else x.inner[1:]
        for c in hd:
            rec(c)
        out.append(hashlib.sha1(''.join(s).encode()).hexdigest()[:10])
    return out
