"""Prove all contracts of one property."""
import importlib, json, os, sys, time, traceback
sys.setrecursionlimit(20000)
from . import front as F, solve
from .engine import Engine, Unsupported, find_function
from .spec import Lemma, FACTS

HERE = os.path.dirname(os.path.abspath(__file__))
LOCK = os.path.join(HERE, 'lock.json')


def load_lock():
    return json.load(open(LOCK)) if os.path.exists(LOCK) else {}


def prove(pid, timeout=10, jobs=8, only=None, deadline=None, verbose=False, seed=1):
    mod = importlib.import_module('vc.contracts.' + pid)
    lock = load_lock()
    cs = mod.contracts()
    reg = {}
    for c in cs + (mod.assumed() if hasattr(mod, 'assumed') else []):
        if not c.alias:
            reg.setdefault(c.name, []).append(c)
    res = {'functions': [], 'obligations': [], 'undecided': [], 'vacuous': [], 'lemmas': [], 'assumed_contracts': [], 'builtins': set(), 'shape_changed': []}
    obls, covers = [], []
    for c in cs:
        if only and only not in c.label:
            continue
        if c.use_only:
            res['assumed_contracts'].append(c.label)
            continue
        lk = lock.get(pid + '|' + c.label, {})
        try:
            fn = find_function(c)
            same = (not lk) or lk.get('shape') == F.shape_hash(fn)
            eng = Engine(c, {k: [x for x in v if not (x.label == c.label)] if not c.decreases else v for k, v in reg.items()}, lk)
            eng.alllocks = {k.split('|', 1)[1]: v for k, v in lock.items() if k.startswith(pid + '|')}
            os_ = eng.run()
            obls += os_
            covers += [(c.label + ': ' + nm, h) for nm, h in eng.covers]
            res['functions'].append({'function': c.label, 'file': c.src or 'header', 'obligations': len(os_), 'shape_unchanged': same, 'unchanged': (not lk) or (lk.get('exact') == F.exact_hash(fn) and lk.get('inlined', {}) == eng.inl_hash), 'loops_unchanged': (not lk) or lk.get('skeleton') == F.skeleton(fn), 'inlined': sorted(eng.inlined), 'calls_by_contract': sorted(eng.used_contracts)})
            res['builtins'] |= eng.used_builtins
            if not same:
                res['shape_changed'].append(c.label)
        except Unsupported as ex:
            res['undecided'].append({'function': c.label, 'reason': str(ex)})
        except Exception as ex:   # a tool limit, never a verdict
            if verbose:
                traceback.print_exc()
            res['undecided'].append({'function': c.label, 'reason': f'{type(ex).__name__}: {ex}'})
    for c in (mod.assumed() if hasattr(mod, 'assumed') else []):
        res['assumed_contracts'].append(c.label)
    res['assumed_theorems'] = mod.theorems() if hasattr(mod, 'theorems') else []
    for l in (mod.lemmas() if hasattr(mod, 'lemmas') else []):
        if only and only not in l.name:
            continue
        os_ = l.obligations()
        obls += os_
        res['lemmas'].append(l.name)
    if hasattr(mod, 'extra'):
        eo, info = mod.extra()
        obls += eo
        res.update(info)
    solve.discharge(obls, timeout, jobs, deadline)
    res['vacuous'] = solve.cover(covers, jobs)
    res['covers'] = len(covers)
    res['obls'] = obls
    return res


def relock(only=None):
    lock = load_lock()
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if not f.startswith('C') or not f.endswith('.py'):
            continue
        pid = f[:-3]
        if only and pid not in only:
            continue
        for k in [k for k in lock if k.startswith(pid + '|')]:
            del lock[k]
        mod = importlib.import_module('vc.contracts.' + pid)
        for c in mod.contracts():
            try:
                fn = find_function(c)
            except Unsupported as ex:
                print('lock:', pid, c.label, ex)
                continue
            eng = Engine(c, {}, {'locals': F.locals_of(fn)})
            try:
                reg = {}
                for x in mod.contracts() + (mod.assumed() if hasattr(mod, 'assumed') else []):
                    if not x.alias and (x.label != c.label or c.decreases):
                        reg.setdefault(x.name, []).append(x)
                eng.registry = reg
                eng.alllocks = {}
                eng.run()
            except Unsupported as ex:
                print('lock:', pid, c.label, ex)
            lock[pid + '|' + c.label] = {'inlined': eng.inl_hash, 'locals': F.locals_of(fn), 'shape': F.shape_hash(fn), 'exact': F.exact_hash(fn), 'skeleton': F.skeleton(fn), 'loops': len(F.loops_of(fn))}
    json.dump(lock, open(LOCK, 'w'), indent=0, sort_keys=True)


def summary(pid, r, dt):
    """what check.py needs; decides which failed obligations are alarms"""
    lock = load_lock()
    obls = r['obls']
    status = {f['function']: f for f in r['functions']}
    alarms, opened = [], []
    for o in obls:
        if o.status == 'proved':
            continue
        item = {'obligation': o.label, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'seconds': round(o.time, 1), 'line': o.line}
        opened.append(item)
        f = status.get(o.func)
        # an obligation of a function whose code is as it was is a solver matter, not a change of behaviour
        if f is None or f['unchanged'] or not f['loops_unchanged']:
            continue
        if o.label in (r.get('known_open') or []):
            continue
        alarms.append(item)
    back = {}
    for o in obls:
        if o.status == 'proved':
            back[o.backend] = back.get(o.backend, 0) + 1
    und = list(r['undecided'])
    return {'functions': [dict(f, discharged=sum(1 for o in obls if o.func == f['function'] and o.status == 'proved')) for f in r['functions']],
            'counts': {'obligations': len(obls), 'discharged': sum(o.status == 'proved' for o in obls)}, 'undecided': und, 'open': opened, 'alarms': alarms,
            'builtins': sorted(r['builtins']), 'assumed_contracts': r['assumed_contracts'], 'backends': back, 'solver_seconds': round(sum(o.time for o in obls), 1),
            'lemmas': r['lemmas'], 'covers': r['covers'], 'vacuous': r['vacuous'], 'assumptions': r.get('assumptions', []), 'assumed_theorems': r.get('assumed_theorems', []), 'wall': round(dt, 1)}


if __name__ == '__main__':
    if sys.argv[1] == 'lock':
        relock(sys.argv[2:] or None)
        sys.exit()
    t = time.time()
    args = sys.argv[2:]
    budget = 1e9
    out = None
    pos = []
    while args:
        a = args.pop(0)
        if a == '--json':
            out = args.pop(0)
        elif a == '--budget':
            budget = float(args.pop(0))
        elif a not in ('-v', '-s'):
            pos.append(a)
    r = prove(sys.argv[1], only=pos[0] if pos else None, verbose=out is None, deadline=t + budget)
    if out:
        json.dump(summary(sys.argv[1], r, time.time() - t), open(out, 'w'))
        sys.exit()
    for o in r['obls']:
        if o.status != 'proved' or '-v' in sys.argv or ('-s' in sys.argv and o.time > 3):
            print(o.status, o.label, o.backend, f'{o.time:.1f}')
    print('functions', len(r['functions']), 'obligations', len(r['obls']), 'proved', sum(o.status == 'proved' for o in r['obls']), 'undecided', r['undecided'], 'vacuous', r['vacuous'], f'{time.time()-t:.1f}s')
