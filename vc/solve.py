"""Discharge obligations with z3 (z3-new binary) and cvc5, in parallel; each query is one SMT-LIB file."""
import os, subprocess, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
import z3

Z3BIN = shutil.which('z3-new') or shutil.which('z3')
CVC5 = shutil.which('cvc5')


def smt(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


Z3OLD = shutil.which('z3')


def run_z3(path, to, extra=(), bin=None):
    try:
        p = subprocess.run([bin or Z3BIN, f'-T:{to}', '-memory:3000', *extra, path], capture_output=True, text=True, timeout=to + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o
    except subprocess.TimeoutExpired:
        return 'timeout'


def run_cvc5(path, to):
    try:
        p = subprocess.run([CVC5, f'--tlimit={to*1000}', '--full-saturate-quant', path], capture_output=True, text=True, timeout=to + 10)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'error'
    except subprocess.TimeoutExpired:
        return 'timeout'


def solve_one(text, to, cvc5_first=False):
    t0 = time.time()
    if os.environ.get('VC_FAST'):
        to = min(to, 3)
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc_')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    best = 'unknown'
    try:
        old = [lambda t: ('z3 4.8', run_z3(path, t, (), Z3OLD))] if Z3OLD and Z3OLD != Z3BIN else []
        plain = lambda t: ('z3', run_z3(path, t))
        nombqi = lambda t: ('z3/mbqi=off', run_z3(path, t, ('smt.mbqi=false', 'smt.auto_config=false')))
        alt = lambda t: ('z3/case_split=3', run_z3(path, t, ('smt.arith.solver=2', 'smt.random_seed=7')))
        cv = lambda t: ('cvc5', run_cvc5(path, t))
        # a short round of each first, then a long one
        for fn, t in [(plain, min(to, 2))] + [(f, min(to, 3)) for f in old + [nombqi]] + [(f, to) for f in [nombqi] + old + [cv, alt]]:
            name, r = fn(t)
            if r == 'unsat':
                return 'proved', name, time.time() - t0
            if r == 'sat' and name not in ('z3/mbqi=off', 'z3 4.8'):
                return 'refuted', name, time.time() - t0
        return best, 'z3+cvc5', time.time() - t0
    finally:
        os.unlink(path)


def discharge(obls, timeout=10, jobs=8, deadline=None):
    def work(item):
        o, text = item
        if deadline and time.time() > deadline:
            o.status, o.backend, o.time = 'unknown', 'budget exhausted', 0
            return
        o.status, o.backend, o.time = solve_one(text, o.timeout or timeout)
    # serialise in this thread: z3's python context is not thread safe
    items = []
    for o in obls:
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.backend, o.time = 'proved', 'simplifier', 0.0
            continue
        items.append((o, smt(o.hyps, o.goal)))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, items))
    # a few leftovers are tried again, with more time and less competition
    left = [(o, t) for o, t in items if o.status == 'unknown' and o.backend != 'budget exhausted']
    if left and len(left) <= 6 and not os.environ.get('VC_FAST') and not (deadline and time.time() > deadline - 200):
        def again(item):
            o, text = item
            o.timeout = 2 * (o.timeout or timeout)
            t = o.time
            work(item)
            o.time = (o.time or 0) + t
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(again, left))
    return obls


def cover(covers, jobs=8, timeout=2):
    """vacuity guard: names of assumption sets that are contradictory"""
    bad = []
    items = [(nm, smt(h, z3.BoolVal(False))) for nm, h in covers]

    def work(it):
        nm, text = it
        fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vc_')
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        try:
            r = run_z3(path, timeout)
        finally:
            os.unlink(path)
        if r == 'unsat':
            bad.append(nm)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, items))
    return bad
