#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

  check.py <ID> [--tier quick|thorough]

1. vc/ generates the obligations of every function under contract from the current source and discharges them.
2. harness/<ID>.cc replays the same contracts on the compiled code of the current tree (failing inputs, bounded stand-ins).
3. Verdict: exit 1 with a VIOLATION line if an input breaks a contract, or if an obligation of a changed function that
   was discharged before is no longer dischargeable; exit 0 otherwise.  Evidence: evidence/<ID>.json
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from harness.props import PROPS   # noqa: E402

DIRS = ['conv', 'dr', 'dr_nd', 'hypersurface', 'hypersurface_nd', 'matrix', 'solve_system', 'tools', 'vec_int64', 'wrapper']
LIBS = ['-lntl', '-lmpfr', '-lgmpxx', '-lgmp', '-lflint', '-lm', '-lpthread']


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        r = subprocess.CompletedProcess(cmd, -99, (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout')
        return r


def build(pid, conf, out):
    flags = ['-std=c++11', '-fopenmp', '-O1', '-g', '-DNTL_RANGE_CHECK', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO, '-I' + os.path.join(HERE, 'harness')]
    if conf.get('asan'):
        flags += ['-fsanitize=address']
    jobs = [(os.path.join(HERE, 'harness', conf.get('src', pid) + '.cc'), os.path.join(out, 'harness.o'))]
    for d in conf.get('dirs', DIRS):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.cc'))):
            if not os.path.basename(f).startswith('test_'):
                jobs.append((f, os.path.join(out, d + '_' + os.path.basename(f)[:-3] + '.o')))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    errs = []

    def one(j):
        r = sh(['g++', *flags, '-c', j[0], '-o', j[1]], 400)
        if r.returncode != 0:
            errs.append((j[0], r.stderr[-1500:]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    if errs:
        return None, errs
    exe = os.path.join(out, 'harness')
    r = sh(['g++', *flags, *[j[1] for j in jobs], '-o', exe, *LIBS], 200)
    if r.returncode != 0:
        return None, [('link', r.stderr[-1500:])]
    return exe, []


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    conf = PROPS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vchk_{pid}_')
    try:
        return run(pid, conf, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, conf, tier, seed, scratch, t0):
    thorough = tier == 'thorough'
    # ---------------- deductive part (its own process)
    pout = os.path.join(scratch, 'proof.json')
    env = dict(os.environ, TMPDIR=scratch)
    has_proof = os.path.exists(os.path.join(HERE, 'vc', 'contracts', pid + '.py'))
    prover = None
    if has_proof:
        prover = subprocess.Popen(['python3-vt', '-m', 'vc.run', pid, '--json', pout, '--budget', str(600 if thorough else 200)], cwd=HERE, env=env,
                                  stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, 'prover.err'), 'w'))
    # ---------------- replay part
    exe, errs = build(pid, conf, scratch)
    h = {'planned': 0, 'done': 0, 'nontrivial': 0, 'distinct': 0, 'samples': [], 'fails': [], 'incomplete': []}
    budget = conf.get('budget', 20) * (12 if thorough else 1)
    if exe:
        henv = dict(env, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1', OMP_WAIT_POLICY='passive', LC_ALL='C')
        cmd = [exe, '--seed', str(seed), '--budget', str(budget)] + (['--thorough'] if thorough else [])
        cwd = os.path.join(scratch, 'run')
        os.mkdir(cwd)
        r = sh(cmd, budget + 500, env=henv, cwd=cwd)
        for l in r.stdout.splitlines():
            f = l.split('\t')
            if f[0] == 'DONE':
                h.update(planned=int(f[1]), done=int(f[2]), nontrivial=int(f[3]), distinct=int(f[4]))
            elif f[0] == 'SAMPLE':
                h['samples'].append(f[1][:600])
            elif f[0] == 'FAIL':
                h['fails'].append({'case': int(f[1]), 'what': f[2], 'input': f[3] if len(f) > 3 else ''})
            elif l.startswith('INCOMPLETE'):
                h['incomplete'].append(l)
    proof = None
    if prover:
        try:
            prover.wait(timeout=1500 if thorough else 500)
        except subprocess.TimeoutExpired:
            prover.kill()
            prover.wait()
        if os.path.exists(pout):
            proof = json.load(open(pout))
    # ---------------- known findings
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('known: property=' + pid + ' '):
                known.append(l.split(' ', 2)[2].strip())
    fails = []
    for f in h['fails']:
        k = [x for x in known if x.split(' ')[0] in f['what'] + ' ' + f['input']]
        if k:
            print(f'KNOWN-FINDING: property={pid} {k[0]}')
        else:
            fails.append(f)
    # ---------------- evidence
    functions = proof['functions'] if proof else []
    nob = proof['counts']['obligations'] if proof else 0
    ndis = proof['counts']['discharged'] if proof else 0
    undecided = (proof['undecided'] if proof else []) or []
    open_obl = proof['open'] if proof else []
    alarms = proof['alarms'] if proof else []
    level = conf.get('level', 'proof' if has_proof else 'exploration')
    cov = {
        'obligations': nob, 'discharged': ndis, 'checker_cmd': f'cd /verif && python3-vt -m vc.run {pid}',
        'trusted_base': (conf.get('trusted', []) + [
            'vc/engine.py and vc/builtins.py (verification-condition generator, semantics of the library calls listed below), clang 18 AST, z3, cvc5',
            'integers of NTL/GMP/FLINT are mathematical integers; allocation does not fail; container lengths are at most 2^60'] +
            ([f'library call semantics: {", ".join(proof["builtins"])}'] if proof and proof['builtins'] else []) +
            ([f'assumed contract: {a}' for a in proof['assumed_contracts']] + [f'assumed theorem: {a}' for a in proof['assumed_theorems']] if proof else [])),
        'functions_under_contract': functions,
        'backends': proof['backends'] if proof else {}, 'solver_seconds': proof['solver_seconds'] if proof else 0,
        'lemmas': proof['lemmas'] if proof else [], 'vacuity_covers': proof['covers'] if proof else 0, 'vacuous': proof['vacuous'] if proof else [],
        'open_obligations': open_obl[:40], 'undecided_functions': undecided,
        'bounded_standins': conf.get('bounded', []),
        'evaluations': h['done'], 'distinct_nontrivial': h['distinct'], 'rule': conf.get('rule', ''), 'samples': h['samples'],
        'harness_planned': h['planned'], 'harness_incomplete': h['incomplete'],
        'explanation': conf.get('explanation', ''),
    }
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': conf.get('assumptions', []) + (proof['assumptions'] if proof else []), 'wall_s': round(time.time() - t0, 1), 'violations': 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.path.join(HERE, 'evidence', pid + '.json')
    rp = os.path.join(HERE, 'evidence', f'replay_{pid}.json')

    def write(nv):
        ev['violations'] = nv
        ev['wall_s'] = round(time.time() - t0, 1)
        json.dump(ev, open(evp, 'w'), indent=1)

    if os.path.exists(rp):
        os.unlink(rp)
    if not exe:
        # the tree does not build: no answer about the property is possible from running it
        print(f'{pid}: the current tree or the harness does not compile: {errs[0][0]}', file=sys.stderr)
        print(errs[0][1], file=sys.stderr)
        cov['open_obligations'] = [str(errs[0])] + cov['open_obligations']
        write(0)
        if not alarms:
            return 2
    if fails:
        json.dump({'property': pid, 'kind': 'failing input on the compiled code of /repo', 'failures': fails, 'seed': seed, 'tier': tier,
                   'how_to_replay': f'build harness/{pid}.cc against /repo as check.py does, run with --seed {seed} --case {fails[0]["case"]}' + (' --thorough' if thorough else ''),
                   'failed_obligations': alarms}, open(rp, 'w'), indent=1)
        write(len(fails))
        print(f'{pid}: {fails[0]["what"][:400]}')
        print(f'{pid}: input {fails[0]["input"][:400]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if alarms:
        json.dump({'property': pid, 'kind': 'obligation no longer discharged; no failing input found', 'failed_obligations': alarms}, open(rp, 'w'), indent=1)
        write(len(alarms))
        for a in alarms[:5]:
            print(f'{pid}: failed obligation: {a["obligation"]}')
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        return 1
    write(0)
    print(f'{pid}: {ndis}/{nob} obligations discharged over {len(functions)} functions, {len(undecided)} undecided functions; {h["done"]} replayed cases ({h["distinct"]} distinct), all held; {time.time()-t0:.0f}s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
