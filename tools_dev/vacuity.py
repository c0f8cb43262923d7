"""Deeper consistency check of the assumption sets: a longer hunt for contradictions among hypotheses, with three provers.
usage: python3-vt tools_dev/vacuity.py C10 [filter] [seconds]"""
import os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vc import run, solve
import z3
pid = sys.argv[1]
filt = sys.argv[2] if len(sys.argv) > 2 else None
secs = int(sys.argv[3]) if len(sys.argv) > 3 else 30
sets = []
solve.cover = lambda covers, *a, **k: sets.extend((nm, solve.smt(h, z3.BoolVal(False))) for nm, h in covers) or []
solve.discharge = lambda o, *a, **k: o
run.prove(pid, only=filt)


def work(it):
    nm, text = it
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write(text)
        f.flush()
        for name, fn in (('z3', lambda: solve.run_z3(f.name, secs)), ('z3 nombqi', lambda: solve.run_z3(f.name, secs, ('smt.mbqi=false', 'smt.auto_config=false'))), ('z3 4.8', lambda: solve.run_z3(f.name, secs, (), solve.Z3OLD)), ('cvc5', lambda: solve.run_cvc5(f.name, secs))):
            r = fn()
            if r == 'unsat':
                return nm, name, r
    return nm, '', 'ok'


with ThreadPoolExecutor(8) as ex:
    for nm, name, r in ex.map(work, sets):
        if r == 'unsat':
            print('CONTRADICTION', nm, name)
print(pid, len(sets), 'assumption sets looked at')
