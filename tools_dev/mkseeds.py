#!/usr/bin/env python3
"""Regenerate /verif/seeded from tools_dev/seeds_def.py: one folder per planted bug (patch against /repo's HEAD, demo, meta)."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS
OUT = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds on this input
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
objs=$(ls "$repo"/build/*/*.o | grep -v /examples/)
g++ -std=c++11 -O1 -fopenmp -I"$repo" "$here/demo.cc" $objs -o "$tmp/demo" -lntl -lmpfr -lgmpxx -lgmp -lflint -lm -lpthread || exit 3
cd "$tmp" && timeout 250 ./demo
'''
only = sys.argv[1:]
for s in SEEDS:
    if only and s['id'] not in only:
        continue
    d = os.path.join(OUT, s['id'])
    w = '/tmp/w/seedsrc'
    subprocess.run(['rm', '-rf', w]); subprocess.run(['mkdir', '-p', w])
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {w}; cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm x', shell=True, check=True)
    for f, a, b in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cc', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], 'written')
