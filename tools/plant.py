#!/usr/bin/env python3
"""plant.py DEF.py : build /verif/seeded/<id>/ from bug definitions (list BUGS) after confirming each in a scratch copy"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SCR = '/tmp/w/plant'


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=cwd, CUDA_VISIBLE_DEVICES='', **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(d):
    o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '--tb=no', 'tests'], d, dict(PYTHONHASHSEED='0')).stdout
    m = re.search(r'(\d+) passed', o)
    return int(m.group(1)) if m else 0


def main():
    spec = importlib.util.spec_from_file_location('d', sys.argv[1])
    d = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(d)
    only = sys.argv[2:]
    for b in d.BUGS:
        if only and b['id'] not in only:
            continue
        if os.path.exists(SCR):
            shutil.rmtree(SCR)
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        shutil.copytree('/repo', SCR, symlinks=True)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(SCR, f)
            s = open(p).read()
            if s.count(old) < 1 or (s.count(old) > 1 and not b.get('first')):
                bad = f'{f}: pattern occurs {s.count(old)} times'
                break
            open(p, 'w').write(s.replace(old, new, 1))
        out = os.path.join(V, 'seeded', b['id'])
        if not bad:
            os.makedirs(out, exist_ok=True)
            diff = sh(['git', 'diff'], SCR).stdout
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            open(os.path.join(out, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + d.PRE + b['demo'])
            open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            r1 = sh(['bash', os.path.join(out, 'demo.sh')], SCR)
            n = tests(SCR)
            r0 = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
            if r0.returncode != 0:
                bad = 'demo fails on the unchanged tree: ' + r0.stdout[-600:]
            elif r1.returncode == 0:
                bad = 'demo passes with the patch ' + r1.stdout[-300:]
            elif n != 52:
                bad = f'{n} tests pass'
        print(b['id'], b['property'], 'OK: ' + r1.stdout.strip().splitlines()[-1][:150] if not bad else 'BAD ' + bad, flush=True)
        if bad and os.path.exists(out):
            shutil.rmtree(out)
    shutil.rmtree(SCR, ignore_errors=True)


main()
