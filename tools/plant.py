"""Keeps planted bugs after confirming them, and says which checks catch them.

usage: python3 tools/plant.py SPEC.py [BUG...] [--checks C01,C02]
SPEC.py defines BUGS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)], demo=, also=[...])].
Every bug is planted in a scratch copy of /repo which is removed afterwards.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'cfb6132'
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests(copy):
    env = dict(os.environ, TZ='UTC', PYTHONPATH=copy, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    sh('find . -name __pycache__ -prune -exec rm -rf {} +', cwd=copy)
    r = sh(f'{PY} -m pytest test -q -p no:cacheprovider --timeout=60 -x 2>&1 | tail -3', cwd=copy, env=env)
    return r.stdout.strip().splitlines()[-1]


def demo(folder, copy):
    return sh(f'sh {folder}/demo.sh', cwd=copy, timeout=300)


def plant(bug, checks):
    kept = os.path.join(ROOT, 'seeded', bug['id'])
    scratch = tempfile.mkdtemp(prefix='plant-')
    copy, folder = os.path.join(scratch, 'repo'), os.path.join(scratch, 'bug')
    os.mkdir(folder)
    try:
        sh(f'git clone -q /repo {copy}')
        with open(f'{folder}/demo.py', 'w') as fp:
            fp.write(bug['demo'].lstrip())
        with open(f'{folder}/demo.sh', 'w') as fp:
            fp.write('#!/bin/sh\n# run with cwd /repo after the build\n'
                     'here=$(cd "$(dirname "$0")" && pwd)\n'
                     f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec {PY} "$here/demo.py"\n')
        with open(f'{folder}/meta.json', 'w') as fp:
            json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, fp, indent=1)
            fp.write('\n')
        print('==', bug['id'], bug['prop'])
        before = demo(folder, copy)
        if before.returncode:
            print('DROPPED: clean demo fails', before.stdout[-800:])
            return
        for path, old, new in bug['edits']:
            text = open(f'{copy}/{path}').read()
            assert text.count(old) == 1, (bug['id'], path, old, text.count(old))
            with open(f'{copy}/{path}', 'w') as fp:
                fp.write(text.replace(old, new))
        diff = sh('git diff', cwd=copy).stdout
        with open(f'{folder}/patch.diff', 'w') as fp:
            fp.write(diff)
        original = set()
        for path, _, _ in bug['edits']:
            original |= set(sh(f'git show {BASE}:{path}', cwd=copy).stdout.splitlines())
        for line in diff.splitlines():
            if line.startswith('-') and not line.startswith('---') and line[1:] not in original:
                print('NOTE: removed line is not in the original:', line)
        t = tests(copy)
        if not re.match(r'\d+ passed', t) or 'failed' in t:
            print('DROPPED: tests', t)
            return
        after = demo(folder, copy)
        if not after.returncode:
            print('DROPPED: demo passes with the patch', after.stdout[-500:])
            return
        print('tests', t, '| demo', after.stdout.strip().splitlines()[-1:])
        shutil.rmtree(kept, ignore_errors=True)
        shutil.copytree(folder, kept)
        env = dict(os.environ, MC_REPO=copy, MC_OUT=scratch)
        for check in checks or [bug['prop'], *bug.get('also', ())]:
            r = sh(f'./check {check} --quick', cwd=ROOT, env=env)
            caught = r.returncode == 1 and f'VIOLATION property={check}' in r.stdout
            print(check, 'CAUGHT' if caught else f'MISSED (exit {r.returncode}) {r.stdout[-300:]}')
            if caught:
                print('\n'.join(r.stdout.splitlines()[1:3])[:500])
    finally:
        shutil.rmtree(scratch)
        sys.stdout.flush()


args = sys.argv[1:]
checks = []
if '--checks' in args:
    i = args.index('--checks')
    checks = args[i + 1].split(',')
    del args[i:i + 2]
spec = {}
exec(open(args[0]).read(), spec)
for bug in spec['BUGS']:
    if not args[1:] or bug['id'] in args[1:]:
        plant(bug, checks)
