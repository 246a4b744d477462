"""Validate planted bugs: python3 plant.py FILE.py [ID...]

FILE.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
needs, breaks, demo (Python source).  Each is applied to a scratch copy of
/repo; kept in /verif/seeded/<id> when it compiles, the stable tests pass and
the demonstration exits 0 without and non-zero with the change.
"""
import json
import os
import pathlib
import runpy
import subprocess as sp
import sys

SCR = pathlib.Path('/tmp/scratch')
R = SCR / 'repo'
OUT = pathlib.Path('/verif/seeded')


def sh(c, **k):
    return sp.run(c, shell=True, capture_output=True, text=True, **k)


def not_original(diff):
    """Removed lines of a patch that are not of the original repository."""
    base = sh('git merge-base HEAD c408d9c', cwd=R).stdout.strip()
    f = n = None
    bad, seen = [], 0
    for x in diff.splitlines():
        if x.startswith('--- a/'):
            f = x[6:]
        elif x.startswith('@@'):
            n = int(x.split()[1][1:].split(',')[0])
        elif x.startswith('-'):
            seen += 1
            o = sh(f'git blame -s -l -L {n},{n} {base}..HEAD -- {f}',
                   cwd=R).stdout
            if not o.startswith('^'):
                bad.append(x)
            n += 1
        elif n is not None and x.startswith(' '):
            n += 1
    return bad if seen else ['no removed line']


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    sh('mkdir -p /tmp/scratch; rm -rf /tmp/scratch/repo; '
       'cp -a /repo /tmp/scratch/repo; '
       "sed 's#cd /repo#cd /tmp/scratch/repo#' /opt/vp/test.sh "
       '> /tmp/scratch/test.sh')
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])
               or [])
    for b in bugs:
        if want and b['id'] not in want:
            continue
        sh('git checkout -q -- .', cwd=R)
        bad = None
        for f, old, new in b['edits']:
            p = R / 'pygfunction' / f
            s = p.read_text()
            if s.count(old) != 1:
                bad = f'{f}: {s.count(old)} matches of {old[:60]!r}'
                break
            p.write_text(s.replace(old, new))
        if bad:
            print(b['id'], 'EDIT', bad)
            continue
        diff = sp.run('git diff', shell=True, cwd=R, capture_output=True,
                      text=True).stdout
        mine = not_original(diff)
        if mine:
            print(b['id'], 'NOT ORIGINAL', mine[:2])
            continue
        d = SCR / 'demo' / b['id']
        d.mkdir(parents=True, exist_ok=True)
        (d / 'demo.py').write_text(b['demo'].lstrip('\n'))
        (d / 'demo.sh').write_text(
            '#!/bin/bash\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
            'PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python -W ignore '
            '"$(dirname "$0")/demo.py"\n')
        run = f'bash {d}/demo.sh'
        r0 = sh(run, cwd='/repo')
        r1 = sh(run, cwd=R)
        if r0.returncode or not r1.returncode:
            print(b['id'], 'DEMO', r0.returncode, r1.returncode,
                  (r0.stdout + r0.stderr)[-300:], (r1.stdout)[-300:])
            continue
        t = sh('bash /tmp/scratch/test.sh /tmp/scratch/out.json')
        o = json.load(open('/tmp/scratch/out.json'))
        last = [x for x in t.stdout.splitlines() if 'passed' in x][-1:]
        if ' 0 failed' not in ''.join(last):
            print(b['id'], 'TESTS', last, t.stdout[-300:])
            continue
        o = OUT / b['id']
        o.mkdir(parents=True, exist_ok=True)
        (o / 'patch.diff').write_text(diff)
        for f in ('demo.sh', 'demo.py'):
            (o / f).write_text((d / f).read_text())
            os.chmod(o / f, 0o755)
        (o / 'meta.json').write_text(json.dumps(
            {'property': b['property'], 'needs': b['needs'],
             'what_it_breaks': b['breaks']}, indent=1) + '\n')
        print(b['id'], 'OK', (r1.stdout + r1.stderr).strip()[-160:])
    sh('git checkout -q -- .', cwd=R)


main()
