#!/usr/bin/env python3
"""Entry point of every check.

    python3 run.py ID --tier quick|thorough      run the check of property ID
    python3 run.py ID --replay FILE              re-execute one saved case
    python3 run.py ID --only SUB                 only one sub-check

Re-executes itself with the interpreter that has pygfunction's dependencies,
a private byte-code cache and fixed thread counts, then hands over to
pbt.runner.  Exit: 0 held, 1 violated (a VIOLATION line was printed), 2 error
of the machinery itself.
"""
import os
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    work = tempfile.mkdtemp(prefix='pgf_check_')
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        env.pop(k, None)
    env.update({
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1',
        # never read byte code left behind in /repo
        'PYTHONPYCACHEPREFIX': os.path.join(work, 'pyc'),
        'MPLCONFIGDIR': os.path.join(work, 'mpl'),
        'HYPOTHESIS_STORAGE_DIRECTORY': os.path.join(work, 'hyp'),
        'PGF_WORK': work,
        'PGF_REPO': env.get('PGF_REPO', '/repo'),
    })
    os.makedirs(os.path.join(work, 'mpl'), exist_ok=True)
    try:
        p = subprocess.run(
            [PY, '-m', 'pbt.runner'] + sys.argv[1:], cwd=HERE, env=env)
        rc = p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


if __name__ == '__main__':
    main()
