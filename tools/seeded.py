#!/usr/bin/env python3
"""Run the checks against the planted bugs, in a scratch copy of /repo.

    tools/seeded.py [--out TABLE.md] [--seed N] [ID ...]

For each directory of /verif/seeded the patch is applied to a scratch copy of
/repo (made and removed here), the check of its property is run against that
copy, and the patch is undone. Writes a table telling which were caught, by
which kind of violation and after how many seconds. This is a tool for the
author of the checks: no check reads /verif/seeded.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **k)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('ids', nargs='*')
    p.add_argument('--out')
    p.add_argument('--seed', default='1')
    a = p.parse_args()
    top = os.path.join(VERIF, 'seeded')
    ids = a.ids or sorted(os.listdir(top))
    work = tempfile.mkdtemp(prefix='seeded-')
    wc = os.path.join(work, 'repo')
    sh('cp -a /repo %s' % wc)
    rows = []
    try:
        for i in ids:
            d = os.path.join(top, i)
            with open(d+'/meta.json') as f:
                prop = json.load(f)["property"]
            with open(d+'/patch.diff') as f:
                native = '.pyx' in f.read()
            r = sh('git -C %s apply %s/patch.diff' % (wc, d))
            if r.returncode:
                rows.append((i, prop, 'does not apply', ''))
                continue
            t0 = time.time()
            e = dict(os.environ, SIM_REPO=wc, VERIF_SEED=a.seed,
                     VERIF_TIER='quick')
            if native:
                sh('/opt/venv/bin/python setup.py build_ext --inplace',
                   cwd=wc)
            r = sh('%s/check %s --tier quick --no-evidence' % (VERIF, prop),
                   env=e)
            m = re.search(r'^VIOLATION.*$', r.stdout, re.M)
            kind = ''
            m2 = re.search(r'"kind": "(\w+)"', r.stdout)
            if m2:
                kind = m2.group(1)
            rows.append((i, prop, 'caught' if r.returncode == 1 and m else
                         'MISSED (rc %d)' % r.returncode,
                         '%s, %.0f s' % (kind, time.time()-t0)))
            sh('git -C %s checkout -- .' % wc)
            if native:
                sh('/opt/venv/bin/python setup.py build_ext --inplace',
                   cwd=wc)
            print(*rows[-1], flush=True)
    finally:
        shutil.rmtree(work)
    if a.out:
        with open(a.out, 'w') as f:
            f.write('| planted bug | check | outcome | how |\n'
                    '|---|---|---|---|\n')
            for r in rows:
                f.write('| %s | %s | %s | %s |\n' % r)
    return 0


sys.exit(main())
