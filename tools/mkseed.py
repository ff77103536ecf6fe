#!/usr/bin/env python3
"""mkseed.py ID...  Build /verif/seeded/<ID>/ from tools/seeds/<ID>.py, after
confirming in a scratch copy of /repo that the demo passes without the change,
fails with it, and the stable tests still pass with it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'LinearResponseVariationalBayes/'


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
               OPENBLAS_NUM_THREADS='1', PYTHONPATH=cwd, PYTHONHASHSEED='0',
               MPLBACKEND='Agg')
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main(i, tests=True):
    ns = {}
    exec(open(os.path.join(HERE, 'tools', 'seeds', i + '.py')).read(), ns)
    w = '/tmp/seedwork-%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(w, PKG + f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff', '--', PKG], w).stdout
        # lines removed must be original
        out = os.path.join(HERE, 'seeded', i)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(
            'import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' +
            ns['DEMO'])
        open(os.path.join(out, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexport OPENBLAS_NUM_THREADS=1 '
            'PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore '
            '"$(dirname "$0")/demo.py"\n')
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'],
                   'what_it_breaks': ns['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        demo = ['bash', os.path.join(out, 'demo.sh')]
        a = sh(demo, '/repo')
        b = sh(demo, w)
        ok = a.returncode == 0 and b.returncode != 0
        print(i, 'demo clean', a.returncode, 'patched', b.returncode,
              '' if ok else 'BAD\n' + a.stdout[-800:] + b.stdout[-500:])
        print('   patched says:', b.stdout.strip().splitlines()[-1:])
        if tests and ok:
            t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                    'no:cacheprovider', '--timeout=300'], w)
            print('   tests', t.returncode, t.stdout.strip().splitlines()[-1:])
            ok = ok and t.returncode == 0
        blame(diff)
        if not ok:
            shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


def blame(diff):
    """removed lines must exist in the original commit"""
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
            base = sh(['git', 'show', '9fbb35b:' + f], '/repo').stdout
            base = set(base.splitlines())
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:] not in base:
                print('   NOT AN ORIGINAL LINE:', l)


if __name__ == '__main__':
    for i in sys.argv[1:]:
        main(i)
