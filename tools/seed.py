#!/usr/bin/env python3
"""seed.py SPEC.py...: make /verif/seeded/<id> from a spec (ID, PROP, FILE/EDITS, DEMO, NEEDS, BREAKS)
after confirming it in a scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')


def one(spec):
    sid = spec['ID']
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        wc = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', wc])
        subprocess.check_call(['git', '-C', wc, 'checkout', '-q', '--', '.'])
        d = os.path.join(tmp, sid)
        os.mkdir(d)
        shutil.copy(os.path.join(HERE, 'seedlib', 'mk.py'), d)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('from mk import *\n' + spec['DEMO'].strip() + '\n')
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        demo = os.path.join(d, 'demo.sh')
        rc, out = run(['sh', demo], wc)
        if rc:
            return 'demo fails on the unchanged tree: ' + out[-600:]
        for fn, old, new in spec['EDITS']:
            p = os.path.join(wc, fn)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s: %r' % (s.count(old), fn, old)
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', wc, 'diff']).decode()
        rc, out = run(['sh', demo], wc)
        if rc == 0:
            return 'demo passes with the change'
        demo_out = out.strip().splitlines()[-1:]
        rc, out = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', 'tests'], wc)
        if rc:
            return 'tests fail: ' + out[-800:]
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': spec['PROP'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(VERIF, 'seeded', sid)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        for r in ('__pycache__',):
            shutil.rmtree(os.path.join(d, r), ignore_errors=True)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(d, dst)
        return 'ok ' + ' '.join(demo_out)[:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    for fn in sys.argv[1:]:
        ns = {}
        exec(open(fn).read(), ns)
        for spec in ns['SPECS']:
            print(spec['ID'], one(spec))
