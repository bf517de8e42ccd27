#!/usr/bin/env python3
"""mkseed.py SPEC.py...: plants bugs.  Each spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)],
DEMO (python text).  The change is applied in a scratch worktree of /repo, then patch.diff, demo.sh, demo.py and meta.json are
written to /verif/seeded/ID after confirming that the demo passes without and fails with the change."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    w = '/tmp/seedwork_' + ns['ID']
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
    try:
        tmpd = w + '_demo'
        os.makedirs(tmpd, exist_ok=True)
        open(tmpd + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src', 'hookeai'))\n" + ns['DEMO'].lstrip('\n'))
        open(tmpd + '/demo.sh', 'w').write(SH)
        os.chmod(tmpd + '/demo.sh', 0o755)
        a = subprocess.run(['bash', tmpd + '/demo.sh'], cwd=w, capture_output=True, text=True)
        if a.returncode:
            print(ns['ID'], 'DEMO FAILS ON CLEAN\n', a.stdout[-1500:], a.stderr[-2500:])
            return 1
        for f, old, new in ns['EDITS']:
            p = os.path.join(w, 'src/hookeai', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['ID'], f, 'old text count', s.count(old))
                return 1
            open(p, 'w').write(s.replace(old, new))
        b = subprocess.run(['bash', tmpd + '/demo.sh'], cwd=w, capture_output=True, text=True)
        if b.returncode == 0:
            print(ns['ID'], 'DEMO PASSES WITH BUG\n', b.stdout[-1500:])
            return 1
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        e = dict(os.environ, HSTAT_ROOT=w + '/src/hookeai')
        c = subprocess.run(['python3', '-m', 'hstat', ns['PROPERTY']], cwd=V, capture_output=True, text=True, env=e)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(tmpd + '/' + f, d)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        tail = [x for x in c.stdout.strip().splitlines() if not x.startswith('P')]
        print(ns['ID'], 'ok; bug says:', (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or ['?'])[-1][:150], '| check exit', c.returncode, tail[0][:200] if tail else c.stderr[-300:])
        return 0
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
        shutil.rmtree(w + '_demo', ignore_errors=True)


sys.exit(max(main(s) for s in sys.argv[1:]))
