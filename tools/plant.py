#!/usr/bin/env python3
""" plant.py ID...: builds seeded/<ID> from seeds.py, confirming in a scratch copy: patch applies, tests pass, demo passes without and fails with it; then runs the check """
import os, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
BASE = '693ec38'
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main(ids):
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('tests') or base.get('stable') or base.get('passed') or [])
    for sid in ids:
        s = SEEDS[sid]
        d = tempfile.mkdtemp(prefix='plant.')
        repo = d + '/repo'
        try:
            sh('cp -a /repo %s' % repo)
            for fn, a, b in s['edits']:
                p = os.path.join(repo, fn); t = open(p, encoding='utf-8').read()
                assert t.count(a) == 1, (sid, fn, t.count(a), a)
                open(p, 'w', encoding='utf-8').write(t.replace(a, b))
            diff = sh('git -C %s diff' % repo).stdout
            # removed lines must be original ones
            blame = {}
            for fn in set(e[0] for e in s['edits']):
                blame = {l.split(') ', 1)[1] if ') ' in l else '' : l[0] for l in sh('git -C /repo blame -s %s..HEAD -- %s' % (BASE, fn)).stdout.splitlines()}
                removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
                orig = [l for l in removed if blame.get(l) == '^']
                if removed and not orig: print(sid, 'WARNING: changes no original line')
                if len(orig) < len(removed): print(sid, 'note: %d of %d removed lines are original' % (len(orig), len(removed)))
            out = os.path.join(V, 'seeded', sid)
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(out + '/patch.diff', 'w', encoding='utf-8').write(diff)
            open(out + '/demo.py', 'w', encoding='utf-8').write(s['demo'].lstrip('\n'))
            if 'fakeport' in s['demo']: shutil.copy(os.path.join(V, 'tools/demo/fakeport.py'), out)
            open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository. Exit 0: the property holds\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/tools:$D"\nexec timeout 120 /opt/venv/bin/python -B "$D/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            a = sh('bash %s/demo.sh' % out, cwd='/repo')
            b = sh('bash %s/demo.sh' % out, cwd=repo)
            t = sh('env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache PYTHONPATH=/opt/vp/plugins /opt/venv/bin/python -B -m pytest -q test -p pytest_timeout -p vp_order -p no:cacheprovider --timeout=60 2>&1 | tail -8', cwd=repo) if not os.environ.get('NOTEST') else None
            c = sh('VERIF_REPO=%s ./check %s' % (repo, s['property']), cwd=V) if not os.environ.get('NOCHECK') else None
            caught = c is not None and c.returncode == 1 and 'VIOLATION property=%s' % s['property'] in c.stdout
            ok = a.returncode == 0 and b.returncode != 0
            print(sid, s['property'], 'demo clean=%d patched=%d' % (a.returncode, b.returncode), '| tests:', (t.stdout.strip().splitlines() or ['?'])[-1] if t else '-', '| check:', 'CAUGHT' if caught else c and 'MISSED rc=%d' % c.returncode)
            if not ok or os.environ.get('VERBOSE'): print('  clean:', a.stdout[-600:], '\n  patched:', b.stdout[-600:])
            if c and (not caught or os.environ.get('VERBOSE')): print('  check:', c.stdout[-700:])
            sys.stdout.flush()
        finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__': main(sys.argv[1:] or sorted(SEEDS))
