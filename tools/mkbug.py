"""helper to store a planted bug: mk(id, prop, [(file, old, new)], needs, breaks, demo)  (demo: python source, exit code nonzero on failure)"""
import os, subprocess, json, shutil
def mk(bid, prop, edits, needs, breaks, demo):
    wt = '/tmp/wt_mk'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
    root = '903e3a1'
    for f, old, new in edits:
        s = open(os.path.join(wt, f)).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(os.path.join(wt, f), 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt, 'diff']).decode()
    cur = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            base = subprocess.check_output(['git', '-C', '/repo', 'show', root + ':' + l[6:]]).decode().split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
            if l[1:] not in base:
                print('NOTE', bid, 'removes a line that is not of the original repository:', l[1:])
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    with open(d + '/patch.diff', 'w') as h:
        h.write(subprocess.check_output(['git', '-C', wt, 'diff']).decode())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    shutil.rmtree(wt)
    # demo in place
    print(bid, 'written')
