"""Plant bugs: python mkseed.py FILE [id...]

FILE defines SEEDS, a list of dicts {id, property, needs, breaks, edits: [(path, old, new)], demo}.
Each is applied in a scratch copy of the library, has to pass the stable tests there and to
flip its demonstration; then patch, demonstration and description are written below seeded/.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
BASE = 'c5ab8ff'
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def stable(tree):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    w = tempfile.mkdtemp()
    sh('MPLCONFIGDIR={0} /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2'
       ' --junitxml={0}/j.xml; /usr/bin/python3 /opt/vp/results.py {0}/o.json junit:{0}/j.xml'.format(w), tree)
    ok = set(json.load(open(w + '/o.json'))['passed'])
    shutil.rmtree(w)
    return base - ok


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = set(sys.argv[2:])
    tmp = tempfile.mkdtemp(prefix='seed')
    tree = tmp + '/repo'
    subprocess.run(['cp', '-a', '/repo', tree], check=True)
    for s in seeds:
        if only and s['id'] not in only:
            continue
        out = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        with open(out + '/demo.sh', 'w') as f:
            f.write(DEMO_SH)
        with open(out + '/demo.py', 'w') as f:
            f.write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        problems = []
        if sh('bash {}/demo.sh'.format(out), tree, timeout=300).returncode:
            problems.append('demo fails on the unchanged tree: ' + sh('bash {}/demo.sh'.format(out), tree).stderr[-300:])
        for path, old, new in s['edits']:
            t = open(os.path.join(tree, path)).read()
            if t.count(old) != 1:
                problems.append('{} matches of {!r}'.format(t.count(old), old[:60]))
                continue
            open(os.path.join(tree, path), 'w').write(t.replace(old, new))
        d = sh('git diff', tree).stdout
        open(out + '/patch.diff', 'w').write(d)
        cur = None
        for line in d.splitlines():
            if line.startswith('--- a/'):
                cur = sh('git show {}:{}'.format(BASE, line[6:]), tree).stdout.splitlines()
            elif line.startswith('-') and not line.startswith('---') and line[1:] not in cur:
                problems.append('not an original line: ' + line)
        r = sh('bash {}/demo.sh'.format(out), tree, timeout=300)
        if r.returncode == 0:
            problems.append('demo does not notice the patch')
        m = stable(tree)
        if m:
            problems.append('tests fail: {}'.format(sorted(m)[:3]))
        note = ''
        if not problems and os.environ.get('TRY', '1') == '1':
            e = dict(ENV, HAROLD_TREE=tree, VERIF_SEED='1', VERIF_TIER='quick')
            q = subprocess.run(['bash', VERIF + '/check.sh', s['property']], env=e, capture_output=True, text=True)
            note = 'caught' if 'VIOLATION property=' + s['property'] in q.stdout else 'MISSED ({})'.format(q.returncode)
        print('{:28s} {:4s} {}'.format(s['id'], s['property'], '; '.join(problems) or note), flush=True)
        sh('git checkout -- .', tree)
        if problems:
            shutil.rmtree(out)
    shutil.rmtree(tmp)


main()
