"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CLASSES = os.path.join(VERIF, '.build', 'classes')


class TLCError(Exception):
    pass


def tlaval(v):
    """Python -> TLA+ constant text."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tlaval(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tlaval(x) for x in v) + '>>'
    raise TypeError(v)


def run(module, workdir, constants=None, cfg=None, env=None, workers=8, heap='6g', extra=(),
        timeout=800):
    """Run TLC on a module of spec/ in workdir.  Returns dict(out, states, distinct, prints)."""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            dst = os.path.join(workdir, f)
            if not os.path.exists(dst):
                shutil.copy(os.path.join(SPEC, f), dst)
    src = open(os.path.join(SPEC, cfg or module + '.cfg')).read()
    if constants:
        # a constant with a structured value goes through a generated wrapper module
        head = re.split(r'^CONSTANTS?\b', src, flags=re.M)[0]
        defs = ''.join('c_{} == {}\n'.format(k, tlaval(v)) for k, v in constants.items())
        name = 'MC_' + module
        with open(os.path.join(workdir, name + '.tla'), 'w') as f:
            f.write('---- MODULE {} ----\nEXTENDS {}\n{}====\n'.format(name, module, defs))
        src = head + 'CONSTANTS\n' + ''.join('  {0} <- c_{0}\n'.format(k) for k in constants)
        module = name
    with open(os.path.join(workdir, module + '.cfg'), 'w') as f:
        f.write(src)
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', CLASSES + ':' + JARS,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', module + '.cfg', *extra, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise TLCError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    prints = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            prints.append(json.loads(json.loads(line)[2:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    res = {'out': out, 'code': r.returncode, 'prints': prints,
           'states': int(m.group(2)) if m else 0, 'transitions': int(m.group(1)) if m else 0}
    return res


def must(res, what):
    if res['code'] != 0:
        lines = [x for x in res['out'].splitlines() if not x.startswith(('Loading ', 'Computed ', 'Parsing ', 'Semantic '))]
        raise TLCError('{}: TLC exit {}\n{}'.format(what, res['code'], '\n'.join(lines)[-4000:]))
    return res
