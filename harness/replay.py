"""replay.py <replay file> [n]: make the recorded call again and print what happens.

Works for arithmetic events; other events are printed only.
"""
import json
import os
import sys
import traceback

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def val(s):
    if ';' in s:
        a, b = s.split(';')
        return complex(val(a), val(b))
    if 'p' in s:
        m, e = s.split('p')
        return float(int(m)) * 2.**int(e)
    return float(s)


def mat(m):
    return np.array([[val(x) for x in r] for r in m['e']]).reshape(m['r'], m['c'])


def obj(r):
    import harold
    dt = None if r['dt'] == 'null' else val(r['dt'])
    if r['k'] == 'S':
        if r['n'] == 0:
            return harold.State(mat(r['d']), dt=dt)
        return harold.State(mat(r['a']), mat(r['b']), mat(r['c']), mat(r['d']), dt)
    if r['k'] == 'T':
        n = [[[val(x) for x in q] for q in w] for w in r['num']]
        d = [[[val(x) for x in q] for q in w] for w in r['den']]
        return harold.Transfer(n[0][0], d[0][0], dt) if r['p'] == r['m'] == 1 else harold.Transfer(n, d, dt)
    a = mat(r['v'])
    return a[0, 0] if r['nd'] == 0 else a.ravel() if r['nd'] == 1 else a


def data(g):
    return g if isinstance(g, np.ndarray) else getattr(g, 'polynomials', None) or getattr(g, 'matrices', g)


if __name__ == '__main__':
    from hv import ex_algebra as xa
    evs = json.load(open(sys.argv[1]))
    for x in evs[:int(sys.argv[2]) if len(sys.argv) > 2 else None]:
        e = x['event']
        print('=' * 20, x['clauses'], e.get('sig'))
        if e['t'] == 'bin':
            a, b = obj(e['x']), obj(e['y'])
            print(e['op'], data(a), data(b), e['x']['dt'], e['y']['dt'])
            try:
                r = xa.OPS[e['op']](a, b)
                print('->', type(r).__name__, data(r))
            except Exception:
                traceback.print_exc(limit=-3)
        else:
            print(json.dumps(e)[:3000])
