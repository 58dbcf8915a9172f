"""Constructor calls from spelled terms."""
import copy
import json

import numpy as np

from . import gen, enc


def fill(rng, t, rep):
    """Put numbers at the leaves."""
    if t['k'] in ('num', 'npi', 'cx'):
        v = t['v']
        if v != '0' and rep:
            x = gen.pick(rng, [1., 2., 3., -1., -2., 5.]) if t['k'] == 'npi' else gen.pick(rng, [1., 2., -1., .5, -.25, 3., -1.5, 4., 7.])
            v = enc.num(x if ';' not in v else complex(x, gen.pick(rng, [1., -.5, 2.])))
        return {**t, 'v': v}
    return {**t, 'xs': [fill(rng, x, rep) for x in t['xs']]}


def number(v):
    def one(s):
        m, _, e = s.partition('p-')
        return int(m)*2.**-int(e or 0)
    if ';' in v:
        return complex(*[one(s) for s in v.split(';')])
    return one(v)


def value(rng, t, inside=False):
    """The Python object the term describes."""
    k = t['k']
    if k == 'none':
        return None
    if k == 'str':
        return 'a'
    if k == 'obj':
        return gen.pick(rng, [{}, object(), len]) if not inside else {}
    if k == 'cx':
        return complex(number(t['v']))
    if k == 'npi':
        return gen.pick(rng, [np.int64, np.int32])(number(t['v']))
    if k == 'num':
        x = float(number(t['v']))
        w = rng.random()
        return int(x) if x == int(x) and w < .4 else np.float64(x) if w > .8 else x
    if k == 'arr':
        def raw(s):
            return [raw(x['xs']) if x['k'] == 'list' else number(x['v']) for x in s]
        z = raw(t['xs'])
        kinds = set(json.dumps(t).split('"k": "')[i][:3] for i in range(1, len(json.dumps(t).split('"k": "'))))
        a = np.array(z[0] if t['nd'] == 0 else z)
        if 'cx"' in kinds:
            return a.astype(complex)
        if 'npi' in kinds or (np.array_equal(a, np.round(a)) and rng.random() < .4):
            return a.astype(gen.pick(rng, [np.int64, np.int32, np.int8]))
        a = a.astype(gen.pick(rng, [float, float, np.float32]))
        return np.asfortranarray(a) if a.ndim > 1 and rng.random() < .3 else a
    xs = [value(rng, x, True) for x in t['xs']]
    return tuple(xs) if k == 'tup' else xs


def shown(x):
    if isinstance(x, np.ndarray):
        return repr((str(x.dtype), x.shape, x.tolist()))
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + '[' + ','.join(shown(y) for y in x) + ']'
    return repr(x)


def brief(t):
    k = t['k']
    if k in ('num', 'npi', 'cx'):
        return {'num': '', 'npi': 'i', 'cx': 'c'}[k] + ('0' if t['v'] == '0' else '1')
    if k in ('list', 'tup'):
        return ('[{}]' if k == 'list' else '({})').format(','.join(brief(x) for x in t['xs']))
    if k == 'arr':
        return 'A{}[{}]'.format(t['nd'], ','.join(brief(x) for x in t['xs']))
    return k


def build(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    terms = [fill(rng, t, rep) for t in sc['args']]
    args = [value(rng, t) for t in terms]
    cls = {'T': harold.Transfer, 'S': harold.State}[sc['cls']]
    dt = gen.pick(rng, [None, None, .5, .125])

    def rec(g):
        out = enc.model(g)
        arrs = list(g.matrices) if sc['cls'] == 'S' else [x for q in g.polynomials for r in ([[q]] if isinstance(q, np.ndarray) else q) for x in r]
        out['form'] = sorted({'{} {}'.format(getattr(a, 'dtype', type(a).__name__), np.ndim(a)) for a in arrs})
        out['static'] = enc.flag(g, '_isgain')
        out['nin'], out['nout'] = int(g.NumberOfInputs), int(g.NumberOfOutputs)
        return out
    ev = {'t': 'build', 'sig': '{}({})'.format(sc['cls'], ', '.join(brief(t) for t in sc['args'])), 'cls': sc['cls'], 'args': terms,
          'dt': enc.dt(dt), 'terms': shown(args)}
    given = list(args)
    while len(given) > 1 and given[-1] is None and rng.random() < .5:
        given.pop()
    ev['out'] = enc.result(lambda: cls(*given, dt=dt), rec)
    ev['after'] = shown(args)
    return [ev]
