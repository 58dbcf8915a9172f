"""Replays sessions produced by the Workspace machine."""
import copy
import hashlib
import json

import numpy as np

from . import gen, enc
from .ex_algebra import OPS, cls
from .ex_models import index_of
from .ex_objects import rec

JUNK = {'text': lambda p, m: 'abc', 'none': lambda p, m: None, 'list': lambda p, m: [[1., 2.], [3., 4.]],
        'cplx': lambda p, m: np.ones((p, m))*1j, 'dict': lambda p, m: {'a': 1.},
        'objarr': lambda p, m: np.array([['a']*m]*p, dtype=object), 'cnum': lambda p, m: 1j}


def facets(g):
    p, m = g.shape
    return {'k': 'S' if hasattr(g, 'a') else 'T', 'p': int(p), 'm': int(m), 'dt': enc.dt(g.SamplingPeriod), 'n': 0, 'nd': -1}


def finger(g):
    return hashlib.sha1(json.dumps(rec(g), sort_keys=True).encode()).hexdigest()


def make(rng, c):
    return gen.model(rng, c['k'], c['p'], c['m'], c['n'] == 0, c['dt'])


def junk(rng, w, x):
    return JUNK[w](*x.shape)


def session(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    acts = [a for a in sc['acts'] if a['a'] != 'new']
    slots = [make(rng, a['c']) for a in sc['acts'] if a['a'] == 'new']
    ev = {'t': 'ws', 'ws0': [facets(g) for g in slots], 'dig0': [finger(g) for g in slots], 'steps': []}
    last = None
    for a in acts:
        x = slots[a['i'] - 1]
        k = a['a']
        act = dict(a)
        if k == 'bin':
            y = slots[a['j'] - 1]
            f = lambda: OPS[a['op']](x, y)                                          # noqa: E731
        elif k == 'arr':
            y = gen.array(rng, a['y']['nd'], a['y']['p'], a['y']['m'], nz=True)
            f = (lambda: OPS[a['op']](y, x)) if a['left'] else (lambda: OPS[a['op']](x, y))
        elif k == 'bad':
            y = junk(rng, a['y'], x)
            f = (lambda: OPS[a['op']](y, x)) if a['left'] else (lambda: OPS[a['op']](x, y))
        elif k == 'neg':
            f = lambda: -x                                                          # noqa: E731
        elif k == 'minreal':
            f = lambda: harold.minimal_realization(x)                               # noqa: E731
        elif k == 'conv':
            f = lambda: (harold.transfer_to_state if a['to'] == 'S' else harold.state_to_transfer)(x)   # noqa: E731
        elif k == 'index':
            f = lambda: x[index_of(a['rows']), index_of(a['cols'])]                 # noqa: E731
        elif k == 'fb':
            y = slots[a['j'] - 1]
            f = lambda: harold.feedback(x, y, negative=a['neg'])                    # noqa: E731
        elif k == 'set':
            act['dt'] = enc.dt(gen.DTS[a['dt']])

            def f():
                x.SamplingPeriod = gen.DTS[a['dt']]
                return x
        hold = {}

        def run():
            hold['g'] = f()
            return hold['g']
        out = enc.result(run, rec)
        if out['t'] == 'ok' and k != 'bad' and isinstance(hold['g'], (harold.State, harold.Transfer)):
            g = hold['g']
            slots[(a['i'] if k == 'set' else a['t']) - 1] = copy.deepcopy(g) if any(g is s for s in slots) and k != 'set' else g
        ev['steps'].append({'act': act, 'out': out, 'dig': [finger(g) for g in slots]})
        last = out
        if out['t'] == 'ok' and out['g']['k'] not in 'ST':
            break
    ev['sig'] = 'session'
    ev['out'] = {'t': last['t'], 'msg': last.get('msg', '')} if last else {'t': '-'}
    return [ev]


def refuse(sc, seed, rep):
    """One operator call with something that is no operand."""
    rng = gen.rng_for(seed, sc, rep)
    x = gen.operand(rng, sc['x'])
    y = junk(rng, sc['y'], x)
    f = OPS[sc['op']]
    ev = {'t': 'junk', 'sig': 'junk {} {} {} {}'.format(cls(sc['x']), sc['op'], sc['y'], 'left' if sc['left'] else 'right'), 'x': rec(x)}
    ev['out'] = enc.result((lambda: f(y, x)) if sc['left'] else (lambda: f(x, y)), lambda g: {'k': 'none'})
    ev['x2'] = rec(x)
    return [ev]
