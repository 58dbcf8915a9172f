"""Histories of one object: building it and assigning its attributes."""
import numpy as np

from . import gen, enc
from .ex_algebra import cls


def get(f, default=None):
    try:
        return f()
    except Exception:
        return default


def full(g):
    """Everything a model reports about itself, read through public attributes."""
    import harold
    out = enc.model(g)
    out['set'] = str(get(lambda: g.SamplingSet, 'raised'))
    out['stab'] = enc.flag(g, '_isstable')
    out['poles'] = enc.vec(np.asarray(g.poles))
    out['zeros'] = enc.vec(np.asarray(g.zeros))
    out['nin'], out['nout'] = int(g.NumberOfInputs), int(g.NumberOfOutputs)
    out['shape'] = [int(x) for x in g.shape]
    if isinstance(g, harold.State):
        out['nst'] = int(g.NumberOfStates)
    try:
        out['arr'] = {'t': 'ok', 'm': enc.mat(g.to_array())}
    except ValueError:
        out['arr'] = {'t': 'err'}
    except Exception as e:
        out['arr'] = {'t': 'raised ' + type(e).__name__}
    try:
        p = g.pole_properties(output_data=True)
        out['props'] = {'t': 'none'} if p is None else {'t': 'rows', 'e': [[enc.num(x) for x in r] for r in np.asarray(p)]}
    except Exception as e:
        out['props'] = {'t': 'raised ' + type(e).__name__}
    return out


def rec(g):
    try:
        with np.errstate(all='ignore'):
            return full(g)
    except Exception as e:
        return {'k': 'X', 'why': type(e).__name__ + ': ' + str(e)[:100]}


# -- values ------------------------------------------------------------------
def stable_poly(rng, deg, dt, kind):
    """A monic polynomial of the degree with roots strictly inside / outside / on the edge of the region."""
    p = np.array([1.])
    while p.size - 1 < deg:
        two = p.size + 1 <= deg and rng.random() < .4
        if dt is None:
            re = {'stable': gen.pick(rng, [-.25, -1., -2., -.5]), 'unstable': gen.pick(rng, [.25, 1., 2.]), 'edge': 0.}[kind]
            f = [1., -2*re, re*re + gen.pick(rng, [1., 4.])] if two else [1., -re]
        else:
            r = {'stable': gen.pick(rng, [.5, -.5, .25, -.75, 0.]), 'unstable': gen.pick(rng, [1.5, -1.25, 2., -3.]),
                 'edge': gen.pick(rng, [1., -1.])}[kind]
            f = [1., r, r*r] if two and kind != 'edge' else [1., -r]
        p = np.convolve(p, f)
        if kind != 'stable':
            kind = 'stable'
    return p


def amat(rng, n, dt, kind):
    p = stable_poly(rng, n, dt, kind)
    a = np.eye(n, k=1)
    a[-1, :] = -p[:0:-1]
    return gen.similar(rng, a, np.zeros((n, 1)), np.zeros((1, n)))[0]


def mat_value(v):
    a = np.asarray(v)
    if a.size and not np.all(np.isfinite(a.astype(float))):
        return {'f': 'nan'}
    return {'f': 'mat', 'm': enc.mat(a)}


def state_value(rng, g, attr, w):
    """(python value, record)"""
    n, (p, m) = g.a.shape[0], g.shape
    r, c = {'a': (n, n), 'b': (n, m), 'c': (p, n), 'd': (p, m)}[attr]
    bad = {'text': 'abc', 'ragged': [[1., 2.], [1.]], 'cplx': np.eye(max(r, 1), max(c, 1))*1j}
    if w in bad:
        return bad[w], {'f': 'bad', 'why': w}
    if w == 'none':
        return None, {'f': 'none'}
    v = gen.amat(rng, n) if attr == 'a' and n else gen.ints(rng, (r, c), -2, 2, nz=True)
    if w == 'int':
        v = gen.ints(rng, (r, c), -2, 2).astype(int)
    elif w in ('stable', 'unstable', 'edge') and n:
        v = amat(rng, n, g.SamplingPeriod, w)
    elif w == 'big':
        v = gen.ints(rng, (r + (attr != 'b' or rng.random() < .5), c + (attr in 'ab')), -2, 2)
    elif w == 'small':
        v = gen.ints(rng, (max(r-1, 0), c) if r > 1 else (r, c + 1), -2, 2)
    elif w == 'zero':
        v = np.zeros((r, c))
    elif w == 'nan':
        v = np.array(v, dtype=float)
        if not v.size:
            v = np.ones((1, 1))
        v.flat[int(rng.integers(v.size))] = gen.pick(rng, [np.nan, np.inf])
    elif w == '3d':
        return np.ones((1, max(r, 1), max(c, 1))), {'f': 'bad', 'why': w}
    elif w == 'row':
        v = gen.ints(rng, n if attr == 'b' else p, -2, 2)
    if w == 'list':
        if v.size == 1 and rng.random() < .5:
            x = float(v.ravel()[0])
            return x, mat_value(x)
        return v.tolist(), mat_value(v)
    return v, mat_value(v)


def trans_value(rng, g, attr, w):
    p, m = g.shape
    num, den = g.polynomials
    if p == m == 1:
        num, den = [[num]], [[den]]
    nd = [[np.asarray(x).size - 1 for x in r] for r in num]
    dd = [[np.asarray(x).size - 1 for x in r] for r in den]

    def polys(e):
        return {'f': 'polys', 'p': len(e), 'm': len(e[0]), 'e': [[enc.vec(x) for x in r] for r in e]}

    def nest(e):
        if len(e) == len(e[0]) == 1:
            x = e[0][0]
            return gen.pick(rng, [list(map(float, x)), np.array(x, dtype=float), np.array([x], dtype=float)])
        return [[gen.pick(rng, [list(map(float, x)), np.array(x, dtype=float)]) for x in r] for r in e]

    def give(e):
        return nest(e), polys(e)
    if w == 'text':
        return 'abc', {'f': 'bad', 'why': w}
    if w == 'ragged':
        return [[1., [1., 2.]], [1.]], {'f': 'bad', 'why': w}
    if w == 'cplx':
        return (np.array([1j]), {'f': 'bad', 'why': w})
    if w == 'none':
        return None, {'f': 'none'}
    lo, hi = min(min(r) for r in dd), max(max(r) for r in nd)
    if attr == 'num':
        def one(deg):
            q = gen.ints(rng, deg + 1)
            q[0] = q[0] or 1.
            return q
        if w in ('ok', 'lead0', 'nan'):
            e = [[one(int(rng.integers(0, dd[i][j] + 1))) for j in range(m)] for i in range(p)]
            if w == 'lead0':
                e = [[np.concatenate((np.zeros(int(rng.integers(0, 3))), x)) for x in r] for r in e]
                if p*m > 1:
                    e[0][0] = np.zeros(int(rng.integers(1, 3)))
            if w == 'nan':
                e[-1][-1][-1] = gen.pick(rng, [np.nan, np.inf])
                return nest(e), {'f': 'nan'}
            return give(e)
        if w == 'den':
            return give([[np.array(den[i][j]).ravel() * gen.pick(rng, [1., 2.]) for j in range(m)] for i in range(p)])
        if w == 'one':
            return give([[one(int(rng.integers(0, lo + 1)))]])
        if w == 'const':
            x = gen.pick(rng, [2., -1., 3, 0.])
            return x, polys([[[x]]])
        if w == 'zero':
            return give([[np.zeros(int(rng.integers(1, 3))) for j in range(m)] for i in range(p)])
        if w == 'improper':
            e = [[one(int(rng.integers(0, dd[i][j] + 1))) for j in range(m)] for i in range(p)]
            i, j = int(rng.integers(p)), int(rng.integers(m))
            e[i][j] = one(dd[i][j] + 1)
            return give(e)
        if w == 'arr':
            if p > 1 and m > 1:
                v = gen.ints(rng, (p, m))
                return v, polys([[[x] for x in r] for r in v])
            q = one(lo)
            return q.astype(int), polys([[q.astype(int)]])
    else:
        kind = w if w in ('stable', 'unstable', 'edge') else gen.pick(rng, ['stable', 'unstable'])

        def one(deg):
            return stable_poly(rng, deg, g.SamplingPeriod, kind) * gen.pick(rng, gen.LEAD)
        up = 1 if p*m > 1 else 2
        if w in ('ok', 'lead0', 'nan', 'stable', 'unstable', 'edge'):
            e = [[one(max(1 if w in ('stable', 'unstable', 'edge') else 0, int(rng.integers(nd[i][j], max(nd[i][j] + 1, up + 1))))) for j in range(m)] for i in range(p)]
            if w == 'lead0':
                e = [[np.concatenate((np.zeros(int(rng.integers(0, 3))), x)) for x in r] for r in e]
            if w == 'nan':
                e[-1][-1][-1] = gen.pick(rng, [np.nan, np.inf])
                return nest(e), {'f': 'nan'}
            return give(e)
        if w == 'one':
            return give([[one(hi + int(rng.integers(0, 2)))]])
        if w == 'const':
            x = gen.pick(rng, [2., -1., 4])
            return x, polys([[[x]]])
        if w == 'zero':
            return give([[np.zeros(int(rng.integers(1, 3))) if (i, j) == (0, 0) else one(nd[i][j]) for j in range(m)] for i in range(p)])
        if w == 'improper':
            if hi == 0:
                return give([[np.zeros(2)]])
            return give([[one(nd[i][j] - 1 if nd[i][j] else 1) for j in range(m)] for i in range(p)])
    if w == 'big':
        return give([[np.array([1.]) for j in range(m + 1)] for i in range(p + (rng.random() < .5))])
    if w == 'small':
        if p > 1:
            e = [[np.array([1.]) for j in range(m)] for i in range(p - 1)]
        elif m > 1:
            e = [[np.array([1.]) for j in range(m - 1)] for i in range(p)]
        else:
            e = [[np.array([1.])], [np.array([2.])]]
        if len(e) == len(e[0]) == 1:
            e = [[x for r in e for x in r]*(m + 1)]
        return give(e)
    raise KeyError((attr, w))


def dt_value(rng, w):
    if w in gen.DTS:
        return gen.DTS[w], {'f': 'dt', 'v': enc.dt(gen.DTS[w])}
    v = {'neg': -1., 'zero': 0, 'inf': np.inf, 'nan': np.nan}.get(w)
    if v is not None:
        return v, {'f': 'dt', 'v': enc.num(v)}
    return {'text': 'abc', 'cplx': 1j, 'list2': [1., 2.]}[w], {'f': 'bad', 'why': w}


def value(rng, g, attr, w):
    import harold
    if attr == 'dt':
        return dt_value(rng, w)
    return (state_value if isinstance(g, harold.State) else trans_value)(rng, g, attr, w)


NAME = {'dt': 'SamplingPeriod'}


def rebuild(g, attr, v):
    """A new model with the data of g, except for one attribute."""
    import harold
    dt = v if attr == 'dt' else g.SamplingPeriod
    if isinstance(g, harold.State):
        q = [v if attr == x else np.array(getattr(g, x)) for x in 'abcd']
        if g.a.size == 0:
            return harold.State(q[3], dt=dt)
        return harold.State(*q, dt)
    num, den = g.polynomials
    return harold.Transfer(v if attr == 'num' else num, v if attr == 'den' else den, dt)


def assign(rng, g, attr, w):
    """One assignment; the step record."""
    v, vr = value(rng, g, attr, w)
    fresh = enc.result(lambda: rebuild(g, attr, v), rec)
    st = {'attr': attr, 'v': vr, 'how': w, 'fresh': fresh['g'] if fresh['t'] == 'ok' else {'k': 'X'}}
    st['out'] = enc.result(lambda: setattr(g, NAME.get(attr, attr), v), lambda _: {'k': 'none'})
    st['x'] = rec(g)
    return st


def history(sc, seed, rep):
    c = sc['x']
    rng = gen.rng_for(seed, sc, rep)
    g = gen.flavoured(rng, c)
    ev = {'t': 'obj', 'sig': 'obj {} {}'.format(cls(c), ' '.join('%s=%s' % tuple(a) for a in sc['acts'])), 'x': rec(g), 'steps': []}
    for attr, w in sc['acts']:
        st = assign(rng, g, attr, w)
        ev['steps'].append(st)
        if st['x']['k'] == 'X' or (st['v']['f'] == 'nan' and st['out']['t'] == 'ok'):
            break
    bad = [s for s in ev['steps'] if s['out']['t'] == 'err']
    ev['out'] = bad[-1]['out'] if bad else {'t': 'ok', 'g': {'k': 'none'}}
    return [ev] + probes(g, ev)


def probes(g, ev):
    """The object in use after its history: conversion and negation."""
    import harold
    last = ev['steps'][-1] if ev['steps'] else {'v': {'f': ''}}
    if last['v']['f'] == 'nan' or 'X' in (ev['x']['k'], last.get('x', ev['x'])['k']):
        return []
    out = []
    to = 'T' if isinstance(g, harold.State) else 'S'
    f = harold.state_to_transfer if to == 'T' else harold.transfer_to_state
    for t in ('conv', 'neg'):
        e = {'t': t, 'sig': t + ' after ' + ev['sig'], 'x': enc.operand(g), 'to': to, 'rawin': False, 'rawout': False, 'same': False}
        e['out'] = enc.result((lambda: f(g)) if t == 'conv' else (lambda: -g))
        e['x2'] = enc.operand(g)
        out.append(e)
    return out
