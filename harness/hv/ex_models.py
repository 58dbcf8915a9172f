"""Calls of conversion, indexing, feedback, DC gain, minimal realization."""
import numpy as np

from . import gen, enc
from .ex_algebra import cls


def raw_state(abcd, p, m):
    """Bare matrices -> record, as returned."""
    a, b, c, d = abcd
    a = np.zeros((0, 0)) if a is None else np.asarray(a)
    n = a.shape[0] if a.size else 0
    return {'k': 'S', 'p': int(np.shape(d)[0]), 'm': int(np.shape(d)[1]), 'n': n, 'dt': 'null', 'gain': n == 0,
            'a': enc.mat(a if n else np.zeros((0, 0))), 'b': enc.mat(b if n else np.zeros((0, m))),
            'c': enc.mat(c if n else np.zeros((p, 0))), 'd': enc.mat(d)}


def raw_transfer(nd, p, m):
    """Bare numerator / denominator data -> record."""
    num, den = nd
    if (p, m) == (1, 1):
        num, den = [[num]], [[den]]
    elif isinstance(num, np.ndarray):
        num = [[[num[i, j]] for j in range(num.shape[1])] for i in range(num.shape[0])]
        den = [[[den[i, j]] for j in range(den.shape[1])] for i in range(den.shape[0])]
    return {'k': 'T', 'p': len(num), 'm': len(num[0]), 'dt': 'null',
            'num': [[enc.vec(x) for x in r] for r in num], 'den': [[enc.vec(x) for x in r] for r in den],
            'gain': all(np.asarray(x).size == 1 for r in den for x in r)}


def conv(sc, seed, rep):
    import harold
    c = sc['x']
    rng = gen.rng_for(seed, sc, rep)
    x = gen.flavoured(rng, c)
    p, m = x.shape
    ev = {'t': 'conv', 'sig': 'conv {} {} {}{}{}'.format(cls(c), c['fl'], sc['to'], ' rawin' * sc['rawin'], ' rawout' * sc['rawout']),
          'x': enc.model(x), 'to': sc['to'], 'rawin': sc['rawin'], 'rawout': sc['rawout'], 'same': False}
    hold = {}
    if sc['to'] == 'S':
        arg = x.polynomials if sc['rawin'] else x

        def f():
            hold['g'] = g = harold.transfer_to_state(arg, **gen.brief(rng, output='matrices' if sc['rawout'] else 'system', _={'output': 'system'}))
            return g
        rec = (lambda g: raw_state(g, p, m)) if sc['rawout'] else enc.model
    else:
        arg = x.matrices if sc['rawin'] else x

        def f():
            hold['g'] = g = harold.state_to_transfer(arg, **gen.brief(rng, output='polynomials' if sc['rawout'] else 'system', _={'output': 'system'}))
            return g
        rec = (lambda g: raw_transfer(g, p, m)) if sc['rawout'] else enc.model
    ev['out'] = enc.result(f, rec)
    ev['x2'] = enc.model(x)
    ev['same'] = hold.get('g') is x
    return [ev]


def index_of(ix):
    t = ix['t']
    if t == 'all':
        return slice(None)
    if t == 'int':
        return ix['i']
    if t == 'list':
        return list(ix['l'])
    return slice(*(None if ix[q]['none'] else ix[q]['v'] for q in 'abs'))


def index_text(ix):
    if ix['t'] in ('all', 'none'):
        return ix['t']
    return str(index_of(ix)).replace('None', '')


def index(sc, seed, rep):
    c = sc['x']
    rng = gen.rng_for(seed, sc, rep)
    x = gen.flavoured(rng, c)
    none = sc['cols']['t'] == 'none'
    ev = {'t': 'index', 'sig': 'index {} [{},{}]'.format(cls(c), index_text(sc['rows']), index_text(sc['cols'])),
          'x': enc.model(x), 'rows': sc['rows'], 'cols': {'t': 'all'} if none else sc['cols']}
    if none:
        ev['out'] = enc.result(lambda: x[index_of(sc['rows'])])
    else:
        ev['out'] = enc.result(lambda: x[index_of(sc['rows']), index_of(sc['cols'])])
    ev['x2'] = enc.model(x)
    return [ev]


def setitem(sc, seed, rep):
    rng = gen.rng_for(seed, sc, rep)
    x = gen.flavoured(rng, sc['x'])
    ev = {'t': 'setitem', 'sig': 'setitem ' + cls(sc['x']), 'x': enc.model(x)}

    def f():
        x[0, 0] = 1.
    ev['out'] = enc.result(f, lambda g: {'k': 'none'})
    ev['x2'] = enc.model(x)
    return [ev]


def with_feed(rng, c, d):
    """A model / array of class c whose value at infinity is the matrix d."""
    import harold
    p, m, dt = c['p'], c['m'], gen.DTS[c['dt']]
    if c['k'] == 'A':
        return float(d[0, 0]) if c['nd'] == 0 else d.copy()
    if c['k'] == 'S':
        if c['gain']:
            return harold.State(d, dt=dt)
        a, b, cc, _ = gen.state_data(rng, p, m)
        return harold.State(a, b, cc, d, dt)
    num, den = gen.transfer_data(rng, p, m, c['gain'])
    for i in range(p):
        for j in range(m):
            q = den[i][j]
            if len(q) == 1:
                num[i][j] = [d[i, j]*q[0]]
            else:
                n = gen.ints(rng, len(q), nz=True)
                n[0] = d[i, j]*q[0]
                num[i][j] = n.tolist()
    if p == m == 1:
        return harold.Transfer(num[0][0], den[0][0], dt)
    return harold.Transfer(num, den, dt)


def feedback(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    cx, cy, feed = sc['x'], sc['y'], sc['feed']
    dx = gen.ints(rng, (cx['p'], cx['m']), -2, 2, nz=True)/2
    dy = gen.ints(rng, (cy['p'], cy['m']), -2, 2, nz=True)/2
    if feed in ('none', 'y', 'zx'):
        dx = dx*0
    if feed in ('none', 'x', 'zy'):
        dy = dy*0
    if feed == 'both' and rep % 2 and cx['p'] == cy['m']:
        # feedthroughs whose product vanishes in the loop
        if dx.shape[1] > 1:
            dy[:] = 0
            dy[0, :] = 1.
            dx[:] = 0
            dx[0, 1] = 1.
            dy[:, 0] = 0
    if feed in ('ill', 'near'):
        s = -1. if sc['neg'] else 1.
        # dy dx has an eigenvalue s: pick dx regular and dy = s inv(dx) on one direction
        n = cx['p']
        dx = gen.regular(rng, n) if n > 1 else np.array([[gen.pick(rng, [1., 2., -.5, -1.])]])
        e = np.zeros((n, n))
        e[0, 0] = 1.
        if n == 1:
            dy = s/dx
        else:
            dx = np.eye(n)*gen.pick(rng, [1., 2., -.5])
            dy = s*e/dx[0, 0]
            dy[1, 0] = gen.pick(rng, [0., 1.])
        if feed == 'near':
            dy = dy*(1. + gen.pick(rng, [-1., 1.])*2.**-int(rng.integers(6, 9 if cx['k'] == cy['k'] == 'T' else 14)))
    x, y = with_feed(rng, cx, dx), with_feed(rng, cy, dy)
    ev = {'t': 'feedback', 'sig': 'feedback {} {} {} {}'.format(cls(cx), cls(cy), 'neg' if sc['neg'] else 'pos', feed),
          'x': enc.operand(x), 'y': enc.operand(y), 'neg': sc['neg']}
    kw = gen.brief(rng, negative=sc['neg'])
    ev['out'] = enc.result(lambda: harold.feedback(x, y, **kw))
    ev['x2'], ev['y2'] = enc.operand(x), enc.operand(y)
    return [ev]


def dc(sc, seed, rep):
    rng = gen.rng_for(seed, sc, rep)
    x = gen.flavoured(rng, sc['x'])
    ev = {'t': 'dc', 'sig': 'dc {} {}'.format(cls(sc['x']), sc['x']['fl']), 'x': enc.model(x)}
    np.random.seed(int(rng.integers(2**31)))
    ev['out'] = enc.result(lambda: x.dcgain)
    ev['x2'] = enc.model(x)
    return [ev]


def minreal(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = gen.flavoured(rng, sc['x'])
    ev = {'t': 'minreal', 'sig': 'minreal {} {}'.format(cls(sc['x']), sc['x']['fl']), 'x': enc.model(x)}
    np.random.seed(int(rng.integers(2**31)))
    ev['out'] = enc.result(lambda: harold.minimal_realization(x))
    ev['x2'] = enc.model(x)
    return [ev]


FN = {'conv': conv, 'index': index, 'setitem': setitem, 'feedback': feedback, 'dc': dc, 'minreal': minreal}


def call(sc, seed, rep):
    return FN[sc['fn']](sc, seed, rep)
