"""Calls of discretize / undiscretize, histories of the discretization attributes."""
import numpy as np

from . import gen, enc
from .ex_algebra import cls

PW = {'faint': .03125, 'zero': 0., 'low': .0625, 'mid': .5, 'high': .875, 'nyquist': 1., 'over': 2.5, 'negative': -.25}


def draw(rng, c, cap=5):
    """A model of class c; a transfer matrix has at most cap poles in all (its other entries are static)."""
    import harold
    x = gen.flavoured(rng, c)
    if c['k'] == 'S' or c['gain'] or c['p']*c['m'] == 1:
        return x
    num, den = x.polynomials
    order = rng.permutation(c['p']*c['m'])
    left = cap
    N = [[None]*c['m'] for _ in range(c['p'])]
    D = [[None]*c['m'] for _ in range(c['p'])]
    for q in order:
        i, j = divmod(int(q), c['m'])
        n, d = np.ravel(num[i][j]), np.ravel(den[i][j])
        if d.size - 1 > left or (left == cap and d.size == 1):
            n, d = gen.ints(rng, 1, -2, 2), np.ones(1)
        left -= d.size - 1
        N[i][j], D[i][j] = n.tolist(), d.tolist()
    if left == cap:
        N[0][0], D[0][0] = [1.], [2., 1.]
    return harold.Transfer(N, D, x.SamplingPeriod)


def rule(w, T, rng):
    """Prewarp frequency (Hz) and matrix of a named way."""
    f = PW[w['pw']]/(2*T)
    q = None
    if w['q'] in ('tustin', 'forward', 'backward'):
        a = {'tustin': T/2, 'forward': 0., 'backward': T}[w['q']]
        q = np.array([[1., np.sqrt(T)], [np.sqrt(T), a]])
    elif w['q'] == 'asym':
        q = np.array([[gen.pick(rng, [1., .5, .75]), gen.pick(rng, [.25, .5, 1.])],
                      [gen.pick(rng, [2., .5, -1.]), gen.pick(rng, [.125, .0625, 0.])]])
    elif w['q'] == 'neg':
        q = np.array([[1., -.5], [gen.pick(rng, [1., -2.]), -.125]])
    return f, q


def noq(q):
    return {'r': 0, 'c': 0, 'e': []} if q is None else enc.mat(q)


def kwargs(w, f, q, rng):
    kw = {'method': w['method']}
    if f or rng.random() < .3:
        kw['prewarp_at'] = f
    if q is not None:
        kw['q'] = q
    return kw


def disc(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = draw(rng, sc['x'])
    T = gen.DTS[sc['T']]
    w = sc['w']
    f, q = rule(w, T, rng)
    ev = {'t': 'disc', 'sig': 'disc {} {} {} {} {} T={}'.format(cls(sc['x']), sc['x']['fl'], w['method'], w['pw'], w['q'], T),
          'x': enc.model(x), 'method': w['method'], 'dt': enc.num(T), 'fr': enc.num(f), 'q': noq(q)}
    kw = kwargs(w, f, q, rng)
    ev['out'] = enc.result(lambda: harold.discretize(x, T, **kw), enc.model)
    ev['x2'] = enc.model(x)
    return [ev]


def roundtrip(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = draw(rng, sc['x'], 2 if sc['x']['fl'] == 'multi' else 5)     # two conversions: multiple poles get out of hand
    T = gen.DTS[sc['T']]
    w = sc['w']
    f, q = rule(w, T, rng)
    ev = {'t': 'round', 'sig': 'round {} {} {} {} {} T={} {}'.format(cls(sc['x']), sc['x']['fl'], w['method'], w['pw'], w['q'], T, sc['how']),
          'x': enc.model(x), 'method': w['method'], 'dt': enc.num(T), 'fr': enc.num(f), 'q': noq(q), 'made': True}
    hold = {}

    def make():
        hold['y'] = harold.discretize(x, T, **kwargs(w, f, q, rng))
        return hold['y']
    y = enc.result(make, enc.model)
    if y['t'] == 'err' or y['g']['k'] == 'X':
        ev.update(made=False, y=0, y2=0, out=y)
        return [ev]
    ev['y'] = y['g']
    kw = {} if sc['how'] == 'remembered' else kwargs(w, f, q, rng)
    ev['out'] = enc.result(lambda: harold.undiscretize(hold['y'], **kw), enc.model)
    ev['y2'] = enc.model(hold['y'])
    return [ev]


def back(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = draw(rng, sc['x'])
    T = x.SamplingPeriod
    w = sc['w']
    f, q = rule(w, T, rng)
    ev = {'t': 'back', 'sig': 'back {} {} {} {} {} T={} {}'.format(cls(sc['x']), sc['x']['fl'], w['method'], w['pw'], w['q'], T, sc['default']),
          'x': enc.model(x), 'method': w['method'], 'fr': enc.num(f), 'q': noq(q)}
    kw = {} if sc['default'] else kwargs(w, f, q, rng)
    ev['out'] = enc.result(lambda: harold.undiscretize(x, **kw), enc.model)
    ev['x2'] = enc.model(x)
    return [ev]


def swap(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    T = gen.DTS[sc['T']]
    w, w2 = sc['w'], sc['w2']
    f, q = rule(w, T, rng)
    try:
        y = harold.discretize(draw(rng, sc['x'], 3), T, **kwargs(w, f, q, rng))
    except ValueError:                                  # judged elsewhere
        return []
    f, q = rule(w2, T, rng)
    ev = {'t': 'back', 'sig': 'swap {} {} {} -> {} {} {} T={}'.format(cls(sc['x']), w['method'], w['pw'] + w['q'], w2['method'], w2['pw'], w2['q'], T),
          'x': enc.model(y), 'method': w2['method'], 'fr': enc.num(f), 'q': noq(q)}
    kw = {'method': w2['method']}
    if f:
        kw['prewarp_at'] = f
    if q is not None:
        kw['q'] = q
    if sc['brief']:
        del kw['method']
    ev['out'] = enc.result(lambda: harold.undiscretize(y, **kw), enc.model)
    ev['x2'] = enc.model(y)
    return [ev]


def shown(g):
    def get(name):
        try:
            return getattr(g, name)
        except Exception as e:                         # recorded, judged by the spec
            return 'raised ' + type(e).__name__
    dt, dw, fr, q = (get(n) for n in ('SamplingPeriod', 'DiscretizedWith', 'PrewarpFrequency', 'DiscretizationMatrix'))

    def num(v):
        return 'null' if v is None else v if isinstance(v, str) else enc.num(v)
    return {'dt': num(dt), 'dw': 'null' if dw is None else str(dw), 'fr': num(fr), 'set': str(get('SamplingSet')),
            'q': noq(None if q is None or isinstance(q, str) else q)}


PER = {'a': .5, 'b': .25, 'zero': 0., 'negative': -.5, 'nan': float('nan'), 'inf': float('inf'), 'none': None, 'text': 'fast'}
QS = {'good': [[1., .5], [.5, .125]], 'other': [[1., .25], [1., .0625]], 'none': None, 'wide': [[1., .5, 0.], [.5, .125, 0.]],
      'flat': [1., 2.], 'nan': 'abc'}


def period(v):
    v = PER[v]
    return 'null' if v is None else v if isinstance(v, str) else enc.num(v)


def matrix(v):
    return noq(None if QS[v] is None or isinstance(QS[v], str) else np.atleast_2d(QS[v]))


def book(sc, seed, rep):
    """Replay a history of the specification; after every step record what the model shows."""
    import harold
    rng = gen.rng_for(seed, {k: v for k, v in sc.items() if k != 'ops'}, rep)
    dt = None if sc['dt'] == 'null' else PER[sc['dt']]
    if sc['gain']:
        d = gen.ints(rng, (1, 1) if rng.random() < .5 else (2, 2), 1, 3)
        g = harold.State(d, dt=dt) if sc['k'] == 'S' else harold.Transfer(d.tolist(), np.ones_like(d).tolist(), dt=dt)
    else:
        a = np.array([[.5, .25], [0., .25]])
        m, p = (1, 1) if rng.random() < .5 else (2, 2)
        s = harold.State(a, np.ones((2, 1)) if m == 1 else np.eye(2), np.ones((1, 2)) if p == 1 else np.eye(2), dt=dt)
        g = s if sc['k'] == 'S' else harold.state_to_transfer(s)
    ev = {'t': 'book', 'sig': 'book {}{} {}'.format(sc['k'], ' gain' * sc['gain'],
          '; '.join(' '.join(str(v) for v in o.values()) for o in sc['ops'])),
          'gain': sc['gain'], 'init': shown(g), 'steps': []}
    for o in sc['ops']:
        op = o['op']
        st = {'op': op}
        cur = g.SamplingPeriod or .5
        if op == 'disc':
            T = PER[o['dt']]
            f = PW[o['pw']]
            f = f/(2*(T or .5)) if f else 0.
            st.update(method=o['method'], dt=period(o['dt']), fr=enc.num(f), q=matrix(o['q']))
            kw = {'prewarp_at': f} if f else {}
            if QS[o['q']] is not None:
                kw['q'] = QS[o['q']]

            def act(g=g, T=T, kw=kw):
                return harold.discretize(g, T, method=o['method'], **kw)
        elif op == 'undisc':
            def act(g=g):
                return harold.undiscretize(g)
        elif op == 'setdt':
            st['v'] = period(o['v'])

            def act(g=g):
                g.SamplingPeriod = PER[o['v']]
                return g
        elif op == 'setdw':
            st['v'] = o['v']

            def act(g=g):
                g.DiscretizedWith = None if o['v'] == 'null' else o['v']
                return g
        elif op == 'setfr':
            v = float('nan') if o['v'] == 'nan' else PW[o['v']]/(2*cur)
            st['v'] = enc.num(v)

            def act(g=g, v=v):
                g.PrewarpFrequency = v
                return g
        else:
            st['v'] = matrix(o['v'])

            def act(g=g):
                g.DiscretizationMatrix = QS[o['v']]
                return g
        new = {}

        def run():
            new['g'] = act()
            return new['g']
        r = enc.result(run, lambda y: 0)
        st['out'] = 'ok' if r['t'] == 'ok' else r['e']
        if r['t'] == 'ok':
            g = new['g']
        st['vis'] = shown(g)
        ev['steps'].append(st)
    return [ev]


def call(sc, seed, rep):
    return {'disc': disc, 'round': roundtrip, 'back': back, 'swap': swap, 'book': book}[sc['fn']](sc, seed, rep)
