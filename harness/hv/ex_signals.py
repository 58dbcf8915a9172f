"""Responses over frequency and time, norms and feedback designs."""
import numpy as np

from . import gen, enc

CT = {'stable': [-.5, -1., -2., -3., -1+2j, -.5+1j], 'slow': [-2.**-7, -2.**-9], 'fast': [-64., -128., -32+64j],
      'mixed': [-2.**-6, -64.], 'unstable': [.5, 1., .5+1j], 'negunstable': [.5, 2.], 'int': [0., -1.], 'doubleint': [0., 0.],
      'osc': [2j, -1.], 'minusone': [1j, -.5], 'zero': [0.], 'complex': [-.125+2j, -1.], 'plain': [-.25, -1., -4., -.5, -.0625],
      'plainneg': [-.25, -2.], 'plaincx': [-.25+1j, -.125+2j, -.5+4j], 'light': [-.0625+1j, -.125+3j, -1.], 'real': [-1., -2., -.5],
      'neg': [-1., -2.], 'edge': [3j, -1., 0.]}
ZT = {'stable': [.5, -.5, .25, .75, .25+.5j, .5+.5j], 'slow': [1-2.**-8, 1-2.**-10], 'fast': [2.**-10, 2.**-6],
      'mixed': [1-2.**-6, .125], 'unstable': [1.5, 1.25, 1.25+.5j], 'negunstable': [-1.5, -2.], 'int': [1., .5], 'doubleint': [1., 1.],
      'osc': [1j, .5], 'minusone': [-1., .5], 'zero': [0., 0., .5], 'complex': [.75+.5j, .5], 'plain': [.5, .75, .9375, 1-2.**-7],
      'plainneg': [-.5, -.9375, -.75], 'plaincx': [.5+.75j, .75+.5j, -.5+.75j], 'light': [.75+.625j, .5-.8125j, .5], 'real': [.5, .25, -.5],
      'neg': [-.5, -.25, -.75], 'edge': [1., -1., 1j]}


def block(p):
    return np.array([[p]]).real if np.imag(p) == 0 else np.array([[p.real, p.imag], [-p.imag, p.real]])


def bdiag(bs):
    n = sum(b.shape[0] for b in bs)
    a = np.zeros((n, n))
    i = 0
    for b in bs:
        k = b.shape[0]
        a[i:i+k, i:i+k] = b
        i += k
    return a


def modal(rng, x, fl, feed=None, most=2):
    """A model of class x with poles of the kind fl, and the slowest pole if every channel shows all modes."""
    import harold
    k, p, m, dt = x['k'], x['p'], x['m'], gen.DTS[x['dt']]
    if fl == 'any' or x['gain']:
        return gen.model(rng, k, p, m, x['gain'], x['dt']), None
    base = 'stable' if fl in ('zerob', 'allpass') else fl
    pool = (CT if dt is None else ZT)[base]
    plain = fl.startswith('plain')

    def draw(most):
        if fl in ('mixed', 'doubleint', 'int', 'osc', 'minusone', 'edge') and most > 1:
            return list(pool)
        return [gen.pick(rng, pool) for _ in range(int(rng.integers(1, most + 1)))]
    ps = draw(most)
    if plain:
        ps = sorted(set(ps), key=str)
    slow = None
    if plain:
        slow = max(ps, key=(lambda z: z.real) if dt is None else abs)
    if feed is None:
        feed = rng.random() < .5
    if k == 'S':
        a = bdiag([block(z) for z in ps])
        n = a.shape[0]
        if fl == 'doubleint':
            a[0, 1] = 1.
        b, c = gen.ints(rng, (n, m), -2, 2, nz=True), gen.ints(rng, (p, n), -2, 2, nz=True)
        d = gen.ints(rng, (p, m), -2, 2, nz=True) if feed else np.zeros((p, m))
        if plain:
            b, c = np.ones((n, m)), np.ones((p, n))
        elif fl == 'zerob':
            b = b*0
        elif n > 1 and rng.random() < .5 and fl not in ('osc', 'edge'):
            a, b, c = gen.similar(rng, a, b, c)
        return harold.State(a, b, c, d, dt), slow
    num, den = [], []
    for i in range(p):
        num.append([])
        den.append([])
        for j in range(m):
            q = ps if plain or p*m == 1 else draw(1)
            dd = np.array([1.])
            nn = np.array([0.])
            for z in q:
                f = np.array([1., -z]).real if np.imag(z) == 0 else np.array([1., -2*z.real, abs(z)**2])
                g = np.array([1.]) if np.imag(z) == 0 else np.array([0., 1., 1.])[1:]
                nn = np.polyadd(np.convolve(nn, f), np.convolve(dd, g)*(1. if plain else gen.pick(rng, [1., 2., -1.])))
                dd = np.convolve(dd, f)
            if feed:
                nn = np.polyadd(nn, dd*gen.pick(rng, [1., -2., .5]))
            if fl == 'zerob':
                nn = nn*0
            if fl == 'allpass':
                nn = dd*(-1.)**np.arange(dd.size) if dt is None else dd[::-1]
            num[-1].append(nn.tolist())
            den[-1].append(dd.tolist())
    if p == m == 1:
        return harold.Transfer(num[0][0], den[0][0], dt), slow
    return harold.Transfer(num, den, dt), slow


def name(x):
    return '{k} {p}x{m}{g} {dt}'.format(g=' gain'*x['gain'], **x)


def freq(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x, form = sc['x'], sc['form']
    dt = gen.DTS[x['dt']]
    if form == 'nonmin' and not x['gain']:
        g = gen.flavoured(rng, {**x, 'fl': 'nonmin' if x['k'] == 'S' else 'cancel'})
    elif form == 'companion0' and not x['gain'] and x['k'] == 'S':
        n = int(rng.integers(2, 4))
        a = np.eye(n, k=1)
        a[-1] = gen.ints(rng, n, -3, -1)
        if rng.random() < .5:
            a = a.T
        g = harold.State(a, gen.ints(rng, (n, x['m']), 0, 1, nz=True), gen.ints(rng, (x['p'], n), 0, 1, nz=True), np.zeros((x['p'], x['m'])), dt)
    else:
        g = gen.model(rng, x['k'], x['p'], x['m'], x['gain'], x['dt'])
    top = 2. if dt is None else .45/dt          # Hz
    if sc['wu'].lower() == 'rad/s':
        top *= 6
    vals = np.sort(np.round(rng.random(3)*top*64 + 1)/64)
    ok = 'ok'
    w = vals
    if form == 'list':
        w = vals.tolist()
    elif form == 'scalar':
        w = float(vals[0])
    elif form == 'one':
        w = vals[:1]
    elif form == 'int':
        w = np.array([0, 1, 2]) if dt is None or sc['wu'] != 'Hz' and dt <= .5 else np.array([0, 0])
    elif form == 'column':
        w = vals[:, None]
    elif form == '2d':
        w, ok = np.vstack((vals, vals)), 'bad'
    elif form in ('zero', 'companion0'):
        w = np.concatenate(([0.], vals))
    elif form == 'over':
        w = np.array([vals[0], 64., vals[1]])
    elif form == 'allover':
        w = np.array([256., 512.])
    elif form == 'nyq':
        if dt is None or sc['wu'] != 'Hz':
            return []
        w = np.array([.5/dt, .125/dt, 64.])
    elif form == 'many':
        w = np.linspace(0, top, 40)
    elif form == 'neg':
        w = np.array([-vals[0], vals[0]])

    def rec(r):
        f, wo = r
        f = np.asarray(f)
        wo = np.asarray(wo)
        fs = f if f.ndim == 1 else np.moveaxis(f, 2, 0)
        if f.ndim == 1:
            fs = f[:, None, None]
        at = list(range(min(len(fs), len(wo))))
        if len(at) > 6:
            at = sorted({0, len(at) - 1} | {int(q) for q in rng.integers(0, len(at), 4)})
        return {'k': 'F', 'nd': f.ndim, 'p': fs.shape[1], 'm': fs.shape[2], 'nv': len(fs), 'w': enc.vec(wo),
                'at': [q + 1 for q in at], 'v': [enc.mat(fs[q]) for q in at]}
    ev = {'t': 'freq', 'sig': 'frequency_response {} {} {}->{}{}'.format(name(x), form, sc['wu'], sc['ou'], ' minreal'*sc['minreal']),
          'x': enc.model(g), 'auto': False, 'w': enc.vec(w), 'shape': ok,
          'wu': 'Hz' if sc['wu'].lower() == 'hz' else 'rad/s', 'ou': 'Hz' if sc['ou'].lower() == 'hz' else 'rad/s'}
    ev['out'] = enc.result(lambda: harold.frequency_response(g, w, **gen.brief(rng, w_unit=sc['wu'], output_unit=sc['ou'], use_minreal=sc['minreal'])), rec)
    ev['x2'], ev['w2'] = enc.model(g), enc.vec(w)
    return [ev]


def grid(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = sc['x']
    g, _ = modal(rng, x, sc['poles'], most=3 if x['k'] == 'S' else 2)

    def rec(r):
        f, wo = np.asarray(r[0]), np.asarray(r[1])
        fs = f[:, None, None] if f.ndim == 1 else np.moveaxis(f, 2, 0)
        at = list(range(min(len(fs), len(wo))))
        at = sorted({0, len(at) - 1} | {int(q) for q in rng.integers(0, len(at), 2)})
        return {'k': 'F', 'nd': f.ndim, 'p': fs.shape[1], 'm': fs.shape[2], 'nv': len(fs), 'w': enc.vec(wo),
                'at': [q + 1 for q in at], 'v': [enc.mat(fs[q]) for q in at]}
    ev = {'t': 'freq', 'sig': 'frequency grid {} {} {} {}'.format(name(x), sc['poles'], sc['ou'], sc['samples']),
          'x': enc.model(g), 'auto': True, 'w': [], 'w2': [], 'shape': 'ok', 'wu': 'Hz', 'ou': sc['ou']}
    ev['out'] = enc.result(lambda: harold.frequency_response(g, samples=sc['samples'] or None, output_unit=sc['ou']), rec)
    ev['x2'] = enc.model(g)
    return [ev]


def outputs(r, m):
    y, t = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
    ys = [y[:, :, q] for q in range(y.shape[2])] if y.ndim == 3 else [y]
    return {'k': 'Y', 'nd': y.ndim, 'y': [enc.mat(q) for q in ys], 't': enc.vec(t)}


def times(rng, sc, dt):
    n = sc['n']
    h = dt if dt is not None else gen.pick(rng, [.125, .5, .25])
    t = np.arange(n)*h
    if sc['t'] == 'shift':
        t = t + 1.5
    if sc['t'] == 'int' and float(h) == round(h):
        t = np.arange(n)*int(h)
    elif sc['t'] == 'int' and dt is None:
        t = np.arange(n)
    fl = sc['flaw']
    if fl == 'uneven':
        t = t + np.where(np.arange(n) == n//2, h/4, 0.)
    elif fl == 'lastgap':
        t = t + np.where(np.arange(n) == n-1, h/8, 0.)
    elif fl == 'midgap':
        t = t + np.where(np.arange(n) >= n//2, h/4, 0.)
    elif fl == 'decreasing':
        t = t[::-1]
    elif fl == 'period':
        t = t*1.5
    elif fl == 't2d':
        t = np.vstack((t, t))
    return t


def sim(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x, fl, n = sc['x'], sc['flaw'], sc['n']
    dt = gen.DTS[x['dt']]
    if fl == 'period' and (dt is None or sc['t'] == 'none'):
        return []
    g = gen.model(rng, x['k'], x['p'], x['m'], x['gain'], x['dt'])
    m = x['m']
    u = gen.ints(rng, (n, m), -3, 3)/2
    t = None if sc['t'] == 'none' else times(rng, sc, dt)
    if fl == 'short':
        u = u[:-1]
    elif fl == 'cols':
        u = np.hstack((u, u[:, :1]))
    x0 = None
    if sc['x0']:
        k = g.NumberOfStates if x['k'] == 'S' and not x['gain'] else 2
        x0 = gen.ints(rng, k, -2, 2)
    if fl == 'x0size':
        x0 = np.ones(1 + (g.NumberOfStates if x['k'] == 'S' and not x['gain'] else 2))
    elif fl == 'x02d':
        x0 = np.ones((2, 2))
    if x0 is not None and rng.random() < .3:
        x0 = x0.tolist()
    elif x0 is not None and fl == 'no' and rng.random() < .3:
        x0 = x0[:, None]
    arg = u
    if fl == 'u3d':
        arg = np.stack((u, u), axis=2)
    elif m == 1 and (fl == 'u1d' or fl == 'no' and rng.random() < .5):
        arg = u[:, 0]
    elif m == 1 and fl == 'urow':
        arg = u.T
    if fl == 'no' and rng.random() < .3:
        arg = arg.tolist()
    if fl in ('u1d', 'urow') and m > 1:
        return []
    if fl in ('short', 'uneven', 'lastgap', 'midgap', 'decreasing', 't2d') and t is None:
        return []

    def state():
        return repr((enc.model(g), enc.mat(u), None if t is None else enc.vec(t), x0))
    ev = {'t': 'sim', 'sig': 'simulate {} {}{} t={} n={} {}'.format(name(x), 'channels' if sc['pc'] else 'sum', ' x0' if x0 is not None else '', sc['t'], n, fl),
          'x': enc.model(g), 'u': enc.mat(u), 'ts': [] if t is None or fl == 't2d' else enc.vec(t),
          'x0': {'r': 1, 'c': 0, 'e': [[]]} if x0 is None else enc.mat(np.ravel(x0)), 'pc': sc['pc'], 'flaw': fl, 'before': state()}
    ev['out'] = enc.result(lambda: harold.simulate_linear_system(g, arg, t, **gen.brief(rng, x0=x0, per_channel=sc['pc'])), lambda r: outputs(r, m))
    ev['after'] = state()
    return [ev]


def resp(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = sc['x']
    dt = gen.DTS[x['dt']]
    if sc['flaw'] == 'period' and dt is None:
        return []
    g = gen.model(rng, x['k'], x['p'], x['m'], x['gain'], x['dt'])
    t = times(rng, sc, dt)
    if sc['flaw'] == 'short':
        t = t[:1]
    f = {'step': harold.simulate_step_response, 'impulse': harold.simulate_impulse_response}[sc['resp']]

    def state():
        return repr((enc.model(g), enc.vec(t)))
    arg = t.tolist() if rng.random() < .4 else t[:, None] if sc['flaw'] == 'no' and rng.random() < .2 else t
    ev = {'t': 'resp', 'sig': '{} response {} t={} n={} {}'.format(sc['resp'], name(x), sc['t'], sc['n'], sc['flaw']),
          'x': enc.model(g), 'ts': enc.vec(t), 'resp': sc['resp'], 'flaw': sc['flaw'], 'before': state()}
    ev['out'] = enc.result(lambda: f(g, arg), lambda r: outputs(r, x['m']))
    ev['after'] = state()
    return [ev]


def auto(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = sc['x']
    g, slow = modal(rng, x, sc['poles'])
    f = {'step': harold.simulate_step_response, 'impulse': harold.simulate_impulse_response}[sc['resp']]

    def rec(r):
        y, t = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
        d = np.diff(t)
        return {**outputs((y[:4], t[:4]), x['m']), 'n': int(t.size) if len(y) == t.size else -1,
                't0': enc.num(t[0]), 'tn': enc.num(t[-1]), 'dmin': enc.num(d.min()), 'dmax': enc.num(d.max())}
    ev = {'t': 'auto', 'sig': '{} response auto {} {}'.format(sc['resp'], name(x), sc['poles']), 'x': enc.model(g), 'resp': sc['resp'],
          'slow': 'none' if slow is None else enc.num(slow), 'before': repr(enc.model(g))}
    ev['out'] = enc.result(lambda: f(g), rec)
    ev['after'] = repr(enc.model(g))
    return [ev]


def norm(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x, fl = sc['x'], sc['poles']
    if x['gain'] and fl not in ('stable', 'zero'):
        return []
    if fl == 'zero':
        g, _ = modal(rng, x, 'zerob', feed=False)
        if x['gain']:
            z = np.zeros((x['p'], x['m']))
            g = harold.State(z, dt=gen.DTS[x['dt']]) if x['k'] == 'S' else harold.Transfer(z.tolist(), dt=gen.DTS[x['dt']])
    else:
        g, _ = modal(rng, x, fl, feed=sc['feed'], most=3 if x['k'] == 'S' else 2)
    ev = {'t': 'norm', 'sig': 'system_norm {} {} {}{}'.format(sc['p'], name(x), fl, ' feed'*sc['feed']), 'x': enc.model(g), 'p': sc['p']}
    ev['out'] = enc.result(lambda: harold.system_norm(g, **gen.brief(rng, p=2 if sc['p'] == '2' else np.inf, _={'p': np.inf})),
                           lambda v: {'k': 'N' if np.ndim(v) == 0 else 'X', 'why': 'shape', 'v': enc.num(v) if np.ndim(v) == 0 else ''})
    ev['x2'] = enc.model(g)
    return [ev]


def spd(rng, n):
    a = gen.ints(rng, (n, n), -1, 1)
    return a @ a.T + np.eye(n)


NONE = {'r': 0, 'c': 0, 'e': []}


def lqr(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x, fl, on = sc['x'], sc['flaw'], sc['on']
    if x['gain'] and fl != 'gain' or x['k'] == 'T' and (fl == 'gain') != x['gain']:
        return []
    p, m, dt = x['p'], x['m'], gen.DTS[x['dt']]
    if fl == 'gain':
        g = shown = gen.model(rng, x['k'], p, m, True, x['dt'])
        n = 2
    elif x['k'] == 'T':
        g = gen.model(rng, 'T', p, m, False, x['dt'])
        shown = harold.transfer_to_state(g)         # the weights refer to these states
        n = shown.NumberOfStates
    else:
        n = int(rng.integers(1, 4))
        while True:
            a, b = gen.amat(rng, n), gen.ints(rng, (n, m), -2, 2, nz=True)
            kr = np.hstack([np.linalg.matrix_power(a, q) @ b for q in range(n)])
            c = gen.ints(rng, (p, n), -2, 2, nz=True)
            ob = np.vstack([c @ np.linalg.matrix_power(a, q) for q in range(n)])
            if np.linalg.cond(kr @ kr.T) < 1e4 and (on == 'state' or np.linalg.cond(ob.T @ ob) < 1e4):
                break
        g = shown = harold.State(a, b, c, gen.ints(rng, (p, m), -1, 1), dt)
    q = p if on == 'output' else n
    full = spd(rng, q + m)
    Q, S, R = full[:q, :q], full[:q, q:], full[q:, q:]
    if not sc['r']:
        R = None
        S = S/4
        Q = Q + np.eye(q)
    if not sc['s']:
        S = None
    word = on
    if fl == 'qshape':
        Q = np.eye(q + 1)
    elif fl == 'rshape':
        R = np.eye(m + 1)
    elif fl == 'sshape':
        S = np.zeros((q + 1, m))
    elif fl == 'qnonsym':
        if q == 1:
            return []
        Q = Q + np.eye(q, k=1)
    elif fl == 'rnonsym':
        if m == 1:
            return []
        R = R + np.eye(m, k=1)
    elif fl == 'name':
        word = 'asdf'
    elif fl == 'part':
        word = gen.pick(rng, ['stat', 'e, o', '', 'out'])
    elif fl == 'case':
        word = on.capitalize()
    given = [Q, R, S]
    if sc['form'] == 'list':
        given = [None if z is None else z.tolist() for z in given]
    elif sc['form'] == 'int':
        given = [None if z is None else z.astype(int) if np.array_equal(z, np.round(z)) else z for z in given]
        if q == 1 and rng.random() < .5:
            given[0] = float(Q[0, 0])

    def data():
        return [NONE if z is None else enc.mat(np.asarray(z)) for z in given]
    ev = {'t': 'lqr', 'sig': 'lqr {} {}{}{} {} {}'.format(name(x), on, ' R'*sc['r'], ' S'*sc['s'], sc['form'], fl), 'x': enc.model(shown),
          'on': word.lower(), 'args': data()}
    ev['out'] = enc.result(lambda: harold.lqr(g, *given, **gen.brief(rng, weight_on=word)),
                           lambda r: {'k': 'L', 'K': enc.mat(r[0]), 'X': enc.mat(r[1]), 'e': enc.vec(r[2])})
    ev['args2'], ev['x2'] = data(), enc.model(shown)
    return [ev]


def ack(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    n, fl = sc['n'], sc['flaw']
    dt = gen.DTS[sc['dt']]
    while True:
        a = gen.amat(rng, n)
        b = gen.ints(rng, (n, 2 if fl == 'mimo' else 1), -2, 2, nz=True)
        if fl == 'unctrb':
            q = int(rng.integers(1, n))
            a[n-q:, :n-q] = 0
            b[n-q:, :] = 0
            break
        kr = np.hstack([np.linalg.matrix_power(a, q) @ b[:, :1] for q in range(n)])
        if np.linalg.cond(kr) < 1e3:
            break
    reals = [-1., -2., -3., -.5, 0., 1., .5, -.25, -4.]
    cx = [-1+1j, -2+.5j, .5+.25j, 1j, -.5+3j]
    loc = [gen.pick(rng, reals) for _ in range(n)]
    ls = sc['locs']
    if ls == 'repeat':
        loc = [loc[0]]*n
    elif ls == 'zero':
        loc = [0.]*n
    elif ls in ('pairs', 'mixed', 'double', 'shuffled'):
        k = n//2 if ls in ('pairs', 'double', 'shuffled') else min(1, n//2)
        zs = [gen.pick(rng, cx) for _ in range(k)]
        if ls == 'double' and k:
            zs = [zs[0]]*k
        loc = [w for z in zs for w in (z, z.conjugate())] + loc[2*k:]
        if ls == 'shuffled':
            loc = [loc[i] for i in rng.permutation(n)]
    if fl == 'few':
        loc = loc[:-1]
    elif fl == 'many':
        loc = loc + [-1.]
    elif fl == 'unpaired':
        loc[0] = -1+1j
    arg = np.array(loc)
    if sc['form'] == 'list':
        arg = list(loc)
    elif sc['form'] == 'cx':
        arg = np.array(loc, dtype=complex)
    flat = True
    if fl == '2d':
        arg, flat = np.array([loc, loc]).T, False
    if fl == 'none':
        arg, loc = [], []
    how = gen.pick(rng, ['float', 'int', 'int', 'fortran'])
    if how == 'int' and np.array_equal(a, np.round(a)):
        a, b = a.astype(int), b.astype(int)
    elif how == 'fortran':
        a, b = np.asfortranarray(a), np.asfortranarray(b)
    x = (a, b)
    if sc['arg'] == 'state':
        x = harold.State(a, b, np.ones((1, n)), np.zeros((1, b.shape[1])), dt)
    ev = {'t': 'ack', 'sig': 'ackermann n={} {} {} {} {}'.format(n, ls, sc['arg'], sc['form'], fl), 'loc': enc.vec(np.array(loc)), 'flat': flat,
          'args': [enc.mat(a), enc.mat(b)]}
    ev['out'] = enc.result(lambda: harold.ackermann(x, arg), lambda r: {'k': 'K', 'K': enc.mat(r)})
    ev['args2'] = [enc.mat(a), enc.mat(b)]
    return [ev]


FNS = {'freq': freq, 'grid': grid, 'sim': sim, 'resp': resp, 'auto': auto, 'norm': norm, 'lqr': lqr, 'ack': ack}


def call(sc, seed, rep):
    return FNS[sc['fn']](sc, seed, rep)
