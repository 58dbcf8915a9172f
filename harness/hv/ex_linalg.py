"""Calls of the matrix and polynomial functions."""
import numpy as np

from . import gen, enc
from .ex_models import index_of, index_text


def record(ev, args, f, rec):
    """Call f, recording the array arguments before and after."""
    ev['args'] = [enc.mat(a) for a in args]
    ev['out'] = enc.result(f, rec)
    ev['args2'] = [enc.mat(a) for a in args]
    return [ev]


def mats(*ms):
    return {'k': 'M', 'm': [enc.mat(x) for x in ms]}


def triple(rng, t):
    """A, B, C of the class."""
    n, p, m, fl = t['n'], t['p'], t['m'], t['fl']
    a = gen.amat(rng, n)
    b, c = gen.ints(rng, (n, m), -2, 2, nz=True), gen.ints(rng, (p, n), -2, 2, nz=True)
    if fl in ('unctrb', 'nonmin') and n > 1:
        q = int(rng.integers(1, n))
        a[n-q:, :n-q] = 0
        b[n-q:, :] = 0
    if fl in ('unobs', 'nonmin') and n > 1:
        q = int(rng.integers(1, n))
        if fl == 'nonmin' and rng.random() < .5:
            a[:q, q:] = 0
            c[:, :q] = 0
        else:
            a[q:, :] = a[q:, :]
            a[:n-q, n-q:] = 0
            c[:, n-q:] = 0
    if fl == 'zerob':
        b = b*0
    if fl == 'zeroc':
        c = c*0
    if fl == 'jordan':
        a = gen.pick(rng, gen.REAL)*np.eye(n) + np.diag(gen.ints(rng, n-1, 0, 1), 1)
    if fl == 'chain':
        a = np.diag([gen.pick(rng, [-1., -.5, .5, 1.]) for _ in range(n-1)], 1) + np.diag(gen.ints(rng, n, -1, 1))
        b, c = np.zeros((n, m)), np.zeros((p, n))
        b[-1, int(rng.integers(m))] = c[int(rng.integers(p)), 0] = 1.
    if fl == 'iso':
        a = np.diag([gen.pick(rng, gen.REAL) for _ in range(n)])
        b, c = gen.ints(rng, (n, m), -1, 1), gen.ints(rng, (p, n), -1, 1)
    if fl == 'defb':
        b = gen.ints(rng, (n, 1), -2, 2, nz=True) @ gen.ints(rng, (1, m), -2, 2, nz=True)
    if fl == 'defc':
        c = gen.ints(rng, (p, 1), -2, 2, nz=True) @ gen.ints(rng, (1, n), -2, 2, nz=True)
    if fl == 'full':
        b, c = np.eye(n, m), np.eye(p, n)
        b += gen.ints(rng, (n, m), 0, 1)
        c += gen.ints(rng, (p, n), 0, 1)
    if fl in ('unctrb', 'unobs', 'nonmin', 'jordan') and n > 1:
        a, b, c = gen.similar(rng, a, b, c)
    return a, b, c


def tname(t):
    return '{}st {}x{} {}'.format(t['n'], t['p'], t['m'], t['fl'])


def stair(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b, c = triple(rng, sc['x'])
    ev = {'t': 'stair', 'sig': 'staircase {} {}{}'.format(tname(sc['x']), sc['form'], ' inv'*sc['inv']),
          'form': sc['form'], 'inv': sc['inv']}
    return record(ev, (a, b, c), lambda: harold.staircase(a, b, c, **gen.brief(rng, form=sc['form'], invert=sc['inv'], _={'form': 'c'})),
                  lambda g: mats(*g))


def hess(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    t, arg = sc['x'], sc['arg']
    gain = t['fl'] == 'gain'
    dt = None
    if gain:
        d = gen.ints(rng, (t['p'], t['m']), nz=True)
        x = harold.State(d) if arg == 'state' else harold.Transfer(d.tolist())
        a = b = c = np.zeros((0, 0))
    else:
        a, b, c = triple(rng, t)
        d = gen.ints(rng, (t['p'], t['m'])) if arg != 'tuple' else np.zeros((t['p'], t['m']))
        dt = gen.pick(rng, [None, .5]) if arg != 'tuple' else None
        x = (a, b, c)
        if arg == 'state':
            x = harold.State(a, b, c, d, dt)
        elif arg == 'transfer':
            nu, de = gen.transfer_data(rng, t['p'], t['m'])
            x = harold.Transfer(nu, de, dt) if t['p']*t['m'] > 1 else harold.Transfer(nu[0][0], de[0][0], dt)
            s = harold.transfer_to_state(x)
            a, b, c, d = s.matrices
            if s.NumberOfStates == 0:
                return []
    ev = {'t': 'hess', 'sig': 'hessenberg {} {}{} {}{} {}'.format(tname(t), sc['form'], ' inv'*sc['inv'], arg, ' T'*sc['T'], sc['out']),
          'form': sc['form'], 'inv': sc['inv'], 'gain': gain, 'dt': enc.dt(dt)}

    def f():
        return harold.hessenberg_realization(x, **gen.brief(rng, compute_T=sc['T'], form=sc['form'], invert=sc['inv'], output=sc['out'],
                                                              _={'form': 'c', 'output': 'system'}))

    def rec(g):
        if gain:
            return {'k': 'M', 'same': isinstance(g, type(x)) and np.array_equal(g.to_array(), d)}
        T = ()
        if sc['out'] == 'system':
            if sc['T']:
                g, T = g[0], (g[1],)
            return {**mats(g.a, g.b, g.c, *T), 'd': [enc.mat(g.d)], 'dt': enc.dt(g.SamplingPeriod)}
        return {**mats(*g), 'd': [], 'dt': ev['dt']}
    return record(ev, (a, b, c, d), f, rec)


def kmat(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b, c = triple(rng, sc['x'])
    o = sc['side'] == 'o'
    x = (a, c if o else b)
    if sc['arg'] == 'state':
        x = harold.State(a, b, c)
    f = harold.observability_matrix if o else harold.controllability_matrix
    ev = {'t': 'kmat', 'sig': 'kalman matrix {} {}{} {}'.format(tname(sc['x']), sc['side'], ' compress'*sc['compress'], sc['arg']),
          'side': sc['side'], 'compress': sc['compress']}
    return record(ev, (a, c if o else b), lambda: f(x, **gen.brief(rng, compress=sc['compress'])),
                  lambda g: {**mats(g[0], g[1]), 'r': int(g[2])})


def ktest(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b, c = triple(rng, sc['x'])
    o = sc['side'] == 'o'
    x = (a, c if o else b)
    if sc['arg'] == 'state':
        x = harold.State(a, b, c)
    f = harold.is_kalman_observable if o else harold.is_kalman_controllable
    ev = {'t': 'ktest', 'sig': 'kalman test {} {} {}'.format(tname(sc['x']), sc['side'], sc['arg']), 'side': sc['side']}
    return record(ev, (a, c if o else b), lambda: f(x), lambda g: {'k': 'B', 'b': bool(g)})


def kdec(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    t = sc['x']
    gain = t['fl'] == 'gain'
    dt = gen.DTS[sc['dt']]
    d = gen.ints(rng, (t['p'], t['m']))
    if gain:
        a = b = c = np.zeros((0, 0))
        x = harold.State(d, dt=dt)
    else:
        a, b, c = triple(rng, t)
        x = harold.State(a, b, c, d, dt)
    ev = {'t': 'kdec', 'sig': 'kalman decomposition {}{} {}'.format(tname(t), ' T'*sc['T'], sc['out']), 'gain': gain, 'dt': enc.dt(dt)}

    def rec(g):
        if gain:
            return {'k': 'M', 'same': g is x}
        T = ()
        if sc['T']:
            g, T = g[0], (g[1],)
        if sc['out'] == 'system':
            return {**mats(g.a, g.b, g.c, g.d, *T), 'dt': enc.dt(g.SamplingPeriod)}
        return {**mats(*g, *T), 'dt': ev['dt']}
    return record(ev, (a, b, c, d), lambda: harold.kalman_decomposition(x, **gen.brief(rng, compute_T=sc['T'], output=sc['out'], _={'output': 'system'})), rec)


def cidx(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b, _ = triple(rng, sc['x'])
    b = b*{'unit': 1., 'tiny': 2.**-24, 'huge': 2.**24}[sc['size']]
    ev = {'t': 'cidx', 'sig': 'controllability_indices ' + tname(sc['x']) + ' ' + sc['size']}
    return record(ev, (a, b), lambda: harold.controllability_indices(a, b), lambda g: {'k': 'I', 'i': [int(x) for x in g]})


def cancel(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b, _ = triple(rng, sc['x'])
    ev = {'t': 'cancel', 'sig': 'cancellation_distance ' + tname(sc['x']), 'defective': sc['x']['fl'] == 'jordan'}
    pts = [complex(x) for x in np.linalg.eigvals(a)][:3] + [0., complex(gen.pick(rng, [-1, 1, .5]), gen.pick(rng, [-1, 0, .5]))]
    ev['probe'] = enc.vec(pts)
    np.random.seed(int(rng.integers(2**31)))
    return record(ev, (a, b), lambda: harold.cancellation_distance(a, b), lambda g: {'k': 'V', 'v': [enc.num(x) for x in g]})


def tzeros(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b, c = triple(rng, sc['x'])
    p, m = sc['x']['p'], sc['x']['m']
    d = gen.ints(rng, (p, m), -2, 2, nz=True)
    if sc['feed'] == 'zero':
        d = d*0
    elif sc['feed'] == 'def':
        d = gen.ints(rng, (p, 1), -1, 1, nz=True) @ gen.ints(rng, (1, m), -1, 1, nz=True)
    ev = {'t': 'tzeros', 'sig': 'transmission_zeros {} feed {}'.format(tname(sc['x']), sc['feed'])}
    return record(ev, (a, b, c, d), lambda: harold.transmission_zeros(a, b, c, d),
                  lambda g: {'k': 'V', 'v': enc.vec(g)})


def ranked(rng, q):
    def part(shape):
        return gen.ints(rng, shape, -2, 2)
    while True:
        if q['k'] == 0:
            return np.zeros((q['r'], q['c']))
        x, y = part((q['r'], q['k'])), part((q['k'], q['c']))
        if q['cx']:
            x = x + 1j*part((q['r'], q['k']))
        a = x @ y
        if np.linalg.matrix_rank(a) == q['k'] and np.linalg.svd(a, compute_uv=False)[q['k']-1] > .05:
            return a


def scaled(a, sz):
    if sz == 'rows':
        a = a.copy()
        a[0] *= 2.**-26
        return a
    return a*{'unit': 1., 'tiny': 2.**-40, 'huge': 2.**40}[sz]


def svd(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a = scaled(ranked(rng, sc['x']), sc['sz'])
    ev = {'t': 'svd', 'sig': 'haroldsvd {r}x{c} rank {k} '.format(**sc['x']) + sc['sz'] + ' complex'*sc['x']['cx'], 'rank': sc['rank']}

    def rec(g):
        return {**mats(*g[:3]), 'r': int(g[3]) if sc['rank'] else -1}
    return record(ev, (a,), lambda: harold.haroldsvd(a, **gen.brief(rng, also_rank=sc['rank'])), rec)


def ker(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a = scaled(ranked(rng, sc['x']), sc['sz'])
    ev = {'t': 'ker', 'sig': 'haroldker {r}x{c} rank {k} '.format(**sc['x']) + sc['sz'] + ' ' + sc['side'] + ' complex'*sc['x']['cx'], 'side': sc['side']}
    return record(ev, (a,), lambda: harold.haroldker(a, **gen.brief(rng, side=sc['side'])), lambda g: mats(g))


def ei(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    ev = {'t': 'ei', 'sig': 'e_i {} {} {}'.format(sc['w'], index_text(sc['ix']), sc['o']), 'w': sc['w'], 'ix': sc['ix'], 'o': sc['o']}
    return record(ev, (), lambda: harold.e_i(sc['w'], index_of(sc['ix']), **gen.brief(rng, output=sc['o'], _={'output': 'c'})), lambda g: mats(g))


def mslice(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a = rng.permutation(sc['r']*sc['c']).reshape(sc['r'], sc['c']).astype(float)
    ev = {'t': 'mslice', 'sig': 'matrix_slice {r}x{c} ({z},{w}) {corner}'.format(**sc), 'z': sc['z'], 'w': sc['w'], 'corner': sc['corner']}
    return record(ev, (a,), lambda: harold.matrix_slice(a, (sc['z'], sc['w']), **gen.brief(rng, corner=sc['corner'])), lambda g: mats(*g))


def pair(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    re, im = [-2., -1., .5, 1., 3.], [.5, 1., 2., 4.]
    xs = [gen.pick(rng, re) for _ in range(sc['nr'])]
    r0, i0 = gen.pick(rng, re), gen.pick(rng, im)
    ps = []
    for k in range(sc['np']):
        r = r0 if sc['same'] in ('re', 'all') else re[k]
        i = i0 if sc['same'] in ('im', 'all') else im[k]
        ps += [complex(r, i), complex(r, -i)]
    if sc['bad'] == 'odd':
        ps.append(complex(7., 1.))
    elif sc['bad'] == 're':
        ps += [complex(7., 1.), complex(8., -1.)]
    elif sc['bad'] == 'im':
        ps += [complex(7., 1.), complex(7., -3.)]
    xs = [xs + ps][0]
    xs = [xs[k] for k in rng.permutation(len(xs))]
    a = np.array(xs, dtype=complex) if ps else np.array(xs)
    ev = {'t': 'pair', 'sig': 'pair_complex {nr} reals {np} pairs same {same} bad {bad}'.format(**sc) + ' pf'*sc['pf'] + ' rf'*sc['rf'],
          'pf': sc['pf'], 'rf': sc['rf']}
    return record(ev, (a,), lambda: harold.pair_complex_numbers(a, **gen.brief(rng, positives_first=sc['pf'], reals_first=sc['rf'])),
                  lambda g: {'k': 'V', 'v': enc.vec(g)})


def lyap(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    bl = sc['blocks']
    n = sum(bl)
    disc = sc['form'] == 'd'
    a = np.zeros((n, n))
    k = 0
    for q in bl:
        if q == 1:
            a[k, k] = gen.pick(rng, [-3., -2., -1., 4.] if sc['data'] == 'int' else [-1.5, -.5, .75, 2.5] if not disc else [-.75, -.5, .25, .75])
        else:
            x, y = gen.pick(rng, [-3., -1., 2.]), gen.pick(rng, [1., 2.])
            if sc['data'] != 'int' and disc:
                x, y = x/4, y/4
            a[k:k+2, k:k+2] = [[x, y], [-y, x]]
        k += q
    if sc['sing']:
        # make it not uniquely solvable: eigenvalues with zero sum (product one)
        if n == 1:
            a[0, 0] = 1. if disc else 0.
        elif bl[0] == 1:
            a[0, 0] = 1. if disc else 0.
        else:
            a[:2, :2] = [[0., 1.], [-1., 0.]]
    up = np.triu(gen.ints(rng, (n, n), -1, 1), 1)
    k = 0
    for q in bl:
        up[k:k+q, k:k+q] = 0
        k += q
    a = a + up
    if rep % 2 or not sc['sing']:
        a, *_ = gen.similar(rng, a, a, a)
    y = gen.ints(rng, (n, n), -2, 2)
    y = y + y.T
    args = [a, y]
    if sc['gen']:
        e = np.eye(n) + np.tril(gen.ints(rng, (n, n), -1, 1), -1) if rng.random() < .7 else gen.regular(rng, n)
        args = [a @ e if rng.random() < .5 else e @ a, y, e]
    if sc['data'] == 'int':
        args = [x.astype(int) if np.array_equal(x, np.round(x)) else x for x in args]
    elif sc['data'] == 'inty':
        args[1] = args[1].astype(int)
    us = [2.**sc.get(u, 0) for u in ('ua', 'uy', 'ue')]
    if us != [1., 1., 1.]:
        args = [x*u for x, u in zip(args, us)]
    if rng.random() < .5:
        args = [np.asfortranarray(x) for x in args]
    ev = {'t': 'lyap', 'sig': 'lyapunov {} {}{}{} {} units {}'.format(bl, sc['form'], ' gen'*sc['gen'], ' sing'*sc['sing'], sc['data'], us), 'form': sc['form'],
          'ua': enc.num(us[0]), 'uy': enc.num(us[1]), 'ue': enc.num(us[2])}
    return record(ev, args, lambda: harold.lyapunov_eq_solver(*args, **gen.brief(rng, form=sc['form'], _={'form': 'c'})), lambda g: mats(g))


def lyapbad(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    s = [((2, 3), (2, 2)), ((2, 2), (3, 3)), ((2, 2), (2, 3)), ((2, 2), (2, 2), (3, 3)), ((2, 2), (2, 2), (2, 3)), ((3, 3), (2, 2), (2, 2))][sc['which']-1]
    args = [gen.ints(rng, x) for x in s]
    ev = {'t': 'lyap', 'sig': 'lyapunov shapes {}'.format(s), 'form': sc['form'], 'ua': '1', 'uy': '1', 'ue': '1'}
    return record(ev, args, lambda: harold.lyapunov_eq_solver(*args, **gen.brief(rng, form=sc['form'], _={'form': 'c'})), lambda g: mats(g))


def precord(ev, ps, f, rec):
    ev['ps'] = [enc.vec(p) for p in ps]
    ev['out'] = enc.result(f, rec)
    ev['ps2'] = [enc.vec(p) for p in ps]
    return [ev]


UNIT = {'tiny': .125, 'huge': 16., 'unit': 1.}


def factors(rng, sc):
    u = UNIT[sc.get('size', 'unit')]
    rs = rng.permutation([-3., -2., -1., -.5, .5, 1., 2.])[:2]
    x, y = gen.pick(rng, [-1., 0., .5]), gen.pick(rng, [1., 2.])
    f = [np.array([1., -rs[0]*u]), np.array([1., -rs[1]*u]), np.array([1., -2*x*u, (x*x+y*y)*u*u])]
    ps = []
    for e in sc['e']:
        p = np.array([1.]) if e else np.array([0.])
        for k, q in enumerate(e):
            for _ in range(q):
                p = np.convolve(p, f[k])
        if sc['scale']:
            p = p * gen.pick(rng, [2., -1., .5, 3., 2.**-40, -2.**40])
        ps.append(np.concatenate((np.zeros(sc['lead']), p)))
    return ps


def gcd(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    ps = factors(rng, sc)
    ev = {'t': 'gcd', 'sig': 'gcd {}{}{} {}'.format(sc['e'], ' lead'*sc['lead'], ' scale'*sc['scale'], sc.get('size', 'unit')),
          'unit': enc.num(UNIT[sc.get('size', 'unit')])}
    return precord(ev, ps, lambda: harold.haroldgcd(*ps), lambda g: {'k': 'V', 'v': enc.vec(g)})


def lcm(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    ps = factors(rng, sc)
    mults = rng.random() < .8
    ev = {'t': 'lcm', 'sig': 'lcm {}{}{} {}'.format(sc['e'], ' lead'*sc['lead'], ' scale'*sc['scale'], sc.get('size', 'unit')),
          'unit': enc.num(UNIT[sc.get('size', 'unit')]), 'mults': mults}

    def rec(g):
        if mults:
            return {'k': 'V', 'v': enc.vec(g[0]), 'mu': [enc.vec(x) for x in g[1]]}
        return {'k': 'V', 'v': enc.vec(g), 'mu': []}
    return precord(ev, ps, lambda: harold.haroldlcm(*ps, **gen.brief(rng, compute_multipliers=mults)), rec)


def coeffs(rng, nz):
    n, z = nz
    p = gen.ints(rng, n, -3, 3)/gen.pick(rng, [1., 1., 2.])
    p[:z] = 0.
    if z < n and p[z] == 0:
        p[z] = gen.pick(rng, [1., -2., .5])
    return p


def polyop(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    ps = [coeffs(rng, x) for x in sc['a']]
    if sc['op'] == 'add' and len(ps) > 1 and rep % 3 == 2 and ps[0].size == ps[1].size:
        ps[1][:2] = -ps[0][:2]
    if sc['lists']:
        ps = [p.tolist() for p in ps]
    ev = {'t': 'polyop', 'op': sc['op'], 'trim': sc['trim'], 'sig': 'poly{} {}{}{}'.format(sc['op'], sc['a'], ' trim'*sc['trim'], ' lists'*sc['lists'])}
    f = harold.haroldpolyadd if sc['op'] == 'add' else harold.haroldpolymul
    return precord(ev, ps, lambda: f(*ps, **gen.brief(rng, trim_zeros=sc['trim'])), lambda g: {'k': 'V', 'v': enc.vec(g)})


def polydiv(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    a, b = (coeffs(rng, x) for x in sc['a'])
    if b.any():
        k = np.flatnonzero(b)[0]
        b[k] = gen.pick(rng, [1., 2., -.5])
    if sc['exact']:
        a = np.convolve(a, b)
    ev = {'t': 'polydiv', 'sig': 'polydiv {}{}'.format(sc['a'], ' exact'*sc['exact'])}
    return precord(ev, (a, b), lambda: harold.haroldpolydiv(a, b), lambda g: {'k': 'V', 'q': enc.vec(g[0]), 'r': enc.vec(g[1])})


def fromroots(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    rs = [gen.pick(rng, gen.REAL) for _ in range(sc['nr'])]
    for _ in range(sc['np']):
        z = complex(gen.pick(rng, [-1., .5, 2.]), gen.pick(rng, [1., 2., .5]))
        rs += [z, z.conjugate()]
    if sc['np'] and rep % 3 == 2:
        rs = rs[:-1]
    rs = [rs[k] for k in rng.permutation(len(rs))]
    arg = np.array(rs) if rep % 2 else rs
    ev = {'t': 'fromroots', 'sig': 'haroldpoly {nr} {np}'.format(**sc)}
    return precord(ev, [rs], lambda: harold.haroldpoly(arg), lambda g: {'k': 'V', 'v': enc.vec(g)})


def companion(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    p = coeffs(rng, sc['a'])
    arg = p.tolist() if sc['lists'] else p if rep % 2 else p[None, :]
    ev = {'t': 'companion', 'sig': 'companion {}'.format(sc['a'])}
    return precord(ev, [p], lambda: harold.haroldcompanion(arg), lambda g: {**mats(g), 'size': int(np.size(g))})


FN = {k: v for k, v in globals().items() if callable(v)}


def call(sc, seed, rep):
    return FN[sc['fn']](sc, seed, rep)
