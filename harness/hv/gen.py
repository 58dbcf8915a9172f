"""Concrete data for abstract classes.  Draws only, decides nothing.

Data are small dyadic numbers, so that the inputs are exact and the
computations of the library are well conditioned: eigenvalues and roots stay
inside |s| < 4.5, coefficients and entries are of order one.
"""
import zlib
import json

import numpy as np

DTS = {'null': None, 'dt1': 0.5, 'dt2': 0.25, 'dt3': 2.0, 'dt4': 0.125}
REAL = [-3., -2.5, -2., -1.5, -1., -.5, .5, 1., 1.5, 2.]
LEAD = [1., 1., 2., -1., .5]


def rng_for(seed, *key):
    h = zlib.crc32(json.dumps(key, sort_keys=True).encode())
    return np.random.default_rng([seed & 0x7fffffff, h])


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def ints(rng, shape, lo=-3, hi=3, nz=False):
    a = rng.integers(lo, hi + 1, size=shape).astype(float)
    if nz and a.size and not np.any(a):
        a.flat[int(rng.integers(a.size))] = 1.
    return a


def factor(rng, stable=None):
    """A monic real factor of degree 1 or 2."""
    if rng.random() < .7:
        r = pick(rng, REAL)
        return np.array([1., -r])
    a, b = pick(rng, [-1.5, -1., -.5, .5, 0.]), pick(rng, [.5, 1., 2.])
    return np.array([1., -2*a, a*a + b*b])


def mono(rng, deg):
    p = np.array([1.])
    while p.size - 1 < deg:
        f = factor(rng)
        if p.size + f.size - 2 <= deg:
            p = np.convolve(p, f)
    return p


def entry(rng, maxdeg=2, den=None, zero=.1, static=.12):
    """num, den of one proper rational entry."""
    x = rng.random()
    if den is None:
        deg = int(rng.integers(1, maxdeg + 1))
        den = mono(rng, deg) * pick(rng, LEAD)
    else:
        den = den * pick(rng, [1., 1., 2., -1.])
    if x < zero:
        return np.array([0.]), np.array([pick(rng, [1., 1., 2.])])
    if x < zero + static:
        return np.array([pick(rng, [1., 2., -3., .5])]), np.array([pick(rng, [1., 2., 4.])])
    nd = int(rng.integers(0, den.size))
    num = ints(rng, nd + 1)
    if num[0] == 0:
        num[0] = pick(rng, [1., -1., 2.])
    return num, den


def transfer_data(rng, p, m, gain=False, maxdeg=None, nogap=False):
    """Nested lists of num, den coefficient lists."""
    maxdeg = maxdeg or (3 if p*m == 1 else 2)
    shared = mono(rng, int(rng.integers(1, maxdeg + 1))) if rng.random() < .3 else None
    num, den = [], []
    for i in range(p):
        nr, dr = [], []
        for j in range(m):
            if gain:
                n, d = (np.array([pick(rng, [1., 2., -3., .5, 0. if p*m > 1 else 3.])]),
                        np.array([pick(rng, [1., 1., 2., -4.])]))
            else:
                n, d = entry(rng, maxdeg, shared, *(() if p*m > 1 else (0., 0.)))
            nr.append(n.tolist())
            dr.append(d.tolist())
        num.append(nr)
        den.append(dr)
    if not gain and all(len(d) == 1 for r in den for d in r):
        n, d = entry(rng, maxdeg, None, 0., 0.)
        i, j = int(rng.integers(p)), int(rng.integers(m))
        num[i][j], den[i][j] = n.tolist(), d.tolist()
    return num, den


def amat(rng, n, radius=4., stable=None, dt=None):
    """An n x n matrix of halves with spectral radius below `radius`."""
    while True:
        a = ints(rng, (n, n), -3, 3) / pick(rng, [1., 1., 2.])
        if n > 1 and rng.random() < .5:
            a *= rng.random((n, n)) < .7
        ev = np.linalg.eigvals(a)
        if np.max(np.abs(ev)) > radius:
            a = np.round(a * (radius/np.max(np.abs(ev))) * 2) / 4
            ev = np.linalg.eigvals(a)
        if np.max(np.abs(ev)) > radius:
            continue
        if stable:
            if dt is None:
                a = a - np.eye(n) * (np.ceil(2*np.max(ev.real))/2 + .5)
            else:
                a = a * 2.**-np.ceil(np.log2(max(np.max(np.abs(ev)), 2.**-6)) + .4)
            ev = np.linalg.eigvals(a)
            if np.max(np.abs(ev)) > radius + 4:
                continue
            if (np.max(ev.real) > -.2) if dt is None else (np.max(np.abs(ev)) > .85):
                continue
        return a


def state_data(rng, p, m, n=None, d=None, stable=None, dt=None):
    n = n or int(rng.integers(1, 4))
    a = amat(rng, n, stable=stable, dt=dt)
    b = ints(rng, (n, m), -2, 2, nz=True)
    c = ints(rng, (p, n), -2, 2, nz=True)
    if d is None:
        d = rng.random() < .6
    dd = ints(rng, (p, m), -2, 2, nz=True) if d else np.zeros((p, m))
    return a, b, c, dd


def regular(rng, p):
    """A well conditioned square matrix."""
    while True:
        d = ints(rng, (p, p), -2, 3)
        if p and abs(np.linalg.det(d)) >= 1 and np.linalg.cond(d) < 20:
            return d


SIZE = {'small': 2.**-13, 'big': 2.**13}
SLOW = 2.**-7


def resized(fl, num, den):
    """Coefficients of one entry: all values scaled, or the time scale stretched."""
    num, den = np.array(num, float), np.array(den, float)
    if fl == 'slow':
        num = num * SLOW**(np.arange(num.size) + den.size - num.size)
        den = den * SLOW**np.arange(den.size)
    return (num*SIZE.get(fl, 1.)).tolist(), den.tolist()


def model(rng, k, p, m, gain, dt, want=None, fl='gen'):
    """A State or Transfer of the class.  want: 'inv' invertible at infinity, 'sing' not.

    fl: 'gen', 'zero' the zero system, 'small', 'big' values, 'slow' poles.
    """
    import harold
    dt = DTS[dt]
    if fl == 'zero' and want == 'inv':
        want = None
    if k == 'S':
        if gain:
            d = ints(rng, (p, m), -3, 3, nz=True)
        else:
            a, b, c, d = state_data(rng, p, m, dt=dt)
        if want == 'inv':
            d = regular(rng, p)
        elif want == 'sing':
            d = np.zeros((p, p)) if p == 1 else np.ones((p, 1)) @ ints(rng, (1, p), nz=True)
        d = d * SIZE.get(fl, 1.)
        if fl == 'zero':
            d = d * 0.
        if gain:
            return harold.State(d, dt=dt)
        if fl == 'slow':
            a, b = a*SLOW, b*SLOW
        elif fl == 'zero':
            if rng.random() < .5:
                b = b*0.
            else:
                c = c*0.
        elif fl in SIZE:
            if rng.random() < .5:
                b = b*SIZE[fl]
            else:
                c = c*SIZE[fl]
        return harold.State(a, b, c, d, dt)
    num, den = transfer_data(rng, p, m, gain)
    if want in ('inv', 'sing'):
        d = regular(rng, p) if want == 'inv' else (
            np.zeros((p, p)) if p == 1 else np.ones((p, 1)) @ ints(rng, (1, p), nz=True))
        for i in range(p):
            for j in range(p):
                q = den[i][j]
                if gain:
                    num[i][j] = [d[i, j]*q[0]]
                else:
                    n = ints(rng, len(q))
                    n[0] = d[i, j]*q[0]
                    num[i][j] = n.tolist()
    for i in range(p):
        for j in range(m):
            if fl == 'zero':
                num[i][j] = [0.]
                if rng.random() < .3:
                    den[i][j] = [1.]
            elif fl != 'gen':
                num[i][j], den[i][j] = resized(fl, num[i][j], den[i][j])
    if p == m == 1:
        return harold.Transfer(num[0][0], den[0][0], dt)
    return harold.Transfer(num, den, dt)


def flavoured(rng, c):
    """A model of class c with the structural peculiarity c['fl']."""
    import harold
    k, p, m, fl, dt = c['k'], c['p'], c['m'], c.get('fl', 'gen'), DTS[c['dt']]
    if fl in ('gen', 'small', 'big', 'slow') or c['gain']:
        return model(rng, k, p, m, c['gain'], c['dt'], fl=fl)
    dc = 0. if dt is None else 1.                       # the DC point
    if k == 'T':
        num, den = transfer_data(rng, p, m)
        hit = rng.random((p, m)) < .6
        hit[int(rng.integers(p)), int(rng.integers(m))] = True
        for i in range(p):
            for j in range(m):
                n, d = np.array(num[i][j]), np.array(den[i][j])
                if not hit[i, j]:
                    continue
                if fl == 'cancel':
                    if rng.random() < .3:
                        n = d * pick(rng, [1., 2., -.5])
                    else:
                        f = factor(rng)
                        n, d = np.convolve(n, f), np.convolve(d, f)
                elif fl == 'strict':
                    d = mono(rng, int(rng.integers(1, 4))) * pick(rng, LEAD)
                    n = ints(rng, int(rng.integers(1, d.size)), nz=True)
                elif fl == 'biproper':
                    d = mono(rng, int(rng.integers(1, 3))) * pick(rng, LEAD)
                    n = ints(rng, d.size)
                    n[0] = pick(rng, [1., -2., 3.])
                elif fl in ('integ', 'faint'):
                    f = np.array([1., -dc])
                    d = np.convolve(d, f)
                    if rng.random() < .5:
                        n = np.convolve(n, f)
                    if rng.random() < .2:
                        d = np.convolve(d, f)
                    if fl == 'faint':
                        n = n*pick(rng, [2.**-60, 2.**40])
                elif fl == 'close':
                    f = np.array([1., pick(rng, [1., 1., -1.]) * 2.**-int(rng.integers(8, 19)) - dc])
                    d = np.convolve(d, f)
                    if rng.random() < .7:
                        n = np.convolve(n, f + np.array([0., pick(rng, [1., 2., -.5])*(f[1] + dc)]))
                elif fl == 'near':                   # almost a constant: pole and zero nearly meet
                    d = mono(rng, int(rng.integers(1, 3))) * pick(rng, LEAD)
                    n = d * pick(rng, [1., 2., -.5])
                    n[int(rng.integers(1, d.size))] += pick(rng, [1., -1.]) * 2.**-int(rng.integers(8, 14))
                elif fl == 'zero':
                    n = np.array([0.])
                    if rng.random() < .5:
                        d = np.array([1.])
                elif fl == 'multi':
                    f = factor(rng)
                    d = np.convolve(f, f) * pick(rng, LEAD)
                    n = np.convolve(f, ints(rng, 1, 1, 3)) if rng.random() < .5 else ints(rng, 2, nz=True)
                num[i][j], den[i][j] = n.tolist(), d.tolist()
        if fl == 'common':
            d = mono(rng, int(rng.integers(1, 4)))
            for i in range(p):
                for j in range(m):
                    den[i][j] = d.tolist()
                    num[i][j] = ints(rng, int(rng.integers(1, d.size + 1)), nz=rng.random() < .8).tolist()
        if p == m == 1:
            return harold.Transfer(num[0][0], den[0][0], dt)
        return harold.Transfer(num, den, dt)
    n = int(rng.integers(1, 4))
    a, b, cc, d = state_data(rng, p, m, n)
    if fl == 'strict':
        d = d*0
    elif fl == 'zerocol':
        if rng.random() < .5:
            b[:, int(rng.integers(m))] = 0.
        else:
            cc[int(rng.integers(p)), :] = 0.
    elif fl in ('unctrb', 'unobs', 'nonmin'):
        # block triangular coupling with one or two redundant modes, then mixed states
        def redundant(a, b, cc, c_side):
            n = a.shape[0]
            q = int(rng.integers(1, 3))
            a2 = amat(rng, q)
            a12 = ints(rng, (n, q), -1, 1)
            if c_side:
                return (np.block([[a, a12], [np.zeros((q, n)), a2]]), np.vstack((b, np.zeros((q, m)))),
                        np.hstack((cc, ints(rng, (p, q), -2, 2))))
            return (np.block([[a, np.zeros((n, q))], [a12.T, a2]]), np.vstack((b, ints(rng, (q, m), -2, 2))),
                    np.hstack((cc, np.zeros((p, q)))))
        if fl != 'unobs':
            a, b, cc = redundant(a, b, cc, True)
        if fl != 'unctrb':
            a, b, cc = redundant(a, b, cc, False)
        a, b, cc = similar(rng, a, b, cc)
    elif fl == 'integ':
        a = np.block([[a, ints(rng, (n, 1), -1, 1)], [np.zeros((1, n)), dc*np.ones((1, 1))]])
        b = np.vstack((b, ints(rng, (1, m), -1, 1)))
        cc = np.hstack((cc, ints(rng, (p, 1), -1, 1)))
        a, b, cc = similar(rng, a, b, cc)
    elif fl == 'close':
        a = np.diag(rng.permutation([-3., -2., -1., .5, -.5])[:n])
        a = np.block([[a, ints(rng, (n, 1), -1, 1)], [np.zeros((1, n)), np.array([[dc + pick(rng, [-1., 1.])*2.**-int(rng.integers(8, 12))]])]])
        b = np.vstack((b, ints(rng, (1, m), -1, 1, nz=True)))
        cc = np.hstack((cc, ints(rng, (p, 1), -1, 1, nz=True)))
    elif fl == 'jordan':
        r = pick(rng, REAL)
        n = int(rng.integers(2, 4))
        a = r*np.eye(n) + np.diag(ints(rng, n-1, 0, 1), 1)
        b, cc = ints(rng, (n, m), -2, 2, nz=True), ints(rng, (p, n), -2, 2, nz=True)
        a, b, cc = similar(rng, a, b, cc)
    elif fl == 'iso':                                    # decoupled states
        n = int(rng.integers(2, 5))
        a = np.diag([pick(rng, REAL) for _ in range(n)])
        b, cc = ints(rng, (n, m), -1, 1), ints(rng, (p, n), -1, 1)
    return harold.State(a, b, cc, d, dt)


def similar(rng, a, b, c):
    """The same system in other coordinates: an exactly invertible integer change."""
    n = a.shape[0]
    t = np.eye(n)
    for _ in range(2):
        i, j = rng.permutation(n)[:2] if n > 1 else (0, 0)
        if i != j:
            e = np.eye(n)
            e[i, j] = pick(rng, [-1., 1.])
            t = t @ e
    p = np.eye(n)[rng.permutation(n)]
    t = p @ t
    ti = np.round(np.linalg.inv(t))
    return ti @ a @ t, ti @ b, c @ t


def array(rng, nd, p, m, nz=False):
    if nd == 0:
        x = pick(rng, [2., -1., 3., .5] + ([] if nz else [0.]))
        return pick(rng, [x, x, np.float64(x)] + ([int(x)] if x == int(x) else []))
    a = ints(rng, (m,) if nd == 1 else (p, m), nz=nz)
    return a.astype(int) if rng.random() < .2 else a


def operand(rng, c, want=None, nz=False):
    if c['k'] == 'A':
        return array(rng, c['nd'], c['p'], c['m'], nz)
    return model(rng, c['k'], c['p'], c['m'], c['gain'], c['dt'], want, c.get('fl', 'gen'))


# what leaving an option out means
DEFAULTS = dict(negative=True, side='right', also_rank=False, corner='nw', positives_first=False, reals_first=True, compute_multipliers=True,
                trim_zeros=True, per_channel=False, x0=None, weight_on='state', compress=False, compute_T=False, invert=False, use_minreal=False,
                w_unit='Hz', output_unit='Hz', use_db=False, use_hz=True, use_degree=True, negative_freqs=True, dt=None, prob_dist=None, stable=True)


def brief(rng, **kw):
    """The options, those at their default left out every other time; form, output have several defaults."""
    extra = kw.pop('_', {})
    rule = {**DEFAULTS, **extra}
    out = {}
    for k, v in kw.items():
        same = k in rule and (v is rule[k] or isinstance(v, str) and v == rule[k])
        if not (same and rng.random() < .5):
            out[k] = v
    return out
