"""Recording: objects of the library -> JSON records with exact numbers.

Nothing here decides anything.  A float is written as m * 2^e, so the
specification sees exactly the number the library produced.
"""
import contextlib
import signal

import numpy as np


def real(x):
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    n, d = x.as_integer_ratio()
    if d == 1:
        return str(n)
    return '{}p-{}'.format(n, d.bit_length() - 1)


def num(x):
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return real(x.real)
        r, i = real(x.real), real(x.imag)
        if 'n' in r or 'n' in i:
            return 'nan'
        return r + ';' + i
    return real(x)


def vec(v):
    return [num(x) for x in np.asarray(v).ravel()]


def mat(a):
    a = np.asarray(a)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim == 1:
        a = a.reshape(1, -1)
    r, c = a.shape
    return {'r': r, 'c': c, 'e': [[num(x) for x in row] for row in a]}


def dt(x):
    return 'null' if x is None else num(x)


def flag(g, name):
    v = getattr(g, name, None)
    return 'unknown' if v is None else ('yes' if bool(v) else 'no')


def meta(g):
    """Public facets shared by both classes."""
    def get(f):
        try:
            return f()
        except Exception as e:            # recorded, judged by the spec
            return 'raised ' + type(e).__name__
    out = {}
    x = get(lambda: g.DiscretizedWith)
    out['dw'] = 'null' if x is None else str(x)
    x = get(lambda: g.SamplingSet)
    out['set'] = str(x)
    out['stab'] = flag(g, '_isstable')
    out['poles'] = vec(g.poles)
    out['zeros'] = vec(g.zeros)
    out['nin'] = int(g.NumberOfInputs)
    out['nout'] = int(g.NumberOfOutputs)
    return out


def model(g, full=False):
    """Record of a State / Transfer object, read through public attributes."""
    import harold
    p, m = g.shape
    if isinstance(g, harold.State):
        a = np.asarray(g.a, dtype=float)
        n = a.shape[0] if a.ndim == 2 else 0
        out = {'k': 'S', 'p': int(p), 'm': int(m), 'n': int(n), 'dt': dt(g.SamplingPeriod),
               'a': mat(a.reshape(n, n) if n else np.zeros((0, 0))),
               'b': mat(g.b if n else np.zeros((0, m))),
               'c': mat(g.c if n else np.zeros((p, 0))),
               'd': mat(g.d)}
        out['gain'] = n == 0
    else:
        nu, de = g.polynomials
        if isinstance(nu, np.ndarray):
            nu, de = [[nu]], [[de]]
        out = {'k': 'T', 'p': int(p), 'm': int(m), 'dt': dt(g.SamplingPeriod),
               'num': [[vec(x) for x in r] for r in nu],
               'den': [[vec(x) for x in r] for r in de]}
        out['gain'] = all(np.asarray(x).size == 1 for r in de for x in r)
    if full:
        out.update(meta(g))
    return out


def operand(x):
    import harold
    if isinstance(x, (harold.State, harold.Transfer)):
        return model(x)
    a = np.asarray(x)
    nd = a.ndim
    m = mat(a)
    return {'k': 'A', 'nd': nd, 'p': m['r'], 'm': m['c'], 'gain': True, 'dt': 'null', 'v': m}


STUCK = []


@contextlib.contextmanager
def limit():
    """A call that does not come back raises; after the first such call patience is shorter."""
    seconds = (60, 20, 5, 1)[min(len(STUCK), 3)]

    def stop(*a):
        STUCK.append(1)
        raise TimeoutError('no answer in {} s'.format(seconds))
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def result(f, rec=None):
    """Run f; record what came back or which exception class was raised."""
    import warnings
    rec = rec or operand
    try:
        with warnings.catch_warnings(), limit():
            warnings.simplefilter('ignore')
            g = f()
    except Exception as e:
        return {'t': 'err', 'e': 'ValueError' if isinstance(e, ValueError) else type(e).__name__, 'msg': str(e)[:200]}
    try:
        return {'t': 'ok', 'g': rec(g)}
    except Exception as e:
        return {'t': 'ok', 'g': {'k': 'X', 'why': type(e).__name__ + ': ' + str(e)[:150]}}
