"""Makes the arithmetic calls."""
import operator

from . import gen, enc

OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
       'matmul': operator.matmul, 'div': operator.truediv}


def cls(c):
    """Short text for a class."""
    if c['k'] == 'A':
        return 'A%d[%dx%d]' % (c['nd'], c['p'], c['m'])
    fl = c.get('fl', 'gen')
    return '%s%s[%dx%d]%s%s' % (c['k'], 'g' if c['gain'] else '', c['p'], c['m'], '' if c['dt'] == 'null' else 'z',
                                ' ' + fl if fl in ('small', 'big', 'slow', 'zero') else '')


def binary(sc, seed, rep):
    rng = gen.rng_for(seed, sc, rep)
    want = None
    if sc['op'] == 'div' and sc['y']['k'] != 'A' and sc['y']['p'] == sc['y']['m']:
        want = 'sing' if rep % 3 == 2 else 'inv'
    x = gen.operand(rng, sc['x'])
    y = gen.operand(rng, sc['y'], want, nz=sc['op'] == 'div')
    ev = {'t': 'bin', 'sig': ' '.join((cls(sc['x']), sc['op'], cls(sc['y']))), 'op': sc['op'], 'x': enc.operand(x), 'y': enc.operand(y)}
    f = OPS[sc['op']]
    ev['out'] = enc.result(lambda: f(x, y))
    ev['x2'], ev['y2'] = enc.operand(x), enc.operand(y)
    return [ev]


def negate(sc, seed, rep):
    rng = gen.rng_for(seed, 'neg', sc, rep)
    x = gen.operand(rng, sc)
    ev = {'t': 'neg', 'sig': 'neg ' + cls(sc), 'x': enc.operand(x)}
    ev['out'] = enc.result(lambda: -x)
    ev['x2'] = enc.operand(x)
    return [ev]
