"""What models tell about themselves."""
import re

import numpy as np

from . import gen, enc
from .ex_signals import modal, name


def props(g):
    def rec(r):
        if r is None:
            return {'k': 'none'}
        r = np.asarray(r)
        return {'k': 'P', 'rows': [[enc.num(r[i, 0]), enc.num(r[i, 1]), enc.num(r[i, 2])] for i in range(r.shape[0])]} if r.shape[1:] == (3,) else {'k': 'X'}
    return enc.result(lambda: g.pole_properties(), rec)


def array(g):
    def rec(r):
        if not isinstance(r, np.ndarray) or r.ndim != 2:
            return {'k': 'X'}
        first = enc.mat(r)
        before = repr(enc.model(g))
        r += 1.
        return {'k': 'M', 'M': first, 'own': repr(enc.model(g)) == before}
    return enc.result(g.to_array, rec)


def table(text):
    lines = text.rstrip('\n').split('\n')
    k = [i for i, s in enumerate(lines) if s.startswith('---')][0]
    spans = [m.span() for m in re.finditer('-+', lines[k])]
    rows = [[s[a:b].strip() for a, b in spans] for s in lines[k+1:]]
    cols = list(zip(*rows)) if rows else [()]*4

    def pair(re_, im_):
        return [enc.num(complex(float(a), float(b))) for a, b in zip(re_, im_) if a or b]
    return pair(cols[0], cols[1]), pair(cols[2], cols[3]), lines[k-1]


def describe(g):
    def rec(s):
        low = s.lower()
        out = {'k': 'D', 'dom': 'R' if 'continuous' in low and 'discrete' not in low else 'Z' if 'discrete' in low and 'continuous' not in low else '?',
               'cls': 'T' if 'transfer' in low and 'state' not in low else 'S' if 'state' in low and 'transfer' not in low else '?',
               'gain': 'static gain' in low, 'T': 'nan', 'hz': 'nan', 'p': 0, 'm': 0, 'n': 0, 'plural': True, 'poles': [], 'zeros': []}
        t = re.search(r'time: ([\d.]+) \(([\d.]+) hz', low)
        if t:
            out['T'], out['hz'] = enc.num(float(t[1])), enc.num(float(t[2]))
        if out['gain']:
            t = re.search(r'(\d+)x(\d+) static', low)
            out['p'], out['m'] = int(t[1]), int(t[2])
            return out
        for key, noun in (('p', 'output'), ('m', 'input'), ('n', 'state')):
            t = re.search(r'(\d+) {}(s?)\b'.format(noun), low)
            if t:
                out[key] = int(t[1])
                out['plural'] = out['plural'] and (t[2] == 's') == (int(t[1]) > 1)
        out['poles'], out['zeros'], _ = table(s)
        return out
    return enc.result(lambda: repr(g), rec)


def call(sc, seed, rep):
    rng = gen.rng_for(seed, sc, rep)
    g = modal(rng, sc['x'], sc['poles'], most=3)[0]

    def state():
        return repr(enc.model(g, full=True))
    ev = {'t': sc['fn'], 'sig': '{} {} {}'.format(sc['fn'], name(sc['x']), sc['poles']), 'x': enc.model(g), 'poles': enc.vec(g.poles), 'zeros': enc.vec(g.zeros),
          'before': state()}
    ev['out'] = {'props': props, 'array': array, 'repr': describe}[sc['fn']](g)
    ev['after'] = state() if not (sc['fn'] == 'array' and sc['x']['gain']) else ev['before']
    return [ev]
