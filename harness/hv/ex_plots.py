"""Figures; random and stacked state data."""
import re

import numpy as np

from . import gen, enc
from .ex_signals import modal, name

DISTS = {'default': None, 'real': [1, 0, 0, 0], 'complex': [0, 1, 0, 0], 'integrator': [0, 0, 1, 0], 'circle': [0, 0, 0, 1],
         'mixed': [.25, .25, .25, .25], 'intcirc': [0, 0, .5, .5], 'even': [.25, .75]}


def at(n, extra):
    return sorted({0, n - 1} | {int(q*n) % n for q in extra})


def drawn(fig, fn, extra):
    import matplotlib.colors
    import matplotlib.text
    rows, cols = 0, 0
    place = {}
    for ax in fig.axes:
        s = ax.get_subplotspec()
        rows, cols = s.get_gridspec().get_geometry()
        place[s.rowspan.start, s.colspan.start] = ax
    cells = []
    for r in range(rows):
        for c in range(cols):
            ax = place[r, c]
            lines, marks = [], False
            for ln in ax.get_lines():
                x, y = np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)
                x, y = np.ravel(x), np.ravel(y)
                if fn == 'nyquist' and ln.get_marker() not in ('None', None, '', ' ') and ln.get_linestyle() in ('None', None, '', ' '):
                    marks = marks or (x.tolist() == [-1.] and y.tolist() == [0.])
                    continue
                n = x.size
                tag = re.fullmatch(r'sys_(\d+)_in_(\d+)_out_(\d+)_(\w+)', str(ln.get_label()))
                ok = y[np.isfinite(y)]
                ks = list(range(n)) if n <= 4 else sorted(set(at(n, extra)) | set(range(4) if fn in ('step', 'impulse') else ()))
                lines.append({'sys': int(tag[1]) if tag else -1, 'in': int(tag[2]) if tag else -1, 'out': int(tag[3]) if tag else -1,
                              'what': tag[4] if tag else '?', 'n': n, 'at': [k + 1 for k in ks], 'x': enc.vec(x[ks]), 'y': enc.vec(y[ks]),
                              'jump': enc.num(np.max(np.abs(np.diff(ok)))) if ok.size > 1 else 'nan', 'draw': ln.get_drawstyle(),
                              'color': matplotlib.colors.to_hex(ln.get_color())})
            cells.append({'on': bool(ax.get_visible()), 'logx': ax.get_xscale() == 'log', 'marks': marks, 'lines': lines})
    words = ' '.join(t.get_text() for t in fig.findobj(matplotlib.text.Text))
    return {'k': 'P', 'rows': int(rows), 'cols': int(cols), 'cells': cells,
            'words': {'hz': '[Hz]' in words, 'rads': '[rad/s]' in words, 'db': '[dB]' in words, 'deg': '[deg]' in words, 'rad': '[rad]' in words}}


def plot(sc, seed, rep):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import harold
    rng = gen.rng_for(seed, sc, rep)
    fn, o, auto = sc['fn'], sc['o'], sc['grid'] == 'auto'
    gs = [modal(rng, x, sc['poles'])[0] for x in sc['xs']]
    freq = fn in ('bode', 'nyquist')
    extra = rng.random(2)
    dts = [gen.DTS[x['dt']] for x in sc['xs']]
    w = None
    if not auto and freq:
        tops = [.45/d for d in dts if d is not None]
        top = min(tops) if tops else 2.
        if not o['hz']:
            top *= 6
        w = np.unique(np.round(rng.random(7)*top*256 + 1)/256)
        if tops and rng.random() < .5:
            w = np.append(w, 512.)
    elif not auto:
        n = int(rng.integers(4, 7))
        h = dts[0] if dts[0] is not None else gen.pick(rng, [.125, .25, .5])
        w = np.arange(n)*h
    arg = None if w is None else w.tolist() if sc['grid'] == 'list' else w
    f = {'step': harold.step_response_plot, 'impulse': harold.impulse_response_plot, 'bode': harold.bode_plot, 'nyquist': harold.nyquist_plot}[fn]
    kw = {}
    if fn == 'bode':
        kw = gen.brief(rng, use_db=o['db'], use_hz=o['hz'], use_degree=o['deg'])
    elif fn == 'nyquist':
        kw = gen.brief(rng, use_hz=o['hz'], negative_freqs=o['neg'])
    colors = []
    if sc['form'] == 'styled':
        colors = ['#1020f0', '#f02010']
        kw['style'] = matplotlib.cycler(color=colors)
    sys = gs[0] if sc['form'] == 'model' else tuple(gs) if sc['form'] == 'tuple' else gs
    refs = []
    for g in gs:
        if freq:
            if not auto or len(gs) > 1:
                refs.append({'n': -1, 'x': []})
                continue
            x = harold.frequency_response(g, output_unit='Hz' if o['hz'] else 'rad/s')[1]
            n = x.size
            refs.append({'n': n, 'x': enc.vec(x[list(range(n)) if n <= 4 else at(n, extra)])})
        else:
            y, x = (harold.simulate_step_response if fn == 'step' else harold.simulate_impulse_response)(g, arg)
            n = x.size
            y = y[:, :, None] if y.ndim == 2 else y
            ks = list(range(n)) if n <= 4 else sorted(set(at(n, extra)) | set(range(4)))
            refs.append({'n': n, 'x': enc.vec(x[ks]), 'first': enc.vec(x[:4]),
                         'y': [[enc.vec(y[ks, i, j]) for j in range(y.shape[2])] for i in range(y.shape[1])]})

    def state():
        return repr(([enc.model(g) for g in gs], None if w is None else enc.vec(w), arg))
    ev = {'t': 'plot', 'fn': fn, 'sig': '{} plot [{}] {} {} {}{}'.format(
            fn, '; '.join(name(x) for x in sc['xs'][:3]) + ' ...'*(len(gs) > 3), sc['grid'], sc['poles'], sc['form'],
            '' if fn in ('step', 'impulse') else ' ' + '/'.join(k for k in ('db', 'hz', 'deg', 'neg') if o[k])),
          'xs': [enc.model(g) for g in gs], 'auto': auto, 'w': [] if w is None else enc.vec(w), 'o': o, 'ref': refs, 'colors': colors, 'before': state()}

    def fig(r):
        r = r if freq else np.ravel(r)[0].figure
        return drawn(r, fn, extra)
    try:
        ev['out'] = enc.result(lambda: f(sys, arg, **kw), fig)
        ev['after'] = state()
    finally:
        plt.close('all')
    return [ev]


def rand(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    n, p, m, fl, stable = sc['n'], sc['p'], sc['m'], sc['flaw'], sc['stable']
    dt = gen.DTS[sc['dt']]
    dist = DISTS[sc['dist']]
    if dist is not None and stable:
        dist = dist[:2]
    if fl == 'sum':
        dist = [.5, .25] if stable else [.5, .25, 0, 0]
    elif fl == 'length':
        dist = [.5, .25, .25]
    elif fl == 'negative':
        dist = [1.5, -.5] if stable else [1.5, -.5, 0, 0]
    elif fl == 'size':
        n = -n
    elif fl == 'period':
        dt = -.5
    if dist is not None and rng.random() < .5:
        dist = np.array(dist)
    np.random.seed(int(rng.integers(0, 2**31)))
    ev = {'t': 'rand', 'sig': 'random_state_model n={} {}x{} {} {} {} {}'.format(n, p, m, sc['dt'], sc['dist'], 'stable' if stable else 'any', fl),
          'n': n, 'p': p, 'm': m, 'dt': enc.dt(dt), 'dist': sc['dist'], 'stable': stable, 'flaw': fl}
    kw = gen.brief(rng, dt=dt, prob_dist=dist, stable=stable)
    ev['out'] = enc.result(lambda: harold.random_state_model(n, p, m, **kw), enc.model)
    return [ev]


def cat(sc, seed, rep):
    import harold
    rng = gen.rng_for(seed, sc, rep)
    x = sc['x']
    g = gen.model(rng, x['k'], x['p'], x['m'], x['gain'], x['dt'])

    def rec(r):
        if not isinstance(r, np.ndarray) or r.ndim != 2:
            return {'k': 'X'}
        own = not any(np.shares_memory(r, z) for z in (g.a, g.b, g.c, g.d) if isinstance(z, np.ndarray))
        return {'k': 'M', 'M': enc.mat(r), 'own': own}
    ev = {'t': 'cat', 'sig': 'concatenate_state_matrices ' + name(x), 'x': enc.model(g)}
    ev['out'] = enc.result(lambda: harold.concatenate_state_matrices(g), rec)
    ev['x2'] = enc.model(g)
    return [ev]


def call(sc, seed, rep):
    return {'rand': rand, 'cat': cat}.get(sc['fn'], plot)(sc, seed, rep)
