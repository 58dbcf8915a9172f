"""Calls with a watch on every object involved."""
import json

import numpy as np

from . import gen, enc
from .ex_algebra import OPS
from .ex_objects import rec


def is_model(x):
    import harold
    return isinstance(x, (harold.State, harold.Transfer))


def content(x):
    if is_model(x):
        return json.dumps(rec(x), sort_keys=True) + repr((x.DiscretizedWith, content(x.DiscretizationMatrix), x.PrewarpFrequency))
    if isinstance(x, np.ndarray):
        return repr((x.dtype, x.shape, x.tobytes()))
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(content(y) for y in x) + ']'
    return repr(x)


def arrays_of(g):
    """The arrays a model shows."""
    import harold
    if isinstance(g, harold.State):
        out = list(g.matrices)
    else:
        out = []
        for q in g.polynomials:
            out += [q] if isinstance(q, np.ndarray) else [x for r in q for x in r]
    for x in (g.poles, g.zeros, g.DiscretizationMatrix):
        if isinstance(x, np.ndarray):
            out.append(x)
    return out


def write(x):
    """Scribble over an object in place."""
    if is_model(x):
        for a in arrays_of(x):
            write(a)
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                write(y)
        elif x.size and x.flags.writeable and x.dtype != bool:
            x += x.dtype.type(1)
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (list, np.ndarray)):
                write(y)
            elif isinstance(y, (int, float)):
                x[i] = y + 1
    elif isinstance(x, tuple):
        for y in x:
            write(y)


def parts(x, name):
    """Named result objects."""
    if isinstance(x, tuple):
        return [q for i, y in enumerate(x) for q in parts(y, '%s.%d' % (name, i))]
    if is_model(x) or isinstance(x, (np.ndarray, list)):
        return [(name, x)]
    return []


def layout(rng, a, lay):
    a = np.asarray(a)
    if lay == 'F':
        return np.asfortranarray(a.astype(float)).copy(order='F')
    if lay == 'int':
        return np.round(a.real*2).astype(int)
    if lay == 'view':
        big = np.zeros(tuple(2*s for s in a.shape))
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if lay == 'list':
        return a.astype(float).tolist()
    return np.array(a, dtype=float, order='C')


def void(x):
    return None


def spd(rng, n):
    x = gen.ints(rng, (n, n), -1, 1)
    return x @ x.T + np.eye(n)


def setup(rng, sc):
    """(argument objects by name, call)"""
    import harold as h
    import matplotlib
    matplotlib.use('Agg')
    fn, lay, k, gain = sc['fn'], sc['lay'], sc['k'], sc['gain']
    p, m = {'siso': (1, 1), 'mimo': (2, 2), 'wide': (1, 2), 'one': (1, 1)}[sc['size']]
    n = 1 if sc['size'] == 'one' else 3

    def L(a):
        return layout(rng, a, lay)

    def M(kk=k, g=gain, pp=p, mm=m, dt='null'):
        return gen.model(rng, kk, pp, mm, g, dt)
    A = gen.amat(rng, n, stable=True)
    B, C, D = gen.ints(rng, (n, m), -2, 2, nz=True), gen.ints(rng, (p, n), -2, 2, nz=True), gen.ints(rng, (p, m), -2, 2, nz=True)
    P1, P2 = np.array([1., 3., 2.]), np.array([2., 4., 1., 3.])
    ar = 'list' not in lay
    S = h.State(A, B, C, D)
    stab = h.State(A, B, C, np.zeros((p, m)))
    t = np.arange(0., 3.)
    if fn == 'staircase':
        a = dict(a=L(A), b=L(B), c=L(C)); return a, lambda: h.staircase(a['a'], a['b'], a['c'], compute_T=True) if ar else None       # noqa: E702
    if fn == 'hessenberg_abc':
        a = dict(g=S); return a, lambda: h.hessenberg_realization(a['g'], compute_T=True, form='o')                   # noqa: E702
    if fn in ('cmat_model', 'omat_model'):
        a = dict(g=S); return a, lambda: (h.controllability_matrix if fn[0] == 'c' else h.observability_matrix)(a['g'], compress=lay == 'F')   # noqa: E702
    if fn in ('controllability_matrix', 'is_kalman_controllable', 'observability_matrix', 'is_kalman_observable', 'is_kalman_raw'):
        if fn == 'is_kalman_raw':
            a = dict(g=S); return a, lambda: h.is_kalman_observable(a['g'])                                            # noqa: E702
        o = 'observ' in fn
        a = dict(a=L(A), b=L(C if o else B))
        return a, lambda: getattr(h, fn)((a['a'], a['b'])) if ar else None
    if fn == 'controllability_indices':
        a = dict(a=L(A), b=L(B)); return a, lambda: h.controllability_indices(a['a'], a['b']) if ar else None          # noqa: E702
    if fn == 'transmission_zeros':
        a = dict(a=L(A), b=L(B), c=L(C), d=L(D)); return a, lambda: h.transmission_zeros(*a.values()) if ar else None  # noqa: E702
    if fn == 'cancellation_distance':
        a = dict(f=L(A), g=L(B)); return a, lambda: h.cancellation_distance(a['f'], a['g']) if ar else None            # noqa: E702
    if fn.startswith('lyapunov'):
        a = dict(a=L(A), y=L(spd(rng, n)))
        if fn.endswith('e'):
            a['e'] = L(spd(rng, n))
        return a, lambda: h.lyapunov_eq_solver(*a.values(), form=fn[9]) if ar else None
    if fn in ('haroldsvd', 'haroldker'):
        a = dict(a=L(gen.ints(rng, (2, 4), -2, 2) if sc['size'] == 'siso' else np.ones((3, 3)))); return a, lambda: getattr(h, fn)(a['a']) if ar else None   # noqa: E702
    if fn == 'matrix_slice':
        a = dict(a=L(A)); return a, lambda: tuple(x.copy() for x in h.matrix_slice(a['a'], (1, 2))) if ar else None    # noqa: E702
    if fn == 'pair_complex_numbers':
        v = np.array([1., -2., 3.])
        z = np.array([1+2j, 3, 1-2j, 0])
        a = dict(a=z if lay == 'C' else z[::-1] if lay == 'view' else L(v)); return a, lambda: h.pair_complex_numbers(a['a'])   # noqa: E702
    if fn in ('haroldcompanion', 'haroldpoly'):
        a = dict(a=L(P2)); return a, lambda: getattr(h, fn)(a['a'])                                                    # noqa: E702
    if fn in ('haroldgcd', 'haroldlcm', 'haroldpolyadd', 'haroldpolymul', 'haroldpolydiv'):
        z = np.array([0., 1., 2.])
        if fn.endswith('div'):
            a = dict(a=L(P2), b=L(P1))
        else:
            a = dict(a=L(P1), b=L(P2 if sc['size'] == 'siso' else P1), c=L(z))
        return a, lambda: getattr(h, fn)(*a.values())
    if fn == 'State':
        a = dict(a=L(A), b=L(B), c=L(C), d=L(D)); return a, lambda: h.State(*a.values())                               # noqa: E702
    if fn == 'State_gain':
        a = dict(d=L(D)); return a, lambda: h.State(a['d'])                                                            # noqa: E702
    if fn == 'Transfer':
        a = dict(num=L(P1), den=L(P2)); return a, lambda: h.Transfer(a['num'], a['den'])                               # noqa: E702
    if fn == 'Transfer_mimo':
        a = dict(num=[[L(P1), L(P1[:2])]], den=[[L(P2), L(P2)]]); return a, lambda: h.Transfer(a['num'], a['den'])     # noqa: E702
    if fn == 'Transfer_common':
        a = dict(num=[[L(P1), L(P1[:2])]], den=L(P2)); return a, lambda: h.Transfer(a['num'], a['den'])                # noqa: E702
    if fn == 'Transfer_gain':
        x = gen.ints(rng, (2, 3), 1, 3) if sc['size'] == 'mimo' else np.array([[2.]])
        a = dict(num=L(x)); return a, lambda: h.Transfer(a['num'])                                                     # noqa: E702
    if fn in ('set_a', 'set_b', 'set_c', 'set_d'):
        q = fn[-1]
        a = dict(v=L({'a': A, 'b': B, 'c': C, 'd': D}[q]))

        def f():
            g = h.State(2*A, B, C, D)
            setattr(g, q, a['v'])
            return g
        return a, f
    if fn in ('set_num', 'set_den'):
        a = dict(v=L(P1) if sc['size'] == 'siso' else [[L(P1), L(P2)]])

        def f():
            g = h.Transfer([1., 2.], [1., 2., 3., 4.]) if sc['size'] == 'siso' else h.Transfer([[[1., 2.], [1., 2.]]], [[[1., 2., 3., 4.]]*2])
            setattr(g, fn[4:], a['v'])
            return g
        return a, f
    if fn in ('set_lft', 'set_lft_t'):
        a = dict(v=L(np.array([[1., 2.], [2., 3.]])))

        def f():
            g = h.Transfer(1., [1., .5], .5) if fn[-1] == 't' and fn != 'set_lft' else h.State(.5, 1., 1., 0., .5)
            g.DiscretizedWith = 'lft'
            g.DiscretizationMatrix = a['v']
            return g
        return a, f
    if fn in ('simulate', 'simulate_x0'):
        a = dict(g=M(kk=k, dt='null'), u=L(gen.ints(rng, (3, m), -2, 2)), t=L(t))
        if fn.endswith('x0'):
            a['g'] = S
            a['x0'] = L(np.array([1., 2., 3.])[:n])
        return a, lambda: h.simulate_linear_system(a['g'], a['u'], a['t'], x0=a.get('x0')) if ar else None
    if fn in ('step', 'impulse'):
        a = dict(g=stab, t=L(t)); return a, lambda: getattr(h, 'simulate_%s_response' % fn)(a['g'], a['t'])           # noqa: E702
    if fn == 'freqresp':
        a = dict(g=M(kk=k), w=L(np.array([1., 2., 3.]))); return a, lambda: h.frequency_response(a['g'], a['w'])        # noqa: E702
    if fn in ('lqr', 'lqr_cross'):
        a = dict(g=S, q=L(spd(rng, n)), r=L(spd(rng, m)))
        if fn == 'lqr_cross':
            a['s'] = L(np.zeros((n, m)))
        return a, lambda: h.lqr(*a.values()) if ar else None
    if fn == 'ackermann':
        g = h.State(A, gen.ints(rng, (n, 1), 1, 2), C, np.zeros((p, 1)))
        a = dict(g=g, l=L(np.array([-1., -2., -3.])[:n])); return a, lambda: h.ackermann(a['g'], a['l'])                    # noqa: E702
    if fn in ('discretize_q', 'undiscretize_q'):
        q = np.array([[1., 1.], [1., .5]])
        if fn[0] == 'd':
            a = dict(g=M(), q=L(q)); return a, lambda: h.discretize(a['g'], 1., 'lft', q=a['q'])                       # noqa: E702
        a = dict(g=M(dt='dt1'), q=L(q)); return a, lambda: h.undiscretize(a['g'], 'lft', q=a['q'])                     # noqa: E702
    if fn in ('bin_array', 'rbin_array'):
        a = dict(g=M(), x=L(gen.ints(rng, (p, m), 1, 3)))
        op = OPS[gen.pick(rng, ['add', 'sub', 'mul'])]
        return a, (lambda: op(a['g'], a['x'])) if fn[0] == 'b' else (lambda: op(a['x'], a['g']))
    if fn == 'feedback_array':
        a = dict(g=M(), x=L(np.zeros((m, p)) + .125)); return a, lambda: h.feedback(a['g'], a['x'])                    # noqa: E702
    if fn == 'minimal_raw':
        a = dict(g=h.State(np.diag([1., 2., 3.][:n]), B*0 + np.eye(n, 1), C, D)); return a, lambda: h.minimal_realization(a['g'])    # noqa: E702
    if fn == 't2s_raw':
        a = dict(num=L(P1), den=L(P2)) if sc['size'] == 'siso' else dict(num=[[L(P1), L(P1)]], den=[[L(P2), L(P1)]])
        return a, lambda: h.transfer_to_state((a['num'], a['den']), output='matrices')
    if fn == 's2t_raw':
        a = dict(a=L(A), b=L(B), c=L(C), d=L(D)); return a, lambda: h.state_to_transfer(tuple(a.values()), output='polynomials')  # noqa: E702
    if fn in ('bode', 'nyquist'):
        a = dict(g=M(), w=L(np.array([1., 2., 3.]))); return a, lambda: void(getattr(h, fn + '_plot')(a['g'], a['w']))   # noqa: E702
    if fn == 'step_plot':
        a = dict(g=stab, t=L(t)); return a, lambda: void(h.step_response_plot(a['g'], a['t']))                      # noqa: E702
    # one or two models
    if fn in OPS:
        a = dict(x=M(), y=gen.model(rng, gen.pick(rng, 'ST'), m if fn == 'matmul' else p, m, bool(rng.random() < .4), 'null', 'inv' if fn == 'div' and p == m else None))
        return a, lambda: OPS[fn](a['x'], a['y'])
    if fn == 'feedback':
        a = dict(x=M(), y=M(kk=gen.pick(rng, 'ST'), pp=m, mm=p)); return a, lambda: h.feedback(a['x'], a['y'])          # noqa: E702
    dt = 'dt1' if fn == 'undiscretize' else 'null'
    g = M(dt=dt)
    if fn in ('norm2', 'norminf', 'step_auto', 'impulse_auto'):
        g = g if gain else h.State(A, B, C, np.zeros((C.shape[0], B.shape[1]))) if k == 'S' else h.Transfer([1., 2.], [1., 2., 3.])
    a = dict(g=g)
    return a, {
        'neg': lambda: -a['g'], 'index': lambda: a['g'][0, :], 'minimal': lambda: h.minimal_realization(a['g']),
        't2s': lambda: h.transfer_to_state(a['g']), 's2t': lambda: h.state_to_transfer(a['g']),
        't2s_mat': lambda: h.transfer_to_state(a['g'], output='matrices'), 's2t_poly': lambda: h.state_to_transfer(a['g'], output='polynomials'),
        'to_array': lambda: a['g'].to_array(), 'dcgain': lambda: a['g'].dcgain, 'poleprops': lambda: a['g'].pole_properties(output_data=True),
        'kalman_decomposition': lambda: h.kalman_decomposition(a['g']), 'hessenberg': lambda: h.hessenberg_realization(a['g']),
        'concatenate': lambda: h.concatenate_state_matrices(a['g']), 'norm2': lambda: h.system_norm(a['g'], 2),
        'norminf': lambda: h.system_norm(a['g']), 'discretize': lambda: h.discretize(a['g'], .5), 'undiscretize': lambda: h.undiscretize(a['g'], 'tustin'),
        'zoh': lambda: h.discretize(a['g'], .5, 'zoh'), 'foh': lambda: h.discretize(a['g'], .5, 'foh'), 'matrices': lambda: h.transfer_to_state(a['g']),
        'freqresp_auto': lambda: h.frequency_response(a['g']), 'step_auto': lambda: h.simulate_step_response(a['g']),
        'impulse_auto': lambda: h.simulate_impulse_response(a['g']), 'bode_list': lambda: void(h.bode_plot([a['g'], a['g']])), 'repr': lambda: repr(a['g'])}[fn]


def call(sc, seed, rep):
    import matplotlib.pyplot as plt
    rng = gen.rng_for(seed, sc, rep)
    args, f = setup(rng, sc)
    objs = [(n, 'arg', x) for n, x in args.items()]
    ev = {'t': 'mem', 'sig': 'mem {fn} {lay} {k} {size}'.format(**sc) + ' gain'*sc['gain'], 'steps': []}

    def snap():
        return {n: content(x) for n, _, x in objs}

    def step(w, act):
        old = snap()
        act()
        new = snap()
        ev['steps'].append({'w': w, 'changed': sorted(n for n in old if old[n] != new[n])})
    hold = {}

    def go():
        hold['out'] = enc.result(f, lambda g: hold.update(g=g) or {'k': 'none'})
    step('call', go)
    plt.close('all')
    ev['out'] = hold['out']
    if 'g' in hold:
        ids = {id(x) for _, _, x in objs}
        res = parts(hold['g'], 'res')
        objs += [(n, 'res', x) for n, x in res]
        for n, x in res:
            if id(x) not in ids:
                step(n, lambda: write(x))
        for n, x in args.items():
            step(n, lambda: write(x))
    ev['objs'] = [{'name': n, 'role': r, 'kind': 'model' if is_model(x) else 'data', 'id': str(id(x))} for n, r, x in objs]
    num = {}
    for o in ev['objs']:
        o['id'] = num.setdefault(o['id'], len(num))
    return [ev]
